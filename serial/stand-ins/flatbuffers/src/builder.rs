use crate::*;

/// Builds a buffer from its back.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct FlatBufferBuilder<'fbb> {
    buf: Vec<u8>,
    head: usize,
    fields: Vec<(VOffsetT, UOffsetT)>,
    /// where vtables were written, from the end
    vtables: Vec<UOffsetT>,
    nested: bool,
    finished: bool,
    min_align: usize,
    force_defaults: bool,
    of: PhantomData<&'fbb ()>,
}

impl<'fbb> Default for FlatBufferBuilder<'fbb> {
    fn default() -> Self {
        Self::new()
    }
}

impl<'fbb> FlatBufferBuilder<'fbb> {
    pub fn new() -> Self {
        Self::with_capacity(0)
    }
    pub fn with_capacity(size: usize) -> Self {
        assert!(size <= FLATBUFFERS_MAX_BUFFER_SIZE, "cannot initialize buffer bigger than 2 gigabytes");
        FlatBufferBuilder {
            buf: vec![0; size],
            head: size,
            fields: vec![],
            vtables: vec![],
            nested: false,
            finished: false,
            min_align: 0,
            force_defaults: false,
            of: PhantomData,
        }
    }
    pub fn reset(&mut self) {
        self.buf.fill(0);
        self.head = self.buf.len();
        self.vtables.clear();
        self.nested = false;
        self.finished = false;
        self.min_align = 0;
    }
    pub fn force_defaults(&mut self, f: bool) {
        self.force_defaults = f;
    }

    fn used(&self) -> usize {
        self.buf.len() - self.head
    }
    fn grow(&mut self, want: usize) {
        while self.head < want {
            let old = self.buf.len();
            let new = std::cmp::max(1, old * 2);
            assert!(new <= FLATBUFFERS_MAX_BUFFER_SIZE * 2, "cannot grow buffer beyond 2 gigabytes");
            let mut b = vec![0; new];
            b[new - old..].copy_from_slice(&self.buf);
            self.head += new - old;
            self.buf = b;
        }
    }
    fn make(&mut self, n: usize) -> usize {
        self.grow(n);
        self.head -= n;
        self.head
    }
    fn align(&mut self, len: usize, to: usize) {
        self.min_align = self.min_align.max(to);
        let pad = (!(self.used() + len)).wrapping_add(1) & (to - 1);
        let at = self.make(pad);
        self.buf[at..at + pad].fill(0);
    }

    pub fn push<P: Push>(&mut self, x: P) -> WIPOffset<P::Output> {
        let n = P::size();
        self.align(n, P::alignment());
        self.make(n);
        let (head, written) = (self.head, self.used());
        unsafe { x.push(&mut self.buf[head..head + n], written) };
        WIPOffset::new(self.used() as UOffsetT)
    }

    fn not_nested(&self, what: &str) {
        assert!(!self.nested, "{} can not be called when a table or vector is under construction", what);
    }
    fn nested(&self, what: &str) {
        assert!(self.nested, "incorrect FlatBufferBuilder usage: {} must be called while in a nested state", what);
    }

    pub fn create_string(&mut self, s: &str) -> WIPOffset<&'fbb str> {
        self.not_nested("create_string");
        WIPOffset::new(self.bytes(s.as_bytes(), true))
    }
    pub fn create_shared_string(&mut self, s: &str) -> WIPOffset<&'fbb str> {
        self.create_string(s)
    }
    pub fn create_byte_string(&mut self, data: &[u8]) -> WIPOffset<&'fbb [u8]> {
        self.not_nested("create_byte_string");
        WIPOffset::new(self.bytes(data, true))
    }
    fn bytes(&mut self, data: &[u8], zero: bool) -> UOffsetT {
        self.align(data.len() + zero as usize, SIZE_UOFFSET);
        if zero {
            let at = self.make(1);
            self.buf[at] = 0;
        }
        let at = self.make(data.len());
        self.buf[at..at + data.len()].copy_from_slice(data);
        self.push(data.len() as UOffsetT);
        self.used() as UOffsetT
    }

    pub fn start_vector<T: Push>(&mut self, n: usize) {
        self.not_nested("start_vector");
        self.nested = true;
        self.align(n * T::size(), T::alignment().max(SIZE_UOFFSET));
    }
    pub fn end_vector<T: Push>(&mut self, n: usize) -> WIPOffset<Vector<'fbb, T>> {
        self.nested("end_vector");
        self.nested = false;
        WIPOffset::new(self.push(n as UOffsetT).value())
    }
    pub fn create_vector<'a: 'b, 'b, T: Push + Copy + 'b>(&'a mut self, items: &'b [T]) -> WIPOffset<Vector<'fbb, T::Output>> {
        self.create_vector_from_iter(items.iter().copied())
    }
    pub fn create_vector_from_iter<T: Push + Copy>(
        &mut self,
        items: impl ExactSizeIterator<Item = T> + DoubleEndedIterator,
    ) -> WIPOffset<Vector<'fbb, T::Output>> {
        self.not_nested("create_vector");
        let n = items.len();
        self.align(n * T::size(), T::alignment().max(SIZE_UOFFSET));
        for i in items.rev() {
            self.push(i);
        }
        WIPOffset::new(self.push(n as UOffsetT).value())
    }

    pub fn start_table(&mut self) -> WIPOffset<TableUnfinishedWIPOffset> {
        self.not_nested("start_table");
        self.nested = true;
        WIPOffset::new(self.used() as UOffsetT)
    }
    pub fn push_slot<X: Push + PartialEq>(&mut self, slot: VOffsetT, x: X, default: X) {
        self.nested("push_slot");
        if x != default || self.force_defaults {
            self.push_slot_always(slot, x);
        }
    }
    pub fn push_slot_always<X: Push>(&mut self, slot: VOffsetT, x: X) {
        self.nested("push_slot_always");
        let at = self.push(x).value();
        self.fields.push((slot, at));
    }
    pub fn end_table(&mut self, start: WIPOffset<TableUnfinishedWIPOffset>) -> WIPOffset<TableFinishedWIPOffset> {
        self.nested("end_table");
        let table = self.push(0i32).value();
        let most = self.fields.iter().map(|f| f.0 as usize).max().unwrap_or(2);
        let mut vt = vec![0u8; most + 2];
        let n = vt.len() as u16;
        vt[..2].copy_from_slice(&n.to_le_bytes());
        vt[2..4].copy_from_slice(&((table - start.value()) as u16).to_le_bytes());
        for (slot, at) in self.fields.drain(..) {
            let o = (table - at) as u16;
            vt[slot as usize..slot as usize + 2].copy_from_slice(&o.to_le_bytes());
        }
        let len = self.buf.len();
        let same = self.vtables.iter().copied().find(|&v| {
            let at = len - v as usize;
            self.buf[at..].starts_with(&vt)
        });
        let vt_at = match same {
            Some(v) => v,
            None => {
                let at = self.make(vt.len());
                self.buf[at..at + vt.len()].copy_from_slice(&vt);
                let v = self.used() as UOffsetT;
                self.vtables.push(v);
                v
            }
        };
        let at = self.buf.len() - table as usize;
        let so = vt_at as i32 - table as i32;
        self.buf[at..at + 4].copy_from_slice(&so.to_le_bytes());
        self.nested = false;
        WIPOffset::new(table)
    }
    pub fn required(&self, table: WIPOffset<TableFinishedWIPOffset>, slot: VOffsetT, name: &'static str) {
        let t = Table { buf: &self.buf, loc: self.buf.len() - table.value() as usize };
        assert!(t.slot(slot).is_some(), "missing required field {}", name);
    }

    pub fn finish<T>(&mut self, root: WIPOffset<T>, ident: Option<&str>) {
        assert!(!self.finished, "the buffer is finished already");
        self.not_nested("finish");
        self.vtables.clear();
        let extra = if ident.is_some() { FILE_IDENTIFIER_LENGTH } else { 0 };
        let to = self.min_align.max(1);
        self.align(SIZE_UOFFSET + extra, to);
        if let Some(id) = ident {
            assert_eq!(id.len(), FILE_IDENTIFIER_LENGTH);
            let at = self.make(4);
            self.buf[at..at + 4].copy_from_slice(id.as_bytes());
        }
        self.push(root);
        self.finished = true;
    }
    pub fn finish_minimal<T>(&mut self, root: WIPOffset<T>) {
        self.finish(root, None);
    }
    pub fn finished_data(&self) -> &[u8] {
        assert!(self.finished, "the buffer is not finished");
        &self.buf[self.head..]
    }
    pub fn unfinished_data(&self) -> &[u8] {
        &self.buf[self.head..]
    }
    pub fn collapse(self) -> (Vec<u8>, usize) {
        (self.buf, self.head)
    }
    pub fn num_written_vtables(&self) -> usize {
        self.vtables.len()
    }
}
