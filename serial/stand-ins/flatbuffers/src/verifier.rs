use crate::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum InvalidFlatbuffer {
    MissingRequiredField { required: &'static str },
    InconsistentUnion { field: &'static str },
    Utf8Error { at: usize },
    MissingNullTerminator { at: usize },
    Unaligned { position: usize, kind: &'static str },
    RangeOutOfBounds { start: usize, end: usize },
    SignedOffsetOutOfBounds { soffset: i32, position: usize },
    TooManyTables,
    ApparentSizeTooLarge,
    DepthLimitReached,
}
impl fmt::Display for InvalidFlatbuffer {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "invalid flatbuffer: {:?}", self)
    }
}
impl std::error::Error for InvalidFlatbuffer {}

type R<T = ()> = Result<T, InvalidFlatbuffer>;

#[derive(Clone, Debug)]
pub struct VerifierOptions {
    pub max_depth: usize,
    pub max_tables: usize,
    pub max_apparent_size: usize,
    pub ignore_missing_null_terminator: bool,
}
impl Default for VerifierOptions {
    fn default() -> Self {
        VerifierOptions { max_depth: 64, max_tables: 1_000_000, max_apparent_size: 1 << 31, ignore_missing_null_terminator: false }
    }
}

pub struct Verifier<'o, 'b> {
    buf: &'b [u8],
    opts: &'o VerifierOptions,
    depth: usize,
    tables: usize,
    size: usize,
}

/// What can be verified to lie at a position
pub trait Verifiable {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer>;
}

impl<'o, 'b> Verifier<'o, 'b> {
    pub fn new(opts: &'o VerifierOptions, buf: &'b [u8]) -> Self {
        Verifier { buf, opts, depth: 0, tables: 0, size: 0 }
    }
    pub fn in_buffer<T>(&mut self, pos: usize) -> R {
        self.aligned::<T>(pos)?;
        self.range(pos, size_of::<T>())
    }
    fn aligned<T>(&self, pos: usize) -> R {
        // of the position, not of the address: the original looks at the address, which is the
        // same in a buffer that is aligned
        if pos % std::mem::align_of::<T>() != 0 {
            return Err(InvalidFlatbuffer::Unaligned { position: pos, kind: std::any::type_name::<T>() });
        }
        Ok(())
    }
    fn range(&mut self, pos: usize, n: usize) -> R {
        let end = pos.saturating_add(n);
        if end > self.buf.len() {
            return Err(InvalidFlatbuffer::RangeOutOfBounds { start: pos, end });
        }
        self.size += n;
        if self.size > self.opts.max_apparent_size {
            return Err(InvalidFlatbuffer::ApparentSizeTooLarge);
        }
        Ok(())
    }
    fn u16(&mut self, pos: usize) -> R<u16> {
        self.in_buffer::<u16>(pos)?;
        Ok(u16::from_le_bytes(bytes(self.buf, pos)))
    }
    fn u32(&mut self, pos: usize) -> R<u32> {
        self.in_buffer::<u32>(pos)?;
        Ok(u32::from_le_bytes(bytes(self.buf, pos)))
    }
    fn i32(&mut self, pos: usize) -> R<i32> {
        self.in_buffer::<i32>(pos)?;
        Ok(i32::from_le_bytes(bytes(self.buf, pos)))
    }
    pub fn visit_table<'v>(&'v mut self, pos: usize) -> R<TableVerifier<'v, 'o, 'b>> {
        let so = self.i32(pos)?;
        let vt = pos as i64 - so as i64;
        if vt < 0 || vt >= self.buf.len() as i64 {
            return Err(InvalidFlatbuffer::SignedOffsetOutOfBounds { soffset: so, position: pos });
        }
        let vt = vt as usize;
        let n = self.u16(vt)? as usize;
        self.aligned::<u16>(vt + n)?;
        self.range(vt, n)?;
        self.depth += 1;
        self.tables += 1;
        if self.depth > self.opts.max_depth {
            return Err(InvalidFlatbuffer::DepthLimitReached);
        }
        if self.tables > self.opts.max_tables {
            return Err(InvalidFlatbuffer::TooManyTables);
        }
        Ok(TableVerifier { pos, vt, n, v: self })
    }
    pub fn verify_union_variant<T: Verifiable>(&mut self, _variant: &'static str, pos: usize) -> R {
        T::run_verifier(self, pos)
    }
}

pub struct TableVerifier<'v, 'o, 'b> {
    pos: usize,
    vt: usize,
    n: usize,
    v: &'v mut Verifier<'o, 'b>,
}
impl<'v, 'o, 'b> TableVerifier<'v, 'o, 'b> {
    fn deref(&mut self, field: VOffsetT) -> R<Option<usize>> {
        let f = field as usize;
        if f < self.n {
            let o = self.v.u16(self.vt.saturating_add(f))?;
            if o > 0 {
                return Ok(Some(self.pos.saturating_add(o as usize)));
            }
        }
        Ok(None)
    }
    pub fn visit_field<T: Verifiable>(mut self, name: &'static str, field: VOffsetT, required: bool) -> R<Self> {
        match self.deref(field)? {
            Some(at) => T::run_verifier(self.v, at)?,
            None if required => return Err(InvalidFlatbuffer::MissingRequiredField { required: name }),
            None => (),
        }
        Ok(self)
    }
    pub fn visit_union<Key, UV>(mut self, _key_name: &'static str, key: VOffsetT, name: &'static str, field: VOffsetT, required: bool, f: UV) -> R<Self>
    where
        Key: Follow<'b> + Verifiable,
        UV: FnOnce(Key::Inner, &mut Verifier<'o, 'b>, usize) -> R,
    {
        match (self.deref(key)?, self.deref(field)?) {
            (None, None) if required => return Err(InvalidFlatbuffer::MissingRequiredField { required: name }),
            (None, None) => (),
            (Some(k), Some(p)) => {
                Key::run_verifier(self.v, k)?;
                let disc = unsafe { Key::follow(self.v.buf, k) };
                f(disc, self.v, p)?;
            }
            _ => return Err(InvalidFlatbuffer::InconsistentUnion { field: name }),
        }
        Ok(self)
    }
    pub fn finish(self) {
        self.v.depth -= 1;
    }
}

impl<T: Verifiable> Verifiable for ForwardsUOffset<T> {
    fn run_verifier(v: &mut Verifier, pos: usize) -> R {
        let off = v.u32(pos)? as usize;
        T::run_verifier(v, off.saturating_add(pos))
    }
}

/// The elements of a vector: size and alignment are those of the type that marks them.
fn vector<T>(v: &mut Verifier, pos: usize) -> R<std::ops::Range<usize>> {
    let n = v.u32(pos)? as usize;
    let start = pos.saturating_add(4);
    v.aligned::<T>(start)?;
    let size = n.saturating_mul(size_of::<T>());
    v.range(start, size)?;
    Ok(start..start.saturating_add(size))
}

impl<'a, T: Verifiable + 'a> Verifiable for Vector<'a, T> {
    fn run_verifier(v: &mut Verifier, pos: usize) -> R {
        let range = vector::<T>(v, pos)?;
        for at in range.step_by(size_of::<T>()) {
            T::run_verifier(v, at)?;
        }
        Ok(())
    }
}

impl<'a> Verifiable for &'a str {
    fn run_verifier(v: &mut Verifier, pos: usize) -> R {
        let range = vector::<u8>(v, pos)?;
        let at = range.end;
        std::str::from_utf8(&v.buf[range]).map_err(|_| InvalidFlatbuffer::Utf8Error { at: pos })?;
        if !v.opts.ignore_missing_null_terminator && v.buf.get(at) != Some(&0) {
            return Err(InvalidFlatbuffer::MissingNullTerminator { at });
        }
        Ok(())
    }
}
