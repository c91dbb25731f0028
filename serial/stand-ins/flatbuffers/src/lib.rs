//! Stand-in for the part of the flatbuffers crate (22) that the serializer and its generated code
//! use. It reads and writes the FlatBuffers wire format: buffers are built from the back, tables
//! have vtables, and the verifier has the limits and the rules of the original's.
use std::fmt;
use std::marker::PhantomData;
use std::mem::size_of;

mod builder;
mod verifier;
pub use builder::FlatBufferBuilder;
pub use verifier::*;

pub type UOffsetT = u32;
pub type SOffsetT = i32;
pub type VOffsetT = u16;
pub const SIZE_UOFFSET: usize = 4;
pub const SIZE_SOFFSET: usize = 4;
pub const SIZE_VOFFSET: usize = 2;
pub const FILE_IDENTIFIER_LENGTH: usize = 4;
pub const FLATBUFFERS_MAX_BUFFER_SIZE: usize = (1usize << 31) - 1;

/// How to read a value that lies, or is pointed to, at `loc`
pub trait Follow<'buf> {
    type Inner;
    /// # Safety
    /// There must be such a value.
    unsafe fn follow(buf: &'buf [u8], loc: usize) -> Self::Inner;
}

/// What can be written into a table or a vector
pub trait Push: Sized {
    type Output;
    fn size() -> usize {
        size_of::<Self::Output>()
    }
    fn alignment() -> usize {
        Self::size()
    }
    /// # Safety
    /// `dst` must have the size of the value; `written` is the number of bytes from the start of
    /// `dst` to the end of the buffer.
    unsafe fn push(&self, dst: &mut [u8], written: usize);
}

pub(crate) fn bytes<const N: usize>(buf: &[u8], loc: usize) -> [u8; N] {
    buf[loc..loc + N].try_into().unwrap()
}

macro_rules! scalars {
    ($($t:ty),*) => {$(
        impl<'a> Follow<'a> for $t {
            type Inner = $t;
            unsafe fn follow(buf: &'a [u8], loc: usize) -> $t {
                <$t>::from_le_bytes(bytes(buf, loc))
            }
        }
        impl Push for $t {
            type Output = $t;
            unsafe fn push(&self, dst: &mut [u8], _: usize) {
                dst.copy_from_slice(&self.to_le_bytes());
            }
        }
        impl Verifiable for $t {
            fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
                v.in_buffer::<$t>(pos)
            }
        }
    )*};
}
scalars!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);

impl<'a> Follow<'a> for bool {
    type Inner = bool;
    unsafe fn follow(buf: &'a [u8], loc: usize) -> bool {
        buf[loc] != 0
    }
}
impl Push for bool {
    type Output = bool;
    unsafe fn push(&self, dst: &mut [u8], _: usize) {
        dst[0] = *self as u8;
    }
}
impl Verifiable for bool {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
        v.in_buffer::<u8>(pos)
    }
}

/// Where something was written, counted from the end of the buffer
pub struct WIPOffset<T>(UOffsetT, PhantomData<T>);
impl<T> Copy for WIPOffset<T> {}
impl<T> Clone for WIPOffset<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> PartialEq for WIPOffset<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T> Eq for WIPOffset<T> {}
impl<T> fmt::Debug for WIPOffset<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "WIPOffset({})", self.0)
    }
}
impl<T> WIPOffset<T> {
    pub fn new(o: UOffsetT) -> Self {
        WIPOffset(o, PhantomData)
    }
    pub fn value(self) -> UOffsetT {
        self.0
    }
    pub fn as_union_value(self) -> WIPOffset<UnionWIPOffset> {
        WIPOffset::new(self.0)
    }
}
impl<T> Push for WIPOffset<T> {
    type Output = ForwardsUOffset<T>;
    unsafe fn push(&self, dst: &mut [u8], written: usize) {
        let n = (written as UOffsetT).wrapping_sub(self.0);
        dst.copy_from_slice(&n.to_le_bytes());
    }
}

pub struct UnionWIPOffset;
pub struct TableFinishedWIPOffset;
pub struct TableUnfinishedWIPOffset;

/// An offset, from itself forwards, to a `T`
pub struct ForwardsUOffset<T>(UOffsetT, PhantomData<T>);
impl<T> Copy for ForwardsUOffset<T> {}
impl<T> Clone for ForwardsUOffset<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a, T: Follow<'a>> Follow<'a> for ForwardsUOffset<T> {
    type Inner = T::Inner;
    unsafe fn follow(buf: &'a [u8], loc: usize) -> T::Inner {
        T::follow(buf, loc + u32::from_le_bytes(bytes(buf, loc)) as usize)
    }
}

impl<'a> Follow<'a> for &'a str {
    type Inner = &'a str;
    unsafe fn follow(buf: &'a [u8], loc: usize) -> &'a str {
        let n = u32::from_le_bytes(bytes(buf, loc)) as usize;
        std::str::from_utf8(&buf[loc + 4..loc + 4 + n]).expect("an unverified string")
    }
}

/// A vector as it lies in a buffer
pub struct Vector<'a, T: 'a>(&'a [u8], usize, PhantomData<T>);
impl<'a, T> Copy for Vector<'a, T> {}
impl<'a, T> Clone for Vector<'a, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a, T: 'a> Default for Vector<'a, T> {
    fn default() -> Self {
        Vector(&[0; 4], 0, PhantomData)
    }
}
impl<'a, T: Follow<'a> + 'a> Follow<'a> for Vector<'a, T> {
    type Inner = Vector<'a, T>;
    unsafe fn follow(buf: &'a [u8], loc: usize) -> Self {
        Vector(buf, loc, PhantomData)
    }
}
impl<'a, T: 'a> Vector<'a, T> {
    pub fn len(&self) -> usize {
        u32::from_le_bytes(bytes(self.0, self.1)) as usize
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn bytes(&self) -> &'a [u8] {
        let at = self.1 + 4;
        &self.0[at..at + self.len() * size_of::<T>()]
    }
}
impl<'a, T: Follow<'a> + 'a> Vector<'a, T> {
    pub fn get(&self, idx: usize) -> T::Inner {
        assert!(idx < self.len());
        unsafe { T::follow(self.0, self.1 + 4 + idx * size_of::<T>()) }
    }
    pub fn iter(&self) -> VectorIter<'a, T> {
        VectorIter { v: *self, at: 0, end: self.len() }
    }
}
impl<'a, T> fmt::Debug for Vector<'a, T>
where
    T: Follow<'a> + 'a,
    T::Inner: fmt::Debug,
{
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_list().entries(self.iter()).finish()
    }
}
impl<'a, T: Follow<'a> + 'a> IntoIterator for Vector<'a, T> {
    type Item = T::Inner;
    type IntoIter = VectorIter<'a, T>;
    fn into_iter(self) -> VectorIter<'a, T> {
        self.iter()
    }
}
impl<'a, 'b, T: Follow<'a> + 'a> IntoIterator for &'b Vector<'a, T> {
    type Item = T::Inner;
    type IntoIter = VectorIter<'a, T>;
    fn into_iter(self) -> VectorIter<'a, T> {
        self.iter()
    }
}

pub struct VectorIter<'a, T: 'a> {
    v: Vector<'a, T>,
    at: usize,
    end: usize,
}
impl<'a, T: 'a> Clone for VectorIter<'a, T> {
    fn clone(&self) -> Self {
        VectorIter { v: self.v, at: self.at, end: self.end }
    }
}
impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
    type Item = T::Inner;
    fn next(&mut self) -> Option<T::Inner> {
        self.nth(0)
    }
    fn nth(&mut self, n: usize) -> Option<T::Inner> {
        self.at = self.at.saturating_add(n).min(self.end);
        if self.at == self.end {
            return None;
        }
        self.at += 1;
        Some(self.v.get(self.at - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.end - self.at, Some(self.end - self.at))
    }
}
impl<'a, T: Follow<'a> + 'a> DoubleEndedIterator for VectorIter<'a, T> {
    fn next_back(&mut self) -> Option<T::Inner> {
        if self.at == self.end {
            return None;
        }
        self.end -= 1;
        Some(self.v.get(self.end))
    }
}
impl<'a, T: Follow<'a> + 'a> ExactSizeIterator for VectorIter<'a, T> {}
impl<'a, T: Follow<'a> + 'a> std::iter::FusedIterator for VectorIter<'a, T> {}

/// A table as it lies in a buffer
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Table<'a> {
    pub buf: &'a [u8],
    pub loc: usize,
}
impl<'a> Table<'a> {
    /// # Safety
    /// There must be a table at `loc`.
    pub unsafe fn new(buf: &'a [u8], loc: usize) -> Self {
        Table { buf, loc }
    }
    pub(crate) fn slot(&self, field: VOffsetT) -> Option<usize> {
        let vt = (self.loc as i64 - i32::from_le_bytes(bytes(self.buf, self.loc)) as i64) as usize;
        let n = u16::from_le_bytes(bytes(self.buf, vt));
        if field >= n {
            return None;
        }
        match u16::from_le_bytes(bytes(self.buf, vt + field as usize)) {
            0 => None,
            o => Some(self.loc + o as usize),
        }
    }
    /// # Safety
    /// The field, if there is one, must be a `T`.
    pub unsafe fn get<T: Follow<'a> + 'a>(&self, field: VOffsetT, default: Option<T::Inner>) -> Option<T::Inner> {
        match self.slot(field) {
            None => default,
            Some(at) => Some(T::follow(self.buf, at)),
        }
    }
}
impl<'a> Follow<'a> for Table<'a> {
    type Inner = Table<'a>;
    unsafe fn follow(buf: &'a [u8], loc: usize) -> Self {
        Table { buf, loc }
    }
}

/// Reads the root of a buffer after verifying all of it.
pub fn root<'b, T: 'b + Follow<'b> + Verifiable>(data: &'b [u8]) -> Result<T::Inner, InvalidFlatbuffer> {
    root_with_opts::<T>(&VerifierOptions::default(), data)
}

pub fn root_with_opts<'o, 'b, T: 'b + Follow<'b> + Verifiable>(opts: &'o VerifierOptions, data: &'b [u8]) -> Result<T::Inner, InvalidFlatbuffer> {
    let mut v = Verifier::new(opts, data);
    <ForwardsUOffset<T>>::run_verifier(&mut v, 0)?;
    Ok(unsafe { root_unchecked::<T>(data) })
}

/// # Safety
/// The buffer must be valid.
pub unsafe fn root_unchecked<'b, T: Follow<'b> + 'b>(data: &'b [u8]) -> T::Inner {
    <ForwardsUOffset<T>>::follow(data, 0)
}

/// Whether the buffer has the file identifier given.
pub fn buffer_has_identifier(data: &[u8], ident: &str, size_prefixed: bool) -> bool {
    assert_eq!(ident.len(), FILE_IDENTIFIER_LENGTH);
    let at = if size_prefixed { 8 } else { 4 };
    data.get(at..at + 4) == Some(ident.as_bytes())
}
