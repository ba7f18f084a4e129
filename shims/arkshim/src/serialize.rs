pub use ark_serialize_derive_shim::{CanonicalDeserialize, CanonicalSerialize};
pub use std::io::{Read, Write};

#[derive(Debug)]
pub enum SerializationError {
    NotEnoughSpace,
    InvalidData,
    UnexpectedFlags,
    IoError(std::io::Error),
}
impl std::error::Error for SerializationError {}
impl From<std::io::Error> for SerializationError {
    fn from(e: std::io::Error) -> Self { SerializationError::IoError(e) }
}
impl std::fmt::Display for SerializationError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::NotEnoughSpace => write!(f, "the last byte does not have enough space to encode the extra info bits"),
            Self::InvalidData => write!(f, "the input buffer contained invalid data"),
            Self::UnexpectedFlags => write!(f, "the call expects empty flags"),
            Self::IoError(e) => write!(f, "I/O error: {:?}", e),
        }
    }
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Compress { Yes, No }
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Validate { Yes, No }

pub trait Valid: Sync {
    fn check(&self) -> Result<(), SerializationError>;
}
pub trait CanonicalSerialize {
    fn serialize_with_mode<W: Write>(&self, writer: W, compress: Compress) -> Result<(), SerializationError>;
    fn serialized_size(&self, compress: Compress) -> usize;
    fn serialize_compressed<W: Write>(&self, writer: W) -> Result<(), SerializationError> {
        self.serialize_with_mode(writer, Compress::Yes)
    }
    fn compressed_size(&self) -> usize { self.serialized_size(Compress::Yes) }
    fn serialize_uncompressed<W: Write>(&self, writer: W) -> Result<(), SerializationError> {
        self.serialize_with_mode(writer, Compress::No)
    }
    fn uncompressed_size(&self) -> usize { self.serialized_size(Compress::No) }
}
pub trait CanonicalDeserialize: Valid + Sized {
    fn deserialize_with_mode<R: Read>(reader: R, compress: Compress, validate: Validate) -> Result<Self, SerializationError>;
    fn deserialize_compressed<R: Read>(reader: R) -> Result<Self, SerializationError> {
        Self::deserialize_with_mode(reader, Compress::Yes, Validate::Yes)
    }
    fn deserialize_compressed_unchecked<R: Read>(reader: R) -> Result<Self, SerializationError> {
        Self::deserialize_with_mode(reader, Compress::Yes, Validate::No)
    }
    fn deserialize_uncompressed<R: Read>(reader: R) -> Result<Self, SerializationError> {
        Self::deserialize_with_mode(reader, Compress::No, Validate::Yes)
    }
    fn deserialize_uncompressed_unchecked<R: Read>(reader: R) -> Result<Self, SerializationError> {
        Self::deserialize_with_mode(reader, Compress::No, Validate::No)
    }
}
pub trait CanonicalSerializeHashExt {}

macro_rules! ints { ($($t:ty),*) => { $(
    impl Valid for $t { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
    impl CanonicalSerialize for $t {
        fn serialize_with_mode<W: Write>(&self, mut w: W, _c: Compress) -> Result<(), SerializationError> {
            Ok(w.write_all(&self.to_le_bytes())?)
        }
        fn serialized_size(&self, _c: Compress) -> usize { std::mem::size_of::<$t>() }
    }
    impl CanonicalDeserialize for $t {
        fn deserialize_with_mode<R: Read>(mut r: R, _c: Compress, _v: Validate) -> Result<Self, SerializationError> {
            let mut b = [0u8; std::mem::size_of::<$t>()];
            r.read_exact(&mut b)?;
            Ok(<$t>::from_le_bytes(b))
        }
    }
)* } }
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64);

impl Valid for bool { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
impl CanonicalSerialize for bool {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { (*self as u8).serialize_with_mode(w, c) }
    fn serialized_size(&self, _c: Compress) -> usize { 1 }
}
impl CanonicalDeserialize for bool {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        match u8::deserialize_with_mode(r, c, v)? { 0 => Ok(false), 1 => Ok(true), _ => Err(SerializationError::InvalidData) }
    }
}
impl Valid for usize { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
impl CanonicalSerialize for usize {
    fn serialize_with_mode<W: Write>(&self, mut w: W, _c: Compress) -> Result<(), SerializationError> { Ok(w.write_all(&(*self as u64).to_le_bytes())?) }
    fn serialized_size(&self, _c: Compress) -> usize { 8 }
}
impl CanonicalDeserialize for usize {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok(u64::deserialize_with_mode(r, c, v)? as usize) }
}
impl<T: Valid> Valid for Vec<T> {
    fn check(&self) -> Result<(), SerializationError> { self.iter().try_for_each(|x| x.check()) }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Vec<T> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { self.as_slice().serialize_with_mode(w, c) }
    fn serialized_size(&self, c: Compress) -> usize { self.as_slice().serialized_size(c) }
}
impl<T: CanonicalSerialize> CanonicalSerialize for [T] {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
        (self.len() as u64).serialize_with_mode(&mut w, c)?;
        for x in self { x.serialize_with_mode(&mut w, c)?; }
        Ok(())
    }
    fn serialized_size(&self, c: Compress) -> usize { 8 + self.iter().map(|x| x.serialized_size(c)).sum::<usize>() }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Vec<T> {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        let len = u64::deserialize_with_mode(&mut r, c, v)?;
        let mut out = Vec::new();
        for _ in 0..len { out.push(T::deserialize_with_mode(&mut r, c, v)?); }
        Ok(out)
    }
}
impl<T: Valid, const N: usize> Valid for [T; N] {
    fn check(&self) -> Result<(), SerializationError> { self.iter().try_for_each(|x| x.check()) }
}
impl<T: CanonicalSerialize, const N: usize> CanonicalSerialize for [T; N] {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
        for x in self { x.serialize_with_mode(&mut w, c)?; }
        Ok(())
    }
    fn serialized_size(&self, c: Compress) -> usize { self.iter().map(|x| x.serialized_size(c)).sum() }
}
impl<T: CanonicalDeserialize, const N: usize> CanonicalDeserialize for [T; N] {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        let mut out = Vec::with_capacity(N);
        for _ in 0..N { out.push(T::deserialize_with_mode(&mut r, c, v)?); }
        out.try_into().map_err(|_| SerializationError::InvalidData)
    }
}
impl<T: CanonicalSerialize> CanonicalSerialize for &T {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { (*self).serialize_with_mode(w, c) }
    fn serialized_size(&self, c: Compress) -> usize { (*self).serialized_size(c) }
}
impl Valid for String { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
impl CanonicalSerialize for String {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { self.as_bytes().serialize_with_mode(w, c) }
    fn serialized_size(&self, _c: Compress) -> usize { 8 + self.len() }
}
impl CanonicalDeserialize for String {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        String::from_utf8(Vec::<u8>::deserialize_with_mode(r, c, v)?).map_err(|_| SerializationError::InvalidData)
    }
}
impl<T: Valid> Valid for Option<T> {
    fn check(&self) -> Result<(), SerializationError> { match self { Some(x) => x.check(), None => Ok(()) } }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Option<T> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
        self.is_some().serialize_with_mode(&mut w, c)?;
        if let Some(x) = self { x.serialize_with_mode(&mut w, c)?; }
        Ok(())
    }
    fn serialized_size(&self, c: Compress) -> usize { 1 + self.as_ref().map(|x| x.serialized_size(c)).unwrap_or(0) }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Option<T> {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        Ok(if bool::deserialize_with_mode(&mut r, c, v)? { Some(T::deserialize_with_mode(&mut r, c, v)?) } else { None })
    }
}
macro_rules! tuples { ($(($($n:ident $i:tt),*)),*) => { $(
    impl<$($n: Valid),*> Valid for ($($n,)*) { fn check(&self) -> Result<(), SerializationError> { $(self.$i.check()?;)* Ok(()) } }
    impl<$($n: CanonicalSerialize),*> CanonicalSerialize for ($($n,)*) {
        fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> { $(self.$i.serialize_with_mode(&mut w, c)?;)* Ok(()) }
        fn serialized_size(&self, c: Compress) -> usize { 0 $(+ self.$i.serialized_size(c))* }
    }
    impl<$($n: CanonicalDeserialize),*> CanonicalDeserialize for ($($n,)*) {
        fn deserialize_with_mode<R_: Read>(mut r: R_, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok(($($n::deserialize_with_mode(&mut r, c, v)?,)*)) }
    }
)* } }
tuples!((A 0, B 1), (A 0, B 1, C 2), (A 0, B 1, C 2, D 3));
