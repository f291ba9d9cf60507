//! Stored types, sample values and property values, encoded independently of the library.
use labview_interop::types::LVTime;
use tedium::types::{Complex, ExtendedRaw};
use tedium::{PropertyValue, TdmsStorageType};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ty {
    I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Ext, F32U, F64U, ExtU, Str, Bool, Time, C32, C64,
}
use Ty::*;

/// Every stored type with fixed-size samples the library has a storage type for.
pub const FIXED: [Ty; 18] = [I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Ext, F32U, F64U, ExtU, Bool, Time, C32, C64];
/// The types a storage type is naturally written as.
pub const NATURAL: [Ty; 15] = [I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Ext, Bool, Time, C32, C64];

impl Ty {
    pub fn code(self) -> u32 {
        match self {
            I8 => 1, I16 => 2, I32 => 3, I64 => 4, U8 => 5, U16 => 6, U32 => 7, U64 => 8,
            F32 => 9, F64 => 10, Ext => 11, F64U => 12, ExtU => 13, F32U => 0x19,
            Str => 0x20, Bool => 0x21, Time => 0x44, C32 => 0x0008_000c, C64 => 0x0010_000d,
        }
    }
    pub fn from_code(c: u32) -> Option<Ty> {
        let mut all = FIXED.to_vec();
        all.push(Str);
        all.into_iter().find(|t| t.code() == c)
    }
    pub fn size(self) -> usize {
        match self {
            I8 | U8 | Bool => 1,
            I16 | U16 => 2,
            I32 | U32 | F32 | F32U => 4,
            I64 | U64 | F64 | F64U | C32 => 8,
            Ext | ExtU => 10,
            Time | C64 => 16,
            Str => 0,
        }
    }
    /// The type whose storage type decodes this stored type natively.
    pub fn natural(self) -> Ty {
        match self {
            F32U => F32, F64U => F64, ExtU => Ext, x => x,
        }
    }
    /// Component size for byte order.
    fn unit(self) -> usize {
        match self {
            C32 => 4, C64 => 8, x => x.size(),
        }
    }
}

fn mix(k: u32, i: u32) -> u8 {
    let mut x = (k as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ ((i as u64 + 1).wrapping_mul(0xD6E8_FEB8_6659_FD93));
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 29;
    x as u8
}

/// The canonical (little endian) bytes of sample number `k` of a stored type.
pub fn canon(ty: Ty, k: u32) -> Vec<u8> {
    canon16(ty, k)[..ty.size()].to_vec()
}
/// Samples numbered from `pattern(p)` on hold consecutive pieces of a byte pattern.
pub const PATTERNS: usize = 12;
pub fn pattern(p: usize) -> u32 {
    0xF000_0000 | ((p as u32) << 20)
}
fn pattern_byte(p: u32, i: usize) -> u8 {
    // an empty segment; and one that adds a property and raw data
    const EMPTY: &[u8] = b"TDSm\x00\x00\x00\x00\x69\x12\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
    const FULL: &[u8] = b"TDSm\x0e\x00\x00\x00\x69\x12\x00\x00\x39\x00\x00\x00\x00\x00\x00\x00\x35\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x08\x00\x00\x00/'g'/'a'\x14\x00\x00\x00\x03\x00\x00\x00\x01\x00\x00\x00\x02\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x01\x00\x00\x00x\x03\x00\x00\x00\x63\x00\x00\x00AAAA";
    match p {
        0 => 0,
        1 => 0xFF,
        2 => b"TDSm"[i % 4],
        3 => EMPTY[i % EMPTY.len()],
        4 => FULL[i % FULL.len()],
        5 => b"TDSh"[i % 4],
        6 => [0x00, 0x80][i % 2],
        7 => [0x7F, 0xFF][i % 2],
        8 => b"\r\n\x1a\x04"[i % 4],
        9 => if i.is_multiple_of(64) { 1 } else { 0 },
        10 => if i % 8192 < 4096 { 0 } else { 0x11 },
        _ => 0x41,
    }
}
fn canon16(ty: Ty, k: u32) -> [u8; 16] {
    let mut v = [0u8; 16];
    if k >= pattern(0) {
        let p = (k >> 20) & 0xFF;
        let at = (k & 0xF_FFFF) as usize * ty.size();
        for (i, x) in v.iter_mut().enumerate().take(ty.size()) {
            *x = pattern_byte(p, at + i);
        }
        if ty == Bool {
            v[0] = (v[0] != 0) as u8;
        }
        return v;
    }
    if ty == Bool {
        v[0] = ((k ^ (k >> 3)).count_ones() & 1) as u8;
        return v;
    }
    for (i, x) in v.iter_mut().enumerate().take(ty.size()) {
        *x = mix(k, i as u32);
    }
    v[0] = (k.wrapping_mul(0x9D).wrapping_add(7)) as u8; // a bijection on k mod 256
    if ty.size() > 1 {
        v[1] = ((k >> 8) as u8).wrapping_mul(0xB5).wrapping_add(v[0] ^ 0x5A);
    }
    v
}
/// The value the library must deliver for sample (stored, k) read as T.
pub fn value<T: Sample>(stored: Ty, k: u32) -> T {
    debug_assert!(supports(T::TY, stored));
    let mut b = canon16(stored, k);
    if T::TY == Bool {
        b[0] = (b[0] != 0) as u8;
    }
    T::from_canon(&b[..T::TY.size()])
}
/// A value different from `value(stored, k)`.
pub fn poisoned<T: Sample>(stored: Ty, k: u32) -> T {
    let mut b = canon16(stored, k);
    if T::TY == Bool {
        b[0] = (b[0] == 0) as u8;
    } else {
        for (i, x) in b.iter_mut().enumerate() {
            *x ^= 0xA5u8.wrapping_add(i as u8);
        }
    }
    T::from_canon(&b[..T::TY.size()])
}

/// Bytes on disk.
pub fn enc(ty: Ty, k: u32, be: bool) -> Vec<u8> {
    to_order(ty, canon(ty, k), be)
}
pub fn to_order(ty: Ty, mut v: Vec<u8>, be: bool) -> Vec<u8> {
    if be {
        for c in v.chunks_mut(ty.unit().max(1)) {
            c.reverse();
        }
    }
    v
}

/// A storage type of the library, with a way to make and compare values from canonical bytes.
pub trait Sample: TdmsStorageType + Clone {
    const TY: Ty;
    fn from_canon(b: &[u8]) -> Self;
    /// Canonical bytes of the value as seen through its public surface.
    fn same(&self, b: &[u8]) -> bool;
    fn show(&self) -> String;
    /// Bitwise equality.
    fn eq(&self, o: &Self) -> bool;
}
macro_rules! num {
    ($($t:ty, $ty:ident, $bits:ident);*) => {$(
        impl Sample for $t {
            const TY: Ty = Ty::$ty;
            fn from_canon(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().unwrap()) }
            fn same(&self, b: &[u8]) -> bool { self.to_le_bytes()[..] == *b }
            fn eq(&self, o: &Self) -> bool { self.to_le_bytes() == o.to_le_bytes() }
            fn show(&self) -> String { format!("{:x?}", self.to_le_bytes()) }
        }
    )*};
}
num!(i8, I8, x; i16, I16, x; i32, I32, x; i64, I64, x; u8, U8, x; u16, U16, x; u32, U32, x; u64, U64, x; f32, F32, x; f64, F64, x);
impl Sample for bool {
    const TY: Ty = Bool;
    fn from_canon(b: &[u8]) -> Self { b[0] != 0 }
    fn same(&self, b: &[u8]) -> bool { *self == (b[0] != 0) }
    fn eq(&self, o: &Self) -> bool { *self == *o }
    fn show(&self) -> String { format!("{self}") }
}
impl Sample for ExtendedRaw {
    const TY: Ty = Ext;
    fn from_canon(b: &[u8]) -> Self {
        let mut x = [0u8; 16];
        x[..10].copy_from_slice(b);
        ExtendedRaw::new(u128::from_le_bytes(x))
    }
    fn same(&self, b: &[u8]) -> bool { *self == Self::from_canon(b) }
    fn eq(&self, o: &Self) -> bool { *self == *o }
    fn show(&self) -> String { format!("{self:?}") }
}
impl Sample for LVTime {
    const TY: Ty = Time;
    fn from_canon(b: &[u8]) -> Self {
        LVTime::from_parts(i64::from_le_bytes(b[8..].try_into().unwrap()), u64::from_le_bytes(b[..8].try_into().unwrap()))
    }
    fn same(&self, b: &[u8]) -> bool { self.to_parts() == Self::from_canon(b).to_parts() }
    fn eq(&self, o: &Self) -> bool { self.to_parts() == o.to_parts() }
    fn show(&self) -> String { format!("{self:?}") }
}
impl Sample for Complex<f32> {
    const TY: Ty = C32;
    fn from_canon(b: &[u8]) -> Self { Complex::new(f32::from_canon(&b[..4]), f32::from_canon(&b[4..])) }
    fn same(&self, b: &[u8]) -> bool { self.real.same(&b[..4]) && self.imaginary.same(&b[4..]) }
    fn eq(&self, o: &Self) -> bool { Sample::eq(&self.real, &o.real) && Sample::eq(&self.imaginary, &o.imaginary) }
    fn show(&self) -> String { format!("{}+{}", self.real.show(), self.imaginary.show()) }
}
impl Sample for Complex<f64> {
    const TY: Ty = C64;
    fn from_canon(b: &[u8]) -> Self { Complex::new(f64::from_canon(&b[..8]), f64::from_canon(&b[8..])) }
    fn same(&self, b: &[u8]) -> bool { self.real.same(&b[..8]) && self.imaginary.same(&b[8..]) }
    fn eq(&self, o: &Self) -> bool { Sample::eq(&self.real, &o.real) && Sample::eq(&self.imaginary, &o.imaginary) }
    fn show(&self) -> String { format!("{}+{}", self.real.show(), self.imaginary.show()) }
}

/// Does the library's storage type for `read` decode values stored as `stored`? (NI equivalences
/// the library documents: units do not change the value, LabVIEW stores booleans as U8.)
pub fn supports(read: Ty, stored: Ty) -> bool {
    read == stored || stored.natural() == read || (read == Bool && stored == U8)
}
/// Canonical bytes, in terms of the storage type `read`, of sample (stored, k).
pub fn expect(read: Ty, stored: Ty, k: u32) -> Vec<u8> {
    debug_assert!(supports(read, stored));
    let b = canon(stored, k);
    if read == Bool { vec![(b[0] != 0) as u8] } else { b }
}
#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident => $e:expr) => {{
        use $crate::types::Ty as __Ty;
        match $ty {
            __Ty::I8 => { type $T = i8; $e }
            __Ty::I16 => { type $T = i16; $e }
            __Ty::I32 => { type $T = i32; $e }
            __Ty::I64 => { type $T = i64; $e }
            __Ty::U8 => { type $T = u8; $e }
            __Ty::U16 => { type $T = u16; $e }
            __Ty::U32 => { type $T = u32; $e }
            __Ty::U64 => { type $T = u64; $e }
            __Ty::F32 | __Ty::F32U => { type $T = f32; $e }
            __Ty::F64 | __Ty::F64U => { type $T = f64; $e }
            __Ty::Ext | __Ty::ExtU => { type $T = tedium::types::ExtendedRaw; $e }
            __Ty::Bool => { type $T = bool; $e }
            __Ty::Time => { type $T = labview_interop::types::LVTime; $e }
            __Ty::C32 => { type $T = tedium::types::Complex<f32>; $e }
            __Ty::C64 => { type $T = tedium::types::Complex<f64>; $e }
            __Ty::Str => panic!("harness: string channels have no storage type for samples"),
        }
    }};
}

// ---------------------------------------------------------------- properties

/// A property value of the reference model.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Pv {
    Void,
    Fixed(Ty, Vec<u8>), // canonical bytes
    Str(String),
}
impl Pv {
    pub fn of(ty: Ty, k: u32) -> Pv {
        match ty {
            Str => Pv::Str(format!("s{k}")),
            t => Pv::Fixed(t, canon(t, k)),
        }
    }
    pub fn s(x: &str) -> Pv {
        Pv::Str(x.to_string())
    }
    pub fn i(x: i32) -> Pv {
        Pv::Fixed(I32, x.to_le_bytes().to_vec())
    }
    pub fn code(&self) -> u32 {
        match self {
            Pv::Void => 0,
            Pv::Fixed(t, _) => t.code(),
            Pv::Str(_) => Str.code(),
        }
    }
    pub fn bytes(&self, be: bool) -> Vec<u8> {
        match self {
            Pv::Void => vec![],
            Pv::Fixed(t, b) => to_order(*t, b.clone(), be),
            Pv::Str(s) => {
                let mut v = u32b(s.len() as u32, be);
                v.extend(s.as_bytes());
                v
            }
        }
    }
    /// The library's value for this model value.
    pub fn lib(&self) -> PropertyValue {
        match self {
            Pv::Void => PropertyValue::Void,
            Pv::Str(s) => PropertyValue::String(s.clone()),
            Pv::Fixed(t, b) => match t {
                I8 => PropertyValue::I8(Sample::from_canon(b)),
                I16 => PropertyValue::I16(Sample::from_canon(b)),
                I32 => PropertyValue::I32(Sample::from_canon(b)),
                I64 => PropertyValue::I64(Sample::from_canon(b)),
                U8 => PropertyValue::U8(Sample::from_canon(b)),
                U16 => PropertyValue::U16(Sample::from_canon(b)),
                U32 => PropertyValue::U32(Sample::from_canon(b)),
                U64 => PropertyValue::U64(Sample::from_canon(b)),
                F32 | F32U => PropertyValue::SingleFloat(Sample::from_canon(b)),
                F64 | F64U => PropertyValue::DoubleFloat(Sample::from_canon(b)),
                Ext | ExtU => PropertyValue::Extended(Sample::from_canon(b)),
                Bool => PropertyValue::Boolean(Sample::from_canon(b)),
                Time => PropertyValue::Timestamp(Sample::from_canon(b)),
                C32 => PropertyValue::ComplexSingleFloat(Sample::from_canon(b)),
                C64 => PropertyValue::ComplexDoubleFloat(Sample::from_canon(b)),
                Str => unreachable!(),
            },
        }
    }
    /// Exact (bitwise) agreement of value and type.
    pub fn same(&self, v: &PropertyValue) -> bool {
        match (self, v) {
            (Pv::Void, PropertyValue::Void) => true,
            (Pv::Str(s), PropertyValue::String(x)) => s == x,
            (Pv::Fixed(t, b), v) => match (t.natural(), v) {
                (I8, PropertyValue::I8(x)) => x.same(b),
                (I16, PropertyValue::I16(x)) => x.same(b),
                (I32, PropertyValue::I32(x)) => x.same(b),
                (I64, PropertyValue::I64(x)) => x.same(b),
                (U8, PropertyValue::U8(x)) => x.same(b),
                (U16, PropertyValue::U16(x)) => x.same(b),
                (U32, PropertyValue::U32(x)) => x.same(b),
                (U64, PropertyValue::U64(x)) => x.same(b),
                (F32, PropertyValue::SingleFloat(x)) => x.same(b),
                (F64, PropertyValue::DoubleFloat(x)) => x.same(b),
                (Ext, PropertyValue::Extended(x)) => x.same(b),
                (Bool, PropertyValue::Boolean(x)) => x.same(b),
                (Time, PropertyValue::Timestamp(x)) => x.same(b),
                (C32, PropertyValue::ComplexSingleFloat(x)) => x.same(b),
                (C64, PropertyValue::ComplexDoubleFloat(x)) => x.same(b),
                _ => false,
            },
            _ => false,
        }
    }
    /// The value as the library would write it (units are dropped on read).
    pub fn natural(&self) -> Pv {
        match self {
            Pv::Fixed(t, b) => Pv::Fixed(t.natural(), b.clone()),
            x => x.clone(),
        }
    }
}

pub fn u32b(x: u32, be: bool) -> Vec<u8> {
    if be { x.to_be_bytes().to_vec() } else { x.to_le_bytes().to_vec() }
}
pub fn u64b(x: u64, be: bool) -> Vec<u8> {
    if be { x.to_be_bytes().to_vec() } else { x.to_le_bytes().to_vec() }
}
