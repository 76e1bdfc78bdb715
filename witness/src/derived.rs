//! `#[derive(Facet)]` over every kind of declaration the macro accepts.
use facet::Facet;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Facet)]
pub struct Bare {
    pub a: u8,
}
#[derive(Facet)]
pub struct Drp {
    pub a: u32,
    pub b: u8,
}
impl Drop for Drp {
    fn drop(&mut self) {}
}
#[derive(Facet, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy)]
pub struct Zst;
#[derive(Facet, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(32))]
pub struct Big {
    pub a: u8,
    pub b: [u64; 4],
}

// ---- structs
#[derive(Facet)]
pub struct SUnit;
#[derive(Facet)]
pub struct SEmpty {}
#[derive(Facet)]
pub struct STuple0();
#[derive(Facet)]
pub struct SOne(pub String);
#[derive(Facet)]
pub struct STuple(pub u8, pub u64, pub String, u16);
#[derive(Facet)]
pub struct SMixed {
    pub a: u8,
    b: u64,
    pub(crate) c: Option<String>,
    d: Vec<u16>,
    e: bool,
    f: (u8, u32),
    g: [u16; 3],
}
#[derive(Facet)]
#[repr(C)]
pub struct SReprC {
    a: u8,
    b: u64,
    c: u16,
    d: u32,
}
#[derive(Facet)]
#[repr(C, packed)]
pub struct SPacked1(u8);
#[derive(Facet)]
#[repr(transparent)]
pub struct STransp {
    inner: String,
}
#[derive(Facet)]
#[repr(align(16))]
pub struct SAlign {
    a: u8,
    b: u8,
}
#[derive(Facet)]
pub struct SSameTypes {
    x: u32,
    y: u32,
    z: u32,
    w: u32,
}
#[derive(Facet)]
pub struct SNested {
    one: SMixed,
    two: STuple,
    three: BTreeMap<String, SOne>,
    four: HashMap<u32, Vec<SUnit>>,
    five: Arc<SAlign>,
    six: EU8,
}
#[derive(Facet)]
pub struct SRec {
    v: u8,
    kids: Vec<SRec>,
}
#[derive(Facet)]
pub struct SMany {
    f00: u8, f01: u16, f02: u32, f03: u64, f04: u8, f05: u16, f06: u32, f07: u64,
    f08: u8, f09: u16, f10: u32, f11: u64, f12: u8, f13: u16, f14: u32, f15: u64,
    f16: u8, f17: u16, f18: u32, f19: u64, f20: u8, f21: u16, f22: u32, f23: u64,
}

// ---- generics
#[derive(Facet)]
pub struct G1<T> {
    a: u8,
    t: T,
}
#[derive(Facet)]
pub struct G2<A, B> {
    b: B,
    v: Vec<A>,
    n: u16,
}
#[derive(Facet)]
pub struct GBound<T: Clone + Default> {
    t: T,
    o: Option<T>,
}
#[derive(Facet)]
pub struct GWhere<T>
where
    T: Clone,
{
    t: T,
    k: u8,
}
#[derive(Facet)]
pub struct GConst<const N: usize> {
    a: [u16; N],
    b: u8,
}
#[derive(Facet)]
pub struct GTC<T, const N: usize>
where
    T: 'static,
{
    arr: [T; N],
    t: T,
}
#[derive(Facet)]
pub struct GLife<'a> {
    s: &'a str,
    n: u8,
}
#[derive(Facet)]
pub struct GLifeT<'a, T: 'a> {
    s: &'a [T],
    t: T,
}
#[derive(Facet)]
pub struct GTuple<A, B>(A, u8, B);
pub type G1U8 = G1<u8>;
pub type G1S = G1<String>;
pub type G1U64 = G1<u64>;
pub type G2x = G2<u8, String>;
pub type G2y = G2<String, u64>;
pub type GBx = GBound<String>;
pub type GWx = GWhere<u64>;
pub type GC3 = GConst<3>;
pub type GC0 = GConst<0>;
pub type GTCx = GTC<u32, 4>;
pub type GLx = GLife<'static>;
pub type GLTx = GLifeT<'static, u32>;
pub type GTx = GTuple<u64, String>;
pub type GTy = GTuple<u8, u16>;

// ---- attributes and docs
/// First line of docs.
///
/// Third line, with "quotes" and \ backslash.
#[derive(Facet)]
pub struct ADoc {
    /// field doc one
    /// field doc two
    a: u8,
    b: u16,
    /** block doc */
    c: u32,
}
#[derive(Facet)]
pub struct ASens {
    plain: u8,
    #[facet(sensitive)]
    secret: String,
    #[facet(sensitive)]
    #[facet(rename = "renamed")]
    both: u8,
    tail: u8,
}
pub fn def_u8() -> u8 {
    3
}
pub fn def_s() -> String {
    String::new()
}
#[derive(Facet)]
pub struct ADef {
    #[facet(default)]
    a: u8,
    #[facet(default = "def_u8")]
    b: u8,
    c: u8,
    #[facet(default = "def_s")]
    d: String,
}
#[derive(Facet)]
pub struct ARename {
    #[facet(rename = "Alpha Beta")]
    a: u8,
    #[facet(rename = "b")]
    zz: u8,
    c: u8,
}
#[derive(Facet, Default)]
#[facet(deny_unknown_fields)]
pub struct ADeny {
    a: u8,
}
#[derive(Facet, Default)]
#[facet(default)]
pub struct AContDef {
    a: u8,
}
#[derive(Facet, Default)]
#[facet(default, deny_unknown_fields)]
pub struct ABothAttrs {
    a: u8,
}
#[derive(Facet)]
pub struct AArb {
    #[facet(anything goes here)]
    a: u8,
    #[facet(key = "value")]
    b: u8,
}
#[derive(Facet)]
#[facet(invariants = "check")]
pub struct AInv {
    a: u8,
}
impl AInv {
    fn check(&self) -> bool {
        self.a != 7
    }
}
#[derive(Facet)]
pub struct AOpq {
    #[facet(opaque)]
    a: Arc<crate::builtin::NotFacet>,
    b: u8,
}
#[derive(Facet)]
#[facet(deny_unknown_fields)]
pub struct ATupAttr(#[facet(sensitive)] String, u8, #[facet(default)] u16);

// ---- trait implementations drive the value table
#[derive(Facet, Debug)]
pub struct TDebug(u8);
#[derive(Facet, Clone)]
pub struct TClone(u8);
#[derive(Facet, Default)]
pub struct TDefault(u8);
#[derive(Facet, PartialEq)]
pub struct TPEq(u8);
#[derive(Facet, PartialEq, Eq)]
pub struct TEq(u8);
#[derive(Facet, PartialEq, PartialOrd)]
pub struct TPOrd(f64);
#[derive(Facet, PartialEq, Eq, PartialOrd, Ord)]
pub struct TOrd(u8);
#[derive(Facet, Hash)]
pub struct THash(u8);
#[derive(Facet, Clone, Copy)]
pub struct TCopy(u8);
#[derive(Facet)]
pub struct TDisplay(u8);
impl std::fmt::Display for TDisplay {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
#[derive(Facet)]
pub struct TFromStr(u8);
impl std::str::FromStr for TFromStr {
    type Err = ();
    fn from_str(_: &str) -> Result<Self, ()> {
        Ok(TFromStr(0))
    }
}
#[derive(Facet)]
pub struct TUnpin {
    a: u8,
    p: std::marker::PhantomData<std::marker::PhantomPinned>,
}
#[derive(Facet)]
pub struct TNotSend {
    a: std::ptr::NonNull<u8>,
}
#[derive(Facet, Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TAll {
    a: u8,
    b: u64,
}
#[derive(Facet, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum TEnumAll {
    A,
    B(String),
}

// ---- enums
/// Enum docs
#[derive(Facet)]
#[repr(u8)]
pub enum EU8 {
    /// doc of A
    A,
    B(u8),
    /// doc of C
    /// more
    C {
        /// doc of x
        x: u64,
        y: u8,
    },
    D(u8, u64, String),
    E {},
    F(),
}
#[derive(Facet)]
#[repr(u16)]
pub enum EU16 {
    A,
    B(u8, u16),
    C { x: u64, y: String },
}
#[derive(Facet)]
#[repr(u32)]
pub enum EU32 {
    A(u8),
    B(u8, u16),
    C { x: u64, y: String },
}
#[derive(Facet)]
#[repr(u64)]
pub enum EU64 {
    A,
    B(u8, u16),
    C { x: u8, y: String, z: u16 },
}
#[derive(Facet)]
#[repr(usize)]
pub enum EUsize {
    A,
    B(u8, u16),
    C { x: u64, y: String },
}
#[derive(Facet)]
#[repr(i8)]
pub enum EI8 {
    A,
    B(u8, u16),
    C { x: u64, y: String },
}
#[derive(Facet)]
#[repr(i16)]
pub enum EI16 {
    A = 300,
    B(u8, u16) = 2,
    C { x: u64, y: String },
}
#[derive(Facet)]
#[repr(i32)]
pub enum EI32 {
    A,
    B(u8, u16),
    C { x: u64, y: String },
}
#[derive(Facet)]
#[repr(i64)]
pub enum EI64 {
    A,
    B(u8, u16),
    C { x: u64, y: String },
}
#[derive(Facet)]
#[repr(isize)]
pub enum EIsize {
    A,
    B(u8, u16),
    C { x: u64, y: String },
}
#[derive(Facet)]
#[repr(C)]
pub enum EC {
    A,
    B(u8, u64),
    C { x: u16, y: String },
    D(u8),
}
#[derive(Facet)]
#[repr(C, u8)]
pub enum ECU8 {
    A,
    B(u8, u64),
    C { x: u16, y: String },
    D(u8),
}
#[derive(Facet)]
#[repr(C, u16)]
pub enum ECU16 {
    A,
    B(u8),
    C { x: u8, y: u16 },
}
#[derive(Facet)]
#[repr(i64, C)]
pub enum ECI64 {
    A(u8),
    B { x: u16, y: u8 },
}
#[derive(Facet)]
#[repr(C)]
#[repr(u32)]
pub enum ECU32 {
    A(u8, u8, u64),
    B { x: u16, y: u8 },
}
#[derive(Facet)]
#[repr(C, isize)]
pub enum ECIsize {
    A(u8, u8, u64),
    B { x: u16, y: u8 },
}
#[derive(Facet, Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum EDiscr {
    Zero,
    Five = 5,
    Six,
    Hex = 0x1f,
    HexNext,
    Bin = 0b1000_0001,
    Oct = 0o77,
    Under = 1_00,
    Last = 255,
}
#[derive(Facet)]
#[repr(i32)]
pub enum EDiscrI {
    Big = 2_000_000_000,
    Next,
    Small = 1,
    After(u8),
    After2 { x: u8 },
}
#[derive(Facet)]
#[repr(C)]
pub enum EDiscrC {
    A = 10,
    B,
    C = 3,
    D,
}
#[derive(Facet)]
#[repr(C, u16)]
pub enum EDiscrCU {
    A = 1000,
    B(u8),
    C = 3,
    D { x: u64 },
}
#[derive(Facet)]
#[repr(u64)]
pub enum EDiscr64 {
    A = 0x7fff_ffff_ffff_0000,
    B = 4_294_967_296,
    C,
}
#[derive(Facet)]
#[repr(u8)]
pub enum EOne {
    Only,
}
#[derive(Facet)]
#[repr(u8)]
pub enum EGen<T> {
    A(T),
    B { x: u8, t: T },
    N,
}
#[derive(Facet)]
#[repr(u16)]
pub enum EGen2<A, B>
where
    A: Clone,
{
    A(A, B),
    B { x: u8, t: Vec<B>, a: A },
    N,
}
#[derive(Facet)]
#[repr(u8)]
pub enum EGenC<const N: usize> {
    A([u16; N], u8),
    B,
}
#[derive(Facet)]
#[repr(u8)]
pub enum EGenL<'a> {
    A(&'a str),
    B { s: &'a str, n: u8 },
}
#[derive(Facet)]
#[repr(u8)]
pub enum EAttr {
    A(#[facet(sensitive)] String, u8),
    B {
        #[facet(sensitive)]
        secret: String,
        #[facet(rename = "renamed")]
        z: u8,
        #[facet(default)]
        d: u16,
        #[facet(default = "def_u8")]
        e: u8,
        /// fdoc
        f: u8,
    },
}
#[derive(Facet)]
#[repr(u8)]
pub enum ERec {
    Leaf,
    Node(Vec<ERec>, u8),
}
#[derive(Facet)]
#[repr(u8)]
pub enum EReorder {
    A(u8, u32, u8, u64, u16),
    B { a: u8, b: u64, c: u8, d: u32 },
}
#[derive(Facet)]
#[repr(u8)]
pub enum EBigAlign {
    A(Big, u8),
    B { a: u8, b: Big },
    C,
}
#[derive(Facet)]
#[facet(transparent)]
pub struct ATransp(u32);
#[derive(Facet)]
#[facet(deny_unknown_fields)]
#[repr(u8)]
pub enum EDeny {
    A { x: u8 },
    B,
}
#[derive(Facet)]
#[facet(default)]
#[repr(C)]
pub enum EContDef {
    A,
    B(u8),
}
pub type EGU8 = EGen<u8>;
pub type EGS = EGen<String>;
pub type EGU64 = EGen<u64>;
pub type EG2x = EGen2<String, u64>;
pub type EG2y = EGen2<u8, u8>;
pub type EGC4 = EGenC<4>;
pub type EGLx = EGenL<'static>;

pub mod list {
    //! one alias per non-generic type (the driver walks aliases)
    macro_rules! each { ($($t:ident)*) => { $(pub type $t = super::$t;)* } }
    each!(Bare Drp Zst Big SUnit SEmpty STuple0 SOne STuple SMixed SReprC SPacked1 STransp SAlign
      SSameTypes SNested SRec SMany ADoc ASens ADef ARename ADeny AContDef ABothAttrs AArb AInv AOpq ATupAttr
      TDebug TClone TDefault TPEq TEq TPOrd TOrd THash TCopy TDisplay TFromStr TUnpin TNotSend TAll TEnumAll
      EU8 EU16 EU32 EU64 EUsize EI8 EI16 EI32 EI64 EIsize EC ECU8 ECU16 ECI64 ECU32 ECIsize
      EDiscr EDiscrI EDiscrC EDiscrCU EDiscr64 EOne EAttr ERec EReorder EBigAlign ATransp EDeny EContDef);
}
