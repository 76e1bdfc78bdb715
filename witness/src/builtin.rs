//! Every built-in implementation of `Facet`.
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::marker::PhantomData;
use std::net::*;
use std::num::NonZero;
use std::path::{Path, PathBuf};
use std::ptr::NonNull;
use std::sync::{Arc, Weak};

pub type Unit = ();
pub type Str = &'static str;
pub type Strg = String;
pub type CowStr = Cow<'static, str>;
pub type Ch = char;
pub type Bool = bool;
pub type U8 = u8;
pub type U16 = u16;
pub type U32 = u32;
pub type U64 = u64;
pub type U128 = u128;
pub type Usize = usize;
pub type I8 = i8;
pub type I16 = i16;
pub type I32 = i32;
pub type I64 = i64;
pub type I128 = i128;
pub type Isize = isize;
pub type F32 = f32;
pub type F64 = f64;
pub type NzU8 = NonZero<u8>;
pub type NzU16 = NonZero<u16>;
pub type NzU32 = NonZero<u32>;
pub type NzU64 = NonZero<u64>;
pub type NzU128 = NonZero<u128>;
pub type NzUsize = NonZero<usize>;
pub type NzI8 = NonZero<i8>;
pub type NzI16 = NonZero<i16>;
pub type NzI32 = NonZero<i32>;
pub type NzI64 = NonZero<i64>;
pub type NzI128 = NonZero<i128>;
pub type NzIsize = NonZero<isize>;
pub type SockA = SocketAddr;
pub type IpA = IpAddr;
pub type Ip4 = Ipv4Addr;
pub type Ip6 = Ipv6Addr;
pub type PBuf = PathBuf;
pub type PRef = &'static Path;
pub type CamBuf = camino::Utf8PathBuf;
pub type CamRef = &'static camino::Utf8Path;
pub type Rs = std::hash::RandomState;
pub type CtId = facet_core::ConstTypeId;
pub type Ph = PhantomData<u32>;
pub type PhD = PhantomData<str>;

use crate::derived::*;
// element kinds: Copy scalar, float (no Eq/Ord/Hash), owning, droppable without traits,
// marker-poor (raw pointer wrapper), zero sized, over-aligned, big
pub type VecU8 = Vec<u8>;
pub type VecF64 = Vec<f64>;
pub type VecStr = Vec<String>;
pub type VecBare = Vec<Bare>;
pub type VecDrp = Vec<Drp>;
pub type VecRaw = Vec<NonNull<u8>>;
pub type VecZst = Vec<Zst>;
pub type VecBig = Vec<Big>;
pub type VecVec = Vec<Vec<Option<String>>>;
pub type ArrU8 = [u8; 4];
pub type ArrF = [f32; 3];
pub type ArrS = [String; 2];
pub type ArrD = [Drp; 5];
pub type Arr0 = [Drp; 0];
pub type Arr0F = [f64; 0];
pub type ArrBig = [Big; 3];
pub type Arr33 = [u16; 33];
pub type ArrRaw = [NonNull<u8>; 2];
pub type ArrArr = [[String; 2]; 3];
pub type SlU8 = &'static [u8];
pub type SlF = &'static [f64];
pub type SlS = &'static [String];
pub type SlD = &'static [Drp];
pub type SlRaw = &'static [NonNull<u8>];
pub type SlBig = &'static [Big];
pub type OptU8 = Option<u8>;
pub type OptF = Option<f64>;
pub type OptS = Option<String>;
pub type OptD = Option<Drp>;
pub type OptBare = Option<Bare>;
pub type OptNz = Option<NonZero<u32>>;
pub type OptOpt = Option<Option<u16>>;
pub type OptRaw = Option<NonNull<u8>>;
pub type OptBig = Option<Big>;
pub type MapSU = HashMap<String, u32>;
pub type MapUS = HashMap<u64, String>;
pub type MapUD = HashMap<u8, Drp>;
pub type MapUF = HashMap<u8, f64>;
pub type MapUBare = HashMap<u8, Bare>;
pub type MapURaw = HashMap<u8, NonNull<u8>>;
pub type MapSmall = HashMap<u8, u32, SmallHasher>;
pub type BMapSU = BTreeMap<String, u32>;
pub type BMapUS = BTreeMap<u64, String>;
pub type BMapUD = BTreeMap<u8, Drp>;
pub type BMapUF = BTreeMap<u8, f64>;
pub type BMapUBare = BTreeMap<u8, Bare>;
pub type BMapURaw = BTreeMap<u8, NonNull<u8>>;
pub type ArcU = Arc<u64>;
pub type ArcS = Arc<String>;
pub type ArcF = Arc<f64>;
pub type ArcBare = Arc<Bare>;
pub type WeakU = Weak<u64>;
pub type WeakS = Weak<String>;
pub type OpqArc = facet_core::Opaque<Arc<NotFacet>>;
pub type NnU = NonNull<u32>;
pub type NnS = NonNull<String>;
pub type T1 = (u8,);
pub type T1S = (String,);
pub type T2 = (u8, u64);
pub type T2S = (String, u8);
pub type T2F = (f64, u8);
pub type T2D = (Drp, u8);
pub type T2Bare = (Bare, u8);
pub type T2Raw = (u8, NonNull<u8>);
pub type T3 = (u8, u32, u16);
pub type T3S = (u8, String, Vec<u8>);
pub type T4 = (u8, u32, u16, String);
pub type T5 = (u8, u32, u16, u64, bool);
pub type T6 = (u8, u32, u16, u64, bool, String);
pub type T7 = (u8, u32, u16, u64, bool, char, i8);
pub type T8 = (u8, u32, u16, u64, bool, char, i8, i64);
pub type T9 = (u8, u32, u16, u64, bool, char, i8, i64, String);
pub type T10 = (u8, u32, u16, u64, bool, char, i8, i64, i16, i32);
pub type T11 = (u8, u32, u16, u64, bool, char, i8, i64, i16, i32, u128);
pub type T12 = (u8, u32, u16, u64, bool, char, i8, i64, i16, i32, u128, String);
pub type T12E = (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);

/// No facet impl at all: only usable behind `opaque`.
pub struct NotFacet(Cell<u8>, RefCell<u8>);
#[derive(Clone, Copy, Default)]
pub struct SmallHasher;
impl std::hash::BuildHasher for SmallHasher {
    type Hasher = std::hash::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        std::hash::DefaultHasher::new()
    }
}
unsafe impl facet_core::Facet for SmallHasher {
    const SHAPE: &'static facet_core::Shape = &const {
        facet_core::Shape::builder()
            .id(facet_core::ConstTypeId::of::<Self>())
            .layout(core::alloc::Layout::new::<Self>())
            .def(facet_core::Def::Scalar(
                facet_core::ScalarDef::builder()
                    .affinity(facet_core::ScalarAffinity::opaque().build())
                    .build(),
            ))
            .vtable(facet_core::value_vtable!(SmallHasher, |f, _o| write!(f, "SmallHasher")))
            .build()
    };
}
