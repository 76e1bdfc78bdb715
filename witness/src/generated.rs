//! Written by mk/gen_witness.py.
use crate::derived::*;
use facet::Facet;
use std::collections::{BTreeMap, HashMap};
use std::marker::PhantomData;
use std::sync::{Arc, Weak};

#[derive(Facet, PartialEq, Eq, Hash)]
pub struct KHash(u8);
#[derive(Facet, PartialEq, Eq, PartialOrd, Ord)]
pub struct KOrd(u8);
pub type XVecTDebug = Vec<TDebug>;
pub type XArrTDebug = [TDebug; 3];
pub type XSlTDebug = &'static [TDebug];
pub type XOptTDebug = Option<TDebug>;
pub type XArcTDebug = Arc<TDebug>;
pub type XWeakTDebug = Weak<TDebug>;
pub type XMapTDebug = HashMap<u8, TDebug>;
pub type XBMapTDebug = BTreeMap<u8, TDebug>;
pub type XOneTDebug = (TDebug,);
pub type XFstTDebug = (TDebug, u8);
pub type XSndTDebug = (u8, TDebug);
pub type XMidTDebug = (u8, TDebug, u64);
pub type XPhTDebug = PhantomData<TDebug>;
pub type XNestTDebug = Vec<Option<TDebug>>;
pub type XVecTClone = Vec<TClone>;
pub type XArrTClone = [TClone; 3];
pub type XSlTClone = &'static [TClone];
pub type XOptTClone = Option<TClone>;
pub type XArcTClone = Arc<TClone>;
pub type XWeakTClone = Weak<TClone>;
pub type XMapTClone = HashMap<u8, TClone>;
pub type XBMapTClone = BTreeMap<u8, TClone>;
pub type XOneTClone = (TClone,);
pub type XFstTClone = (TClone, u8);
pub type XSndTClone = (u8, TClone);
pub type XMidTClone = (u8, TClone, u64);
pub type XPhTClone = PhantomData<TClone>;
pub type XNestTClone = Vec<Option<TClone>>;
pub type XVecTDefault = Vec<TDefault>;
pub type XArrTDefault = [TDefault; 3];
pub type XSlTDefault = &'static [TDefault];
pub type XOptTDefault = Option<TDefault>;
pub type XArcTDefault = Arc<TDefault>;
pub type XWeakTDefault = Weak<TDefault>;
pub type XMapTDefault = HashMap<u8, TDefault>;
pub type XBMapTDefault = BTreeMap<u8, TDefault>;
pub type XOneTDefault = (TDefault,);
pub type XFstTDefault = (TDefault, u8);
pub type XSndTDefault = (u8, TDefault);
pub type XMidTDefault = (u8, TDefault, u64);
pub type XPhTDefault = PhantomData<TDefault>;
pub type XNestTDefault = Vec<Option<TDefault>>;
pub type XVecTPEq = Vec<TPEq>;
pub type XArrTPEq = [TPEq; 3];
pub type XSlTPEq = &'static [TPEq];
pub type XOptTPEq = Option<TPEq>;
pub type XArcTPEq = Arc<TPEq>;
pub type XWeakTPEq = Weak<TPEq>;
pub type XMapTPEq = HashMap<u8, TPEq>;
pub type XBMapTPEq = BTreeMap<u8, TPEq>;
pub type XOneTPEq = (TPEq,);
pub type XFstTPEq = (TPEq, u8);
pub type XSndTPEq = (u8, TPEq);
pub type XMidTPEq = (u8, TPEq, u64);
pub type XPhTPEq = PhantomData<TPEq>;
pub type XNestTPEq = Vec<Option<TPEq>>;
pub type XVecTEq = Vec<TEq>;
pub type XArrTEq = [TEq; 3];
pub type XSlTEq = &'static [TEq];
pub type XOptTEq = Option<TEq>;
pub type XArcTEq = Arc<TEq>;
pub type XWeakTEq = Weak<TEq>;
pub type XMapTEq = HashMap<u8, TEq>;
pub type XBMapTEq = BTreeMap<u8, TEq>;
pub type XOneTEq = (TEq,);
pub type XFstTEq = (TEq, u8);
pub type XSndTEq = (u8, TEq);
pub type XMidTEq = (u8, TEq, u64);
pub type XPhTEq = PhantomData<TEq>;
pub type XNestTEq = Vec<Option<TEq>>;
pub type XVecTPOrd = Vec<TPOrd>;
pub type XArrTPOrd = [TPOrd; 3];
pub type XSlTPOrd = &'static [TPOrd];
pub type XOptTPOrd = Option<TPOrd>;
pub type XArcTPOrd = Arc<TPOrd>;
pub type XWeakTPOrd = Weak<TPOrd>;
pub type XMapTPOrd = HashMap<u8, TPOrd>;
pub type XBMapTPOrd = BTreeMap<u8, TPOrd>;
pub type XOneTPOrd = (TPOrd,);
pub type XFstTPOrd = (TPOrd, u8);
pub type XSndTPOrd = (u8, TPOrd);
pub type XMidTPOrd = (u8, TPOrd, u64);
pub type XPhTPOrd = PhantomData<TPOrd>;
pub type XNestTPOrd = Vec<Option<TPOrd>>;
pub type XVecTOrd = Vec<TOrd>;
pub type XArrTOrd = [TOrd; 3];
pub type XSlTOrd = &'static [TOrd];
pub type XOptTOrd = Option<TOrd>;
pub type XArcTOrd = Arc<TOrd>;
pub type XWeakTOrd = Weak<TOrd>;
pub type XMapTOrd = HashMap<u8, TOrd>;
pub type XBMapTOrd = BTreeMap<u8, TOrd>;
pub type XOneTOrd = (TOrd,);
pub type XFstTOrd = (TOrd, u8);
pub type XSndTOrd = (u8, TOrd);
pub type XMidTOrd = (u8, TOrd, u64);
pub type XPhTOrd = PhantomData<TOrd>;
pub type XNestTOrd = Vec<Option<TOrd>>;
pub type XVecTHash = Vec<THash>;
pub type XArrTHash = [THash; 3];
pub type XSlTHash = &'static [THash];
pub type XOptTHash = Option<THash>;
pub type XArcTHash = Arc<THash>;
pub type XWeakTHash = Weak<THash>;
pub type XMapTHash = HashMap<u8, THash>;
pub type XBMapTHash = BTreeMap<u8, THash>;
pub type XOneTHash = (THash,);
pub type XFstTHash = (THash, u8);
pub type XSndTHash = (u8, THash);
pub type XMidTHash = (u8, THash, u64);
pub type XPhTHash = PhantomData<THash>;
pub type XNestTHash = Vec<Option<THash>>;
pub type XVecTCopy = Vec<TCopy>;
pub type XArrTCopy = [TCopy; 3];
pub type XSlTCopy = &'static [TCopy];
pub type XOptTCopy = Option<TCopy>;
pub type XArcTCopy = Arc<TCopy>;
pub type XWeakTCopy = Weak<TCopy>;
pub type XMapTCopy = HashMap<u8, TCopy>;
pub type XBMapTCopy = BTreeMap<u8, TCopy>;
pub type XOneTCopy = (TCopy,);
pub type XFstTCopy = (TCopy, u8);
pub type XSndTCopy = (u8, TCopy);
pub type XMidTCopy = (u8, TCopy, u64);
pub type XPhTCopy = PhantomData<TCopy>;
pub type XNestTCopy = Vec<Option<TCopy>>;
pub type XVecTDisplay = Vec<TDisplay>;
pub type XArrTDisplay = [TDisplay; 3];
pub type XSlTDisplay = &'static [TDisplay];
pub type XOptTDisplay = Option<TDisplay>;
pub type XArcTDisplay = Arc<TDisplay>;
pub type XWeakTDisplay = Weak<TDisplay>;
pub type XMapTDisplay = HashMap<u8, TDisplay>;
pub type XBMapTDisplay = BTreeMap<u8, TDisplay>;
pub type XOneTDisplay = (TDisplay,);
pub type XFstTDisplay = (TDisplay, u8);
pub type XSndTDisplay = (u8, TDisplay);
pub type XMidTDisplay = (u8, TDisplay, u64);
pub type XPhTDisplay = PhantomData<TDisplay>;
pub type XNestTDisplay = Vec<Option<TDisplay>>;
pub type XVecTFromStr = Vec<TFromStr>;
pub type XArrTFromStr = [TFromStr; 3];
pub type XSlTFromStr = &'static [TFromStr];
pub type XOptTFromStr = Option<TFromStr>;
pub type XArcTFromStr = Arc<TFromStr>;
pub type XWeakTFromStr = Weak<TFromStr>;
pub type XMapTFromStr = HashMap<u8, TFromStr>;
pub type XBMapTFromStr = BTreeMap<u8, TFromStr>;
pub type XOneTFromStr = (TFromStr,);
pub type XFstTFromStr = (TFromStr, u8);
pub type XSndTFromStr = (u8, TFromStr);
pub type XMidTFromStr = (u8, TFromStr, u64);
pub type XPhTFromStr = PhantomData<TFromStr>;
pub type XNestTFromStr = Vec<Option<TFromStr>>;
pub type XVecTUnpin = Vec<TUnpin>;
pub type XArrTUnpin = [TUnpin; 3];
pub type XSlTUnpin = &'static [TUnpin];
pub type XOptTUnpin = Option<TUnpin>;
pub type XArcTUnpin = Arc<TUnpin>;
pub type XWeakTUnpin = Weak<TUnpin>;
pub type XMapTUnpin = HashMap<u8, TUnpin>;
pub type XBMapTUnpin = BTreeMap<u8, TUnpin>;
pub type XOneTUnpin = (TUnpin,);
pub type XFstTUnpin = (TUnpin, u8);
pub type XSndTUnpin = (u8, TUnpin);
pub type XMidTUnpin = (u8, TUnpin, u64);
pub type XPhTUnpin = PhantomData<TUnpin>;
pub type XNestTUnpin = Vec<Option<TUnpin>>;
pub type XVecTNotSend = Vec<TNotSend>;
pub type XArrTNotSend = [TNotSend; 3];
pub type XSlTNotSend = &'static [TNotSend];
pub type XOptTNotSend = Option<TNotSend>;
pub type XArcTNotSend = Arc<TNotSend>;
pub type XWeakTNotSend = Weak<TNotSend>;
pub type XMapTNotSend = HashMap<u8, TNotSend>;
pub type XBMapTNotSend = BTreeMap<u8, TNotSend>;
pub type XOneTNotSend = (TNotSend,);
pub type XFstTNotSend = (TNotSend, u8);
pub type XSndTNotSend = (u8, TNotSend);
pub type XMidTNotSend = (u8, TNotSend, u64);
pub type XPhTNotSend = PhantomData<TNotSend>;
pub type XNestTNotSend = Vec<Option<TNotSend>>;
pub type XVecTAll = Vec<TAll>;
pub type XArrTAll = [TAll; 3];
pub type XSlTAll = &'static [TAll];
pub type XOptTAll = Option<TAll>;
pub type XArcTAll = Arc<TAll>;
pub type XWeakTAll = Weak<TAll>;
pub type XMapTAll = HashMap<u8, TAll>;
pub type XBMapTAll = BTreeMap<u8, TAll>;
pub type XOneTAll = (TAll,);
pub type XFstTAll = (TAll, u8);
pub type XSndTAll = (u8, TAll);
pub type XMidTAll = (u8, TAll, u64);
pub type XPhTAll = PhantomData<TAll>;
pub type XNestTAll = Vec<Option<TAll>>;
pub type XVecTEnumAll = Vec<TEnumAll>;
pub type XArrTEnumAll = [TEnumAll; 3];
pub type XSlTEnumAll = &'static [TEnumAll];
pub type XOptTEnumAll = Option<TEnumAll>;
pub type XArcTEnumAll = Arc<TEnumAll>;
pub type XWeakTEnumAll = Weak<TEnumAll>;
pub type XMapTEnumAll = HashMap<u8, TEnumAll>;
pub type XBMapTEnumAll = BTreeMap<u8, TEnumAll>;
pub type XOneTEnumAll = (TEnumAll,);
pub type XFstTEnumAll = (TEnumAll, u8);
pub type XSndTEnumAll = (u8, TEnumAll);
pub type XMidTEnumAll = (u8, TEnumAll, u64);
pub type XPhTEnumAll = PhantomData<TEnumAll>;
pub type XNestTEnumAll = Vec<Option<TEnumAll>>;
pub type XT1_0TNotSend = (TNotSend, );
pub type XT1_0TClone = (TClone, );
pub type XT1_0TPEq = (TPEq, );
pub type XT2_0TNotSend = (TNotSend, u16, );
pub type XT2_0TClone = (TClone, u16, );
pub type XT2_0TPEq = (TPEq, u16, );
pub type XT2_1TNotSend = (u8, TNotSend, );
pub type XT2_1TClone = (u8, TClone, );
pub type XT2_1TPEq = (u8, TPEq, );
pub type XT3_0TNotSend = (TNotSend, u16, u32, );
pub type XT3_0TClone = (TClone, u16, u32, );
pub type XT3_0TPEq = (TPEq, u16, u32, );
pub type XT3_1TNotSend = (u8, TNotSend, u32, );
pub type XT3_1TClone = (u8, TClone, u32, );
pub type XT3_1TPEq = (u8, TPEq, u32, );
pub type XT3_2TNotSend = (u8, u16, TNotSend, );
pub type XT3_2TClone = (u8, u16, TClone, );
pub type XT3_2TPEq = (u8, u16, TPEq, );
pub type XT4_0TNotSend = (TNotSend, u16, u32, u64, );
pub type XT4_0TClone = (TClone, u16, u32, u64, );
pub type XT4_0TPEq = (TPEq, u16, u32, u64, );
pub type XT4_2TNotSend = (u8, u16, TNotSend, u64, );
pub type XT4_2TClone = (u8, u16, TClone, u64, );
pub type XT4_2TPEq = (u8, u16, TPEq, u64, );
pub type XT4_3TNotSend = (u8, u16, u32, TNotSend, );
pub type XT4_3TClone = (u8, u16, u32, TClone, );
pub type XT4_3TPEq = (u8, u16, u32, TPEq, );
pub type XT5_0TNotSend = (TNotSend, u16, u32, u64, u8, );
pub type XT5_0TClone = (TClone, u16, u32, u64, u8, );
pub type XT5_0TPEq = (TPEq, u16, u32, u64, u8, );
pub type XT5_2TNotSend = (u8, u16, TNotSend, u64, u8, );
pub type XT5_2TClone = (u8, u16, TClone, u64, u8, );
pub type XT5_2TPEq = (u8, u16, TPEq, u64, u8, );
pub type XT5_4TNotSend = (u8, u16, u32, u64, TNotSend, );
pub type XT5_4TClone = (u8, u16, u32, u64, TClone, );
pub type XT5_4TPEq = (u8, u16, u32, u64, TPEq, );
pub type XT6_0TNotSend = (TNotSend, u16, u32, u64, u8, u16, );
pub type XT6_0TClone = (TClone, u16, u32, u64, u8, u16, );
pub type XT6_0TPEq = (TPEq, u16, u32, u64, u8, u16, );
pub type XT6_3TNotSend = (u8, u16, u32, TNotSend, u8, u16, );
pub type XT6_3TClone = (u8, u16, u32, TClone, u8, u16, );
pub type XT6_3TPEq = (u8, u16, u32, TPEq, u8, u16, );
pub type XT6_5TNotSend = (u8, u16, u32, u64, u8, TNotSend, );
pub type XT6_5TClone = (u8, u16, u32, u64, u8, TClone, );
pub type XT6_5TPEq = (u8, u16, u32, u64, u8, TPEq, );
pub type XT7_0TNotSend = (TNotSend, u16, u32, u64, u8, u16, u32, );
pub type XT7_0TClone = (TClone, u16, u32, u64, u8, u16, u32, );
pub type XT7_0TPEq = (TPEq, u16, u32, u64, u8, u16, u32, );
pub type XT7_3TNotSend = (u8, u16, u32, TNotSend, u8, u16, u32, );
pub type XT7_3TClone = (u8, u16, u32, TClone, u8, u16, u32, );
pub type XT7_3TPEq = (u8, u16, u32, TPEq, u8, u16, u32, );
pub type XT7_6TNotSend = (u8, u16, u32, u64, u8, u16, TNotSend, );
pub type XT7_6TClone = (u8, u16, u32, u64, u8, u16, TClone, );
pub type XT7_6TPEq = (u8, u16, u32, u64, u8, u16, TPEq, );
pub type XT8_0TNotSend = (TNotSend, u16, u32, u64, u8, u16, u32, u64, );
pub type XT8_0TClone = (TClone, u16, u32, u64, u8, u16, u32, u64, );
pub type XT8_0TPEq = (TPEq, u16, u32, u64, u8, u16, u32, u64, );
pub type XT8_4TNotSend = (u8, u16, u32, u64, TNotSend, u16, u32, u64, );
pub type XT8_4TClone = (u8, u16, u32, u64, TClone, u16, u32, u64, );
pub type XT8_4TPEq = (u8, u16, u32, u64, TPEq, u16, u32, u64, );
pub type XT8_7TNotSend = (u8, u16, u32, u64, u8, u16, u32, TNotSend, );
pub type XT8_7TClone = (u8, u16, u32, u64, u8, u16, u32, TClone, );
pub type XT8_7TPEq = (u8, u16, u32, u64, u8, u16, u32, TPEq, );
pub type XT9_0TNotSend = (TNotSend, u16, u32, u64, u8, u16, u32, u64, u8, );
pub type XT9_0TClone = (TClone, u16, u32, u64, u8, u16, u32, u64, u8, );
pub type XT9_0TPEq = (TPEq, u16, u32, u64, u8, u16, u32, u64, u8, );
pub type XT9_4TNotSend = (u8, u16, u32, u64, TNotSend, u16, u32, u64, u8, );
pub type XT9_4TClone = (u8, u16, u32, u64, TClone, u16, u32, u64, u8, );
pub type XT9_4TPEq = (u8, u16, u32, u64, TPEq, u16, u32, u64, u8, );
pub type XT9_8TNotSend = (u8, u16, u32, u64, u8, u16, u32, u64, TNotSend, );
pub type XT9_8TClone = (u8, u16, u32, u64, u8, u16, u32, u64, TClone, );
pub type XT9_8TPEq = (u8, u16, u32, u64, u8, u16, u32, u64, TPEq, );
pub type XT10_0TNotSend = (TNotSend, u16, u32, u64, u8, u16, u32, u64, u8, u16, );
pub type XT10_0TClone = (TClone, u16, u32, u64, u8, u16, u32, u64, u8, u16, );
pub type XT10_0TPEq = (TPEq, u16, u32, u64, u8, u16, u32, u64, u8, u16, );
pub type XT10_5TNotSend = (u8, u16, u32, u64, u8, TNotSend, u32, u64, u8, u16, );
pub type XT10_5TClone = (u8, u16, u32, u64, u8, TClone, u32, u64, u8, u16, );
pub type XT10_5TPEq = (u8, u16, u32, u64, u8, TPEq, u32, u64, u8, u16, );
pub type XT10_9TNotSend = (u8, u16, u32, u64, u8, u16, u32, u64, u8, TNotSend, );
pub type XT10_9TClone = (u8, u16, u32, u64, u8, u16, u32, u64, u8, TClone, );
pub type XT10_9TPEq = (u8, u16, u32, u64, u8, u16, u32, u64, u8, TPEq, );
pub type XT11_0TNotSend = (TNotSend, u16, u32, u64, u8, u16, u32, u64, u8, u16, u32, );
pub type XT11_0TClone = (TClone, u16, u32, u64, u8, u16, u32, u64, u8, u16, u32, );
pub type XT11_0TPEq = (TPEq, u16, u32, u64, u8, u16, u32, u64, u8, u16, u32, );
pub type XT11_5TNotSend = (u8, u16, u32, u64, u8, TNotSend, u32, u64, u8, u16, u32, );
pub type XT11_5TClone = (u8, u16, u32, u64, u8, TClone, u32, u64, u8, u16, u32, );
pub type XT11_5TPEq = (u8, u16, u32, u64, u8, TPEq, u32, u64, u8, u16, u32, );
pub type XT11_10TNotSend = (u8, u16, u32, u64, u8, u16, u32, u64, u8, u16, TNotSend, );
pub type XT11_10TClone = (u8, u16, u32, u64, u8, u16, u32, u64, u8, u16, TClone, );
pub type XT11_10TPEq = (u8, u16, u32, u64, u8, u16, u32, u64, u8, u16, TPEq, );
pub type XT12_0TNotSend = (TNotSend, u16, u32, u64, u8, u16, u32, u64, u8, u16, u32, u64, );
pub type XT12_0TClone = (TClone, u16, u32, u64, u8, u16, u32, u64, u8, u16, u32, u64, );
pub type XT12_0TPEq = (TPEq, u16, u32, u64, u8, u16, u32, u64, u8, u16, u32, u64, );
pub type XT12_6TNotSend = (u8, u16, u32, u64, u8, u16, TNotSend, u64, u8, u16, u32, u64, );
pub type XT12_6TClone = (u8, u16, u32, u64, u8, u16, TClone, u64, u8, u16, u32, u64, );
pub type XT12_6TPEq = (u8, u16, u32, u64, u8, u16, TPEq, u64, u8, u16, u32, u64, );
pub type XT12_11TNotSend = (u8, u16, u32, u64, u8, u16, u32, u64, u8, u16, u32, TNotSend, );
pub type XT12_11TClone = (u8, u16, u32, u64, u8, u16, u32, u64, u8, u16, u32, TClone, );
pub type XT12_11TPEq = (u8, u16, u32, u64, u8, u16, u32, u64, u8, u16, u32, TPEq, );
pub type XKHash = HashMap<KHash, u16>;
pub type XKOrd = BTreeMap<KOrd, u16>;
#[derive(Facet)]
pub struct BN0 { f0: u8, #[facet(sensitive)] f1: String, #[facet(default)] f2: u64, #[facet(default = "def_u8")] f3: u8, #[facet(rename = "other name")] f4: u16, #[facet(opaque)] f5: Arc<crate::builtin::NotFacet>, #[facet(some text)] f6: u32, #[facet(key = "v")] f7: bool, #[facet(sensitive)] #[facet(rename = "both")] f8: String, #[facet(default)] #[facet(sensitive)] f9: u8, /** block */ f10: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f11: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f12: Vec<u8>, f13: u64 }
#[derive(Facet)]
pub struct BT0(u8, #[facet(sensitive)] String, #[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64);
#[derive(Facet)]
pub struct BN3 { #[facet(default = "def_u8")] f0: u8, #[facet(rename = "other name")] f1: u16, #[facet(opaque)] f2: Arc<crate::builtin::NotFacet>, #[facet(some text)] f3: u32, #[facet(key = "v")] f4: bool, #[facet(sensitive)] #[facet(rename = "both")] f5: String, #[facet(default)] #[facet(sensitive)] f6: u8, /** block */ f7: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f8: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f9: Vec<u8>, f10: u64, f11: u8, #[facet(sensitive)] f12: String, #[facet(default)] f13: u64 }
#[derive(Facet)]
pub struct BT3(#[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String, #[facet(default)] u64);
#[derive(Facet)]
pub struct BN6 { #[facet(some text)] f0: u32, #[facet(key = "v")] f1: bool, #[facet(sensitive)] #[facet(rename = "both")] f2: String, #[facet(default)] #[facet(sensitive)] f3: u8, /** block */ f4: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f5: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f6: Vec<u8>, f7: u64, f8: u8, #[facet(sensitive)] f9: String, #[facet(default)] f10: u64, #[facet(default = "def_u8")] f11: u8, #[facet(rename = "other name")] f12: u16, #[facet(opaque)] f13: Arc<crate::builtin::NotFacet> }
#[derive(Facet)]
pub struct BT6(#[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String, #[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>);
#[derive(Facet)]
pub struct BN9 { #[facet(default)] #[facet(sensitive)] f0: u8, /** block */ f1: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f2: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f3: Vec<u8>, f4: u64, f5: u8, #[facet(sensitive)] f6: String, #[facet(default)] f7: u64, #[facet(default = "def_u8")] f8: u8, #[facet(rename = "other name")] f9: u16, #[facet(opaque)] f10: Arc<crate::builtin::NotFacet>, #[facet(some text)] f11: u32, #[facet(key = "v")] f12: bool, #[facet(sensitive)] #[facet(rename = "both")] f13: String }
#[derive(Facet)]
pub struct BT9(#[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String, #[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String);
#[derive(Facet)]
pub struct BN12 { #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f0: Vec<u8>, f1: u64, f2: u8, #[facet(sensitive)] f3: String, #[facet(default)] f4: u64, #[facet(default = "def_u8")] f5: u8, #[facet(rename = "other name")] f6: u16, #[facet(opaque)] f7: Arc<crate::builtin::NotFacet>, #[facet(some text)] f8: u32, #[facet(key = "v")] f9: bool, #[facet(sensitive)] #[facet(rename = "both")] f10: String, #[facet(default)] #[facet(sensitive)] f11: u8, /** block */ f12: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f13: String }
#[derive(Facet)]
pub struct BT12(#[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String, #[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String);
#[facet(deny_unknown_fields)]
#[derive(Facet, Default)]
pub struct BC0 { a: u8 }
#[facet(deny_unknown_fields)]
#[derive(Facet, Default)]
pub struct BD0(String);
#[facet(deny_unknown_fields)]
#[derive(Facet)]
#[repr(u8)]
pub enum BE0 { A, B(u8) }
#[facet(deny_unknown_fields)]
#[derive(Facet)]
#[repr(C)]
pub enum BF0 { A, B(u8) }
#[facet(default)]
#[derive(Facet, Default)]
pub struct BC1 { a: u8 }
#[facet(default)]
#[derive(Facet, Default)]
pub struct BD1(String);
#[facet(default)]
#[derive(Facet)]
#[repr(u8)]
pub enum BE1 { A, B(u8) }
#[facet(default)]
#[derive(Facet)]
#[repr(C)]
pub enum BF1 { A, B(u8) }
#[facet(transparent)]
#[derive(Facet, Default)]
pub struct BC2 { a: u8 }
#[facet(transparent)]
#[derive(Facet, Default)]
pub struct BD2(String);
#[facet(transparent)]
#[derive(Facet)]
#[repr(u8)]
pub enum BE2 { A, B(u8) }
#[facet(transparent)]
#[derive(Facet)]
#[repr(C)]
pub enum BF2 { A, B(u8) }
#[facet(deny_unknown_fields)]
#[facet(default)]
#[derive(Facet, Default)]
pub struct BC3 { a: u8 }
#[facet(deny_unknown_fields)]
#[facet(default)]
#[derive(Facet, Default)]
pub struct BD3(String);
#[facet(deny_unknown_fields)]
#[facet(default)]
#[derive(Facet)]
#[repr(u8)]
pub enum BE3 { A, B(u8) }
#[facet(deny_unknown_fields)]
#[facet(default)]
#[derive(Facet)]
#[repr(C)]
pub enum BF3 { A, B(u8) }
/// Docs.
#[facet(default)]
/// More docs.
#[facet(deny_unknown_fields)]
#[derive(Facet, Default)]
pub struct BC4 { a: u8 }
/// Docs.
#[facet(default)]
/// More docs.
#[facet(deny_unknown_fields)]
#[derive(Facet, Default)]
pub struct BD4(String);
/// Docs.
#[facet(default)]
/// More docs.
#[facet(deny_unknown_fields)]
#[derive(Facet)]
#[repr(u8)]
pub enum BE4 { A, B(u8) }
/// Docs.
#[facet(default)]
/// More docs.
#[facet(deny_unknown_fields)]
#[derive(Facet)]
#[repr(C)]
pub enum BF4 { A, B(u8) }
#[facet(invariants = "one")]
#[facet(invariants = "two")]
#[derive(Facet)]
pub struct BInv2 { a: u8 }
impl BInv2 {
    fn one(&self) -> bool { self.a > 1 }
    fn two(&self) -> bool { self.a < 9 }
}
#[facet(invariants = "ok")]
#[derive(Facet)]
pub struct BInvT(u8, u8);
impl BInvT {
    fn ok(&self) -> bool { self.0 < self.1 }
}
#[derive(Facet)]
#[repr(u8)]
pub enum CP_u8 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(u8)]
pub enum CA_u8 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(u8)]
pub enum CD_u8 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(u8)]
pub enum CE_u8 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(u16)]
pub enum CP_u16 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(u16)]
pub enum CA_u16 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(u16)]
pub enum CD_u16 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(u16)]
pub enum CE_u16 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(u32)]
pub enum CP_u32 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(u32)]
pub enum CA_u32 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(u32)]
pub enum CD_u32 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(u32)]
pub enum CE_u32 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(u64)]
pub enum CP_u64 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(u64)]
pub enum CA_u64 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(u64)]
pub enum CD_u64 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(u64)]
pub enum CE_u64 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(usize)]
pub enum CP_usize { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(usize)]
pub enum CA_usize { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(usize)]
pub enum CD_usize { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(usize)]
pub enum CE_usize { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(i8)]
pub enum CP_i8 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(i8)]
pub enum CA_i8 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(i8)]
pub enum CD_i8 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(i8)]
pub enum CE_i8 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(i16)]
pub enum CP_i16 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(i16)]
pub enum CA_i16 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(i16)]
pub enum CD_i16 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(i16)]
pub enum CE_i16 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(i32)]
pub enum CP_i32 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(i32)]
pub enum CA_i32 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(i32)]
pub enum CD_i32 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(i32)]
pub enum CE_i32 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(i64)]
pub enum CP_i64 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(i64)]
pub enum CA_i64 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(i64)]
pub enum CD_i64 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(i64)]
pub enum CE_i64 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(isize)]
pub enum CP_isize { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(isize)]
pub enum CA_isize { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(isize)]
pub enum CD_isize { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(isize)]
pub enum CE_isize { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(C)]
pub enum CP_C { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(C)]
pub enum CA_C { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(C)]
pub enum CD_C { A = 5, B, C = 0x11, D, E = 0b1_110, F = 0o70, G, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(C, u8)]
pub enum CP_Cu8 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(C, u8)]
pub enum CA_Cu8 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(C, u8)]
pub enum CD_Cu8 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(C, u8)]
pub enum CE_Cu8 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(C, u16)]
pub enum CP_Cu16 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(C, u16)]
pub enum CA_Cu16 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(C, u16)]
pub enum CD_Cu16 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(C, u16)]
pub enum CE_Cu16 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(C, u32)]
pub enum CP_Cu32 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(C, u32)]
pub enum CA_Cu32 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(C, u32)]
pub enum CD_Cu32 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(C, u32)]
pub enum CE_Cu32 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(C, u64)]
pub enum CP_Cu64 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(C, u64)]
pub enum CA_Cu64 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(C, u64)]
pub enum CD_Cu64 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(C, u64)]
pub enum CE_Cu64 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(C, usize)]
pub enum CP_Cusize { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(C, usize)]
pub enum CA_Cusize { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(C, usize)]
pub enum CD_Cusize { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(C, usize)]
pub enum CE_Cusize { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(C, i8)]
pub enum CP_Ci8 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(C, i8)]
pub enum CA_Ci8 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(C, i8)]
pub enum CD_Ci8 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(C, i8)]
pub enum CE_Ci8 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(C, i16)]
pub enum CP_Ci16 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(C, i16)]
pub enum CA_Ci16 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(C, i16)]
pub enum CD_Ci16 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(C, i16)]
pub enum CE_Ci16 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(C, i32)]
pub enum CP_Ci32 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(C, i32)]
pub enum CA_Ci32 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(C, i32)]
pub enum CD_Ci32 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(C, i32)]
pub enum CE_Ci32 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(C, i64)]
pub enum CP_Ci64 { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(C, i64)]
pub enum CA_Ci64 { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(C, i64)]
pub enum CD_Ci64 { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(C, i64)]
pub enum CE_Ci64 { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(C, isize)]
pub enum CP_Cisize { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(C, isize)]
pub enum CA_Cisize { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(C, isize)]
pub enum CD_Cisize { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(C, isize)]
pub enum CE_Cisize { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(u16, C)]
pub enum CP_u16C { U, T0(u8), T1(u16), T2(u32), T3(u64), T4(u128), T5(String), T6(Option<u8>), T7((u8, u32)), T8([u16; 3]), T9(Big), T10(bool), S0 { a: u8, b: u8 }, S1 { a: u8, b: u16 }, S2 { a: u8, b: u32 }, S3 { a: u8, b: u64 }, S4 { a: u8, b: u128 }, S5 { a: u8, b: String }, S6 { a: u8, b: Option<u8> }, S7 { a: u8, b: (u8, u32) }, S8 { a: u8, b: [u16; 3] }, S9 { a: u8, b: Big }, S10 { a: u8, b: bool }, R0(u8, u16, u32, u64, u128, String, Option<u8>, (u8, u32), [u16; 3], Big, bool), R1 { x0: bool, x1: Big, x2: [u16; 3], x3: (u8, u32), x4: Option<u8>, x5: String, x6: u128, x7: u64, x8: u32, x9: u16, x10: u8 }, E0 {}, E1() }
#[derive(Facet)]
#[repr(u16, C)]
pub enum CA_u16C { A(#[facet(default)] u64, #[facet(default = "def_u8")] u8, #[facet(rename = "other name")] u16, #[facet(opaque)] Arc<crate::builtin::NotFacet>, #[facet(some text)] u32, #[facet(key = "v")] bool, #[facet(sensitive)] #[facet(rename = "both")] String, #[facet(default)] #[facet(sensitive)] u8, /** block */ u16, #[facet(default = "def_s")] #[facet(rename = "z")] String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] Vec<u8>, u64, u8, #[facet(sensitive)] String), B, C { #[facet(opaque)] f0: Arc<crate::builtin::NotFacet>, #[facet(some text)] f1: u32, #[facet(key = "v")] f2: bool, #[facet(sensitive)] #[facet(rename = "both")] f3: String, #[facet(default)] #[facet(sensitive)] f4: u8, /** block */ f5: u16, #[facet(default = "def_s")] #[facet(rename = "z")] f6: String, #[doc = " one"] #[doc = " two \"q\""] #[facet(sensitive)] f7: Vec<u8>, f8: u64, f9: u8, #[facet(sensitive)] f10: String, #[facet(default)] f11: u64, #[facet(default = "def_u8")] f12: u8, #[facet(rename = "other name")] f13: u16 } }
#[derive(Facet)]
#[repr(u16, C)]
pub enum CD_u16C { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }
#[derive(Facet)]
#[repr(u16, C)]
pub enum CE_u16C { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }
#[derive(Facet)]
#[repr(u16)]
pub enum CW_u16 { A = 300, B, C(u8), D { x: u64 } = 1, E }
#[derive(Facet)]
#[repr(u32)]
pub enum CW_u32 { A = 70_000, B, C(u8), D { x: u64 } = 1, E }
#[derive(Facet)]
#[repr(u64)]
pub enum CW_u64 { A = 5_000_000_000, B, C(u8), D { x: u64 } = 1, E }
#[derive(Facet)]
#[repr(i16)]
pub enum CW_i16 { A = 30_000, B, C(u8), D { x: u64 } = 1, E }
#[derive(Facet)]
#[repr(i64)]
pub enum CW_i64 { A = 0x7fff_ffff_ffff, B, C(u8), D { x: u64 } = 1, E }
#[derive(Facet)]
#[repr(usize)]
pub enum CW_usize { A = 0xffff_ffff_f, B, C(u8), D { x: u64 } = 1, E }
#[derive(Facet)]
#[repr(isize)]
pub enum CW_isize { A = 0x1_0000_0000, B, C(u8), D { x: u64 } = 1, E }
#[derive(Facet)]
#[repr(u8)]
pub enum CMany { V0(u8), V1, V2, V3(u16), V4, V5, V6(u32), V7, V8, V9(u64), V10, V11, V12(u8), V13, V14, V15(u16), V16, V17, V18(u32), V19, V20, V21(u64), V22, V23, V24(u8), V25, V26, V27(u16), V28, V29, V30(u32), V31, V32, V33(u64), V34, V35, V36(u8), V37, V38, V39(u16), V40, V41, V42(u32), V43, V44, V45(u64), V46, V47, V48(u8), V49, V50, V51(u16), V52, V53, V54(u32), V55, V56, V57(u64), V58, V59, V60(u8), V61, V62, V63(u16), V64, V65, V66(u32), V67, V68, V69(u64), V70, V71, V72(u8), V73, V74, V75(u16), V76, V77, V78(u32), V79, V80, V81(u64), V82, V83, V84(u8), V85, V86, V87(u16), V88, V89, V90(u32), V91, V92, V93(u64), V94, V95, V96(u8), V97, V98, V99(u16), V100, V101, V102(u32), V103, V104, V105(u64), V106, V107, V108(u8), V109, V110, V111(u16), V112, V113, V114(u32), V115, V116, V117(u64), V118, V119, V120(u8), V121, V122, V123(u16), V124, V125, V126(u32), V127, V128, V129(u64), V130, V131, V132(u8), V133, V134, V135(u16), V136, V137, V138(u32), V139, V140, V141(u64), V142, V143, V144(u8), V145, V146, V147(u16), V148, V149, V150(u32), V151, V152, V153(u64), V154, V155, V156(u8), V157, V158, V159(u16), V160, V161, V162(u32), V163, V164, V165(u64), V166, V167, V168(u8), V169, V170, V171(u16), V172, V173, V174(u32), V175, V176, V177(u64), V178, V179, V180(u8), V181, V182, V183(u16), V184, V185, V186(u32), V187, V188, V189(u64), V190, V191, V192(u8), V193, V194, V195(u16), V196, V197, V198(u32), V199, V200, V201(u64), V202, V203, V204(u8), V205, V206, V207(u16), V208, V209, V210(u32), V211, V212, V213(u64), V214, V215, V216(u8), V217, V218, V219(u16), V220, V221, V222(u32), V223, V224, V225(u64), V226, V227, V228(u8), V229, V230, V231(u16), V232, V233, V234(u32), V235, V236, V237(u64), V238, V239, V240(u8), V241, V242, V243(u16), V244, V245, V246(u32), V247, V248, V249(u64), V250, V251, V252(u8), V253, V254, V255(u16) }
#[derive(Facet)]
#[repr(C)]
pub enum CUnit1 { Only }
#[derive(Facet)]
#[repr(u8)]
pub enum CDocs {
    /// a
    A,
    /// b one
    ///
    /// b three
    B(
        /// f0
        u8,
        u16,
    ),
    #[doc = "c"]
    C {
        x: u8,
        /// y
        y: u8,
    },
    D,
}
#[derive(Facet)]
#[repr(C)]
pub enum CDocsC {
    /// a
    A,
    /// b one
    ///
    /// b three
    B(
        /// f0
        u8,
        u16,
    ),
    #[doc = "c"]
    C {
        x: u8,
        /// y
        y: u8,
    },
    D,
}
#[derive(Facet)]
pub struct DN_a<T>  { f0: T, f1: u8, f2: Vec<T> }
pub type DNi_a = DN_a<u8>;
#[derive(Facet)]
pub struct DT_a<T>(T, u8, Vec<T>) ;
pub type DTi_a = DT_a<u8>;
#[derive(Facet)]
#[repr(u8)]
pub enum DE_a<T>  { U, T(T, u8, Vec<T>), S { f0: T, f1: u8, f2: Vec<T> } }
pub type DEi_a = DE_a<u8>;
#[derive(Facet)]
pub struct DN_b<A, B>  { f0: B, f1: u8, f2: A }
pub type DNi_b = DN_b<u8, String>;
#[derive(Facet)]
pub struct DT_b<A, B>(B, u8, A) ;
pub type DTi_b = DT_b<u8, String>;
#[derive(Facet)]
#[repr(u8)]
pub enum DE_b<A, B>  { U, T(B, u8, A), S { f0: B, f1: u8, f2: A } }
pub type DEi_b = DE_b<u8, String>;
#[derive(Facet)]
pub struct DN_c<A: Clone, B: Default + Clone>  { f0: Option<A>, f1: u8, f2: B }
pub type DNi_c = DN_c<String, u64>;
#[derive(Facet)]
pub struct DT_c<A: Clone, B: Default + Clone>(Option<A>, u8, B) ;
pub type DTi_c = DT_c<String, u64>;
#[derive(Facet)]
#[repr(u8)]
pub enum DE_c<A: Clone, B: Default + Clone>  { U, T(Option<A>, u8, B), S { f0: Option<A>, f1: u8, f2: B } }
pub type DEi_c = DE_c<String, u64>;
#[derive(Facet)]
pub struct DN_d<const N: usize>  { f0: [u16; N], f1: u8 }
pub type DNi_d = DN_d<3>;
#[derive(Facet)]
pub struct DT_d<const N: usize>([u16; N], u8) ;
pub type DTi_d = DT_d<3>;
#[derive(Facet)]
#[repr(u8)]
pub enum DE_d<const N: usize>  { U, T([u16; N], u8), S { f0: [u16; N], f1: u8 } }
pub type DEi_d = DE_d<3>;
#[derive(Facet)]
pub struct DN_e<const N: usize, T>  { f0: [u16; N], f1: T }
pub type DNi_e = DN_e<2, u32>;
#[derive(Facet)]
pub struct DT_e<const N: usize, T>([u16; N], T) ;
pub type DTi_e = DT_e<2, u32>;
#[derive(Facet)]
#[repr(u8)]
pub enum DE_e<const N: usize, T>  { U, T([u16; N], T), S { f0: [u16; N], f1: T } }
pub type DEi_e = DE_e<2, u32>;
#[derive(Facet)]
pub struct DN_f<T, const N: usize, U>  { f0: U, f1: [u8; N], f2: T }
pub type DNi_f = DN_f<u8, 4, String>;
#[derive(Facet)]
pub struct DT_f<T, const N: usize, U>(U, [u8; N], T) ;
pub type DTi_f = DT_f<u8, 4, String>;
#[derive(Facet)]
#[repr(u8)]
pub enum DE_f<T, const N: usize, U>  { U, T(U, [u8; N], T), S { f0: U, f1: [u8; N], f2: T } }
pub type DEi_f = DE_f<u8, 4, String>;
#[derive(Facet)]
pub struct DN_g<'a>  { f0: &'a str, f1: u8 }
pub type DNi_g = DN_g<'static>;
#[derive(Facet)]
pub struct DT_g<'a>(&'a str, u8) ;
pub type DTi_g = DT_g<'static>;
#[derive(Facet)]
#[repr(u8)]
pub enum DE_g<'a>  { U, T(&'a str, u8), S { f0: &'a str, f1: u8 } }
pub type DEi_g = DE_g<'static>;
#[derive(Facet)]
pub struct DN_h<'a, T: 'a>  { f0: &'a [T], f1: u8, f2: T }
pub type DNi_h = DN_h<'static, u64>;
#[derive(Facet)]
pub struct DT_h<'a, T: 'a>(&'a [T], u8, T) ;
pub type DTi_h = DT_h<'static, u64>;
#[derive(Facet)]
#[repr(u8)]
pub enum DE_h<'a, T: 'a>  { U, T(&'a [T], u8, T), S { f0: &'a [T], f1: u8, f2: T } }
pub type DEi_h = DE_h<'static, u64>;
#[derive(Facet)]
pub struct DN_i<'a, 'b: 'a, T> where T: Clone { f0: &'a str, f1: T, f2: &'b str }
pub type DNi_i = DN_i<'static, 'static, String>;
#[derive(Facet)]
pub struct DT_i<'a, 'b: 'a, T>(&'a str, T, &'b str) where T: Clone;
pub type DTi_i = DT_i<'static, 'static, String>;
#[derive(Facet)]
#[repr(u8)]
pub enum DE_i<'a, 'b: 'a, T> where T: Clone { U, T(&'a str, T, &'b str), S { f0: &'a str, f1: T, f2: &'b str } }
pub type DEi_i = DE_i<'static, 'static, String>;
#[derive(Facet)]
pub struct DN_j<T = u8>  { f0: T, f1: u64 }
pub type DNi_j = DN_j;
#[derive(Facet)]
pub struct DT_j<T = u8>(T, u64) ;
pub type DTi_j = DT_j;
#[derive(Facet)]
#[repr(u8)]
pub enum DE_j<T = u8>  { U, T(T, u64), S { f0: T, f1: u64 } }
pub type DEi_j = DE_j;
#[derive(Facet)]
pub struct DN_k<A, B> where A: Clone, B: Default, Vec<A>: Clone { f0: A, f1: B, f2: PhantomData<B> }
pub type DNi_k = DN_k<u64, u8>;
#[derive(Facet)]
pub struct DT_k<A, B>(A, B, PhantomData<B>) where A: Clone, B: Default, Vec<A>: Clone;
pub type DTi_k = DT_k<u64, u8>;
#[derive(Facet)]
#[repr(u8)]
pub enum DE_k<A, B> where A: Clone, B: Default, Vec<A>: Clone { U, T(A, B, PhantomData<B>), S { f0: A, f1: B, f2: PhantomData<B> } }
pub type DEi_k = DE_k<u64, u8>;
#[derive(Facet)]
pub struct DN_l<T: 'static>  { f0: HashMap<String, T>, f1: BTreeMap<u8, T>, f2: Arc<T> }
pub type DNi_l = DN_l<String>;
#[derive(Facet)]
pub struct DT_l<T: 'static>(HashMap<String, T>, BTreeMap<u8, T>, Arc<T>) ;
pub type DTi_l = DT_l<String>;
#[derive(Facet)]
#[repr(u8)]
pub enum DE_l<T: 'static>  { U, T(HashMap<String, T>, BTreeMap<u8, T>, Arc<T>), S { f0: HashMap<String, T>, f1: BTreeMap<u8, T>, f2: Arc<T> } }
pub type DEi_l = DE_l<String>;
#[derive(Facet)]
pub struct DN_m<A, B, C, D>  { f0: D, f1: C, f2: B, f3: A, f4: A }
pub type DNi_m = DN_m<u8, u16, String, bool>;
#[derive(Facet)]
pub struct DT_m<A, B, C, D>(D, C, B, A, A) ;
pub type DTi_m = DT_m<u8, u16, String, bool>;
#[derive(Facet)]
#[repr(u8)]
pub enum DE_m<A, B, C, D>  { U, T(D, C, B, A, A), S { f0: D, f1: C, f2: B, f3: A, f4: A } }
pub type DEi_m = DE_m<u8, u16, String, bool>;
pub mod list {
    macro_rules! each { ($($t:ident)*) => { $(pub type $t = super::$t;)* } }
    each!(KHash KOrd BN0 BT0 BN3 BT3 BN6 BT6 BN9 BT9 BN12 BT12 BC0 BD0 BE0 BF0 BC1 BD1 BE1 BF1 BC2 BD2 BE2 BF2 BC3 BD3 BE3 BF3 BC4 BD4 BE4 BF4 BInv2 BInvT CD_u8 CE_u8 CP_u8 CA_u8 CD_u16 CE_u16 CP_u16 CA_u16 CD_u32 CE_u32 CP_u32 CA_u32 CD_u64 CE_u64 CP_u64 CA_u64 CD_usize CE_usize CP_usize CA_usize CD_i8 CE_i8 CP_i8 CA_i8 CD_i16 CE_i16 CP_i16 CA_i16 CD_i32 CE_i32 CP_i32 CA_i32 CD_i64 CE_i64 CP_i64 CA_i64 CD_isize CE_isize CP_isize CA_isize CD_C CP_C CA_C CD_Cu8 CE_Cu8 CP_Cu8 CA_Cu8 CD_Cu16 CE_Cu16 CP_Cu16 CA_Cu16 CD_Cu32 CE_Cu32 CP_Cu32 CA_Cu32 CD_Cu64 CE_Cu64 CP_Cu64 CA_Cu64 CD_Cusize CE_Cusize CP_Cusize CA_Cusize CD_Ci8 CE_Ci8 CP_Ci8 CA_Ci8 CD_Ci16 CE_Ci16 CP_Ci16 CA_Ci16 CD_Ci32 CE_Ci32 CP_Ci32 CA_Ci32 CD_Ci64 CE_Ci64 CP_Ci64 CA_Ci64 CD_Cisize CE_Cisize CP_Cisize CA_Cisize CD_u16C CE_u16C CP_u16C CA_u16C CW_u16 CW_u32 CW_u64 CW_i16 CW_i64 CW_usize CW_isize CMany CUnit1 CDocs CDocsC);
}
