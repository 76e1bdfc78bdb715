#!/usr/bin/env python3
"""Writes witness/src/generated.rs: the systematic part of the corpus (containers x elements with exactly one
trait, attributes x positions, representations x variant kinds x discriminants, generic parameter lists)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = []
al = []  # non-generic types
w = o.append
w("//! Written by mk/gen_witness.py.")
w("use crate::derived::*;\nuse facet::Facet;\nuse std::collections::{BTreeMap, HashMap};\nuse std::marker::PhantomData;\nuse std::sync::{Arc, Weak};\n")

# ---- A: containers over elements that have exactly one trait
w("#[derive(Facet, PartialEq, Eq, Hash)]\npub struct KHash(u8);\n#[derive(Facet, PartialEq, Eq, PartialOrd, Ord)]\npub struct KOrd(u8);")
al += ["KHash", "KOrd"]
ELEMS = "TDebug TClone TDefault TPEq TEq TPOrd TOrd THash TCopy TDisplay TFromStr TUnpin TNotSend TAll TEnumAll".split()
for e in ELEMS:
    for n, t in [("Vec", "Vec<%s>"), ("Arr", "[%s; 3]"), ("Sl", "&'static [%s]"), ("Opt", "Option<%s>"), ("Arc", "Arc<%s>"),
                 ("Weak", "Weak<%s>"), ("Map", "HashMap<u8, %s>"), ("BMap", "BTreeMap<u8, %s>"), ("One", "(%s,)"),
                 ("Fst", "(%s, u8)"), ("Snd", "(u8, %s)"), ("Mid", "(u8, %s, u64)"), ("Ph", "PhantomData<%s>"),
                 ("Nest", "Vec<Option<%s>>")]:
        w("pub type X%s%s = %s;" % (n, e, t % e))
for i in range(1, 13):
    # a tuple with the odd one out in every position
    for j in sorted({0, i // 2, i - 1}):
        for e in ("TNotSend", "TClone", "TPEq"):
            w("pub type XT%d_%d%s = (%s);" % (i, j, e, "".join((e if k == j else "u%d" % (8 << (k % 4))) + ", " for k in range(i))))
w("pub type XKHash = HashMap<KHash, u16>;\npub type XKOrd = BTreeMap<KOrd, u16>;")

# ---- B: attributes by position
TYS = ["u8", "u64", "String", "u16", "Vec<u8>", "u32", "Option<u64>", "bool", "i128", "u8", "f32", "(u8, u16)"]
ATTRS = [
    ("", "u8"), ('#[facet(sensitive)] ', "String"), ('#[facet(default)] ', "u64"), ('#[facet(default = "def_u8")] ', "u8"),
    ('#[facet(rename = "other name")] ', "u16"), ('#[facet(opaque)] ', "Arc<crate::builtin::NotFacet>"), ('#[facet(some text)] ', "u32"),
    ('#[facet(key = "v")] ', "bool"), ('#[facet(sensitive)] #[facet(rename = "both")] ', "String"),
    ('#[facet(default)] #[facet(sensitive)] ', "u8"), ("/** block */ ", "u16"), ('#[facet(default = "def_s")] #[facet(rename = "z")] ', "String"),
    ('#[doc = " one"] #[doc = " two \\"q\\""] #[facet(sensitive)] ', "Vec<u8>"), ("", "u64"),
]


def fields(rot, tup, pre="f"):
    a = ATTRS[rot:] + ATTRS[:rot]
    return ", ".join("%s%s%s" % (at, "" if tup else "%s%d: " % (pre, i), ty) for i, (at, ty) in enumerate(a))


for rot in range(0, len(ATTRS), 3):
    w("#[derive(Facet)]\npub struct BN%d { %s }" % (rot, fields(rot, False)))
    w("#[derive(Facet)]\npub struct BT%d(%s);" % (rot, fields(rot, True)))
    al += ["BN%d" % rot, "BT%d" % rot]
CONT = ["#[facet(deny_unknown_fields)]", "#[facet(default)]", "#[facet(transparent)]",
        "#[facet(deny_unknown_fields)]\n#[facet(default)]", "/// Docs.\n#[facet(default)]\n/// More docs.\n#[facet(deny_unknown_fields)]"]
for i, c in enumerate(CONT):
    w("%s\n#[derive(Facet, Default)]\npub struct BC%d { a: u8 }" % (c, i))
    w("%s\n#[derive(Facet, Default)]\npub struct BD%d(String);" % (c, i))
    w("%s\n#[derive(Facet)]\n#[repr(u8)]\npub enum BE%d { A, B(u8) }" % (c, i))
    w("%s\n#[derive(Facet)]\n#[repr(C)]\npub enum BF%d { A, B(u8) }" % (c, i))
    al += ["B%s%d" % (k, i) for k in "CDEF"]
w("#[facet(invariants = \"one\")]\n#[facet(invariants = \"two\")]\n#[derive(Facet)]\npub struct BInv2 { a: u8 }\n"
  "impl BInv2 {\n    fn one(&self) -> bool { self.a > 1 }\n    fn two(&self) -> bool { self.a < 9 }\n}")
w("#[facet(invariants = \"ok\")]\n#[derive(Facet)]\npub struct BInvT(u8, u8);\nimpl BInvT {\n    fn ok(&self) -> bool { self.0 < self.1 }\n}")
al += ["BInv2", "BInvT"]

# ---- C: representations
INTS = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"]
REPRS = INTS + ["C"] + ["C, " + i for i in INTS] + ["u16, C"]
PAY = ["u8", "u16", "u32", "u64", "u128", "String", "Option<u8>", "(u8, u32)", "[u16; 3]", "Big", "bool"]
for r in REPRS:
    n = r.replace(", ", "")
    w("#[derive(Facet)]\n#[repr(%s)]\npub enum CP_%s { U, %s, %s, %s, %s, E0 {}, E1() }" % (
        r, n,
        ", ".join("T%d(%s)" % (i, p) for i, p in enumerate(PAY)),
        ", ".join("S%d { a: u8, b: %s }" % (i, p) for i, p in enumerate(PAY)),
        "R0(%s)" % ", ".join(PAY), "R1 { %s }" % ", ".join("x%d: %s" % (i, p) for i, p in enumerate(reversed(PAY)))))
    w("#[derive(Facet)]\n#[repr(%s)]\npub enum CA_%s { A(%s), B, C { %s } }" % (r, n, fields(2, True), fields(5, False)))
    if r == "C":
        w("#[derive(Facet)]\n#[repr(C)]\npub enum CD_C { A = 5, B, C = 0x11, D, E = 0b1_110, F = 0o70, G, H = 1_00, I, J = 0, K = 0x7A, L = 3 }")
        al += ["CD_C"]
    else:
        w("#[derive(Facet)]\n#[repr(%s)]\npub enum CD_%s { A = 5, B, C = 0x11, D(u8), E = 0b1_110, F = 0o70, G { x: u16 }, H = 1_00, I, J = 0, K = 0x7A, L = 3 }" % (r, n))
        w("#[derive(Facet)]\n#[repr(%s)]\npub enum CE_%s { A(u64) = 9, B { x: u8 } = 4, C, D(u8, u16), E { y: u32 } = 100, F }" % (r, n))
        al += ["CD_" + n, "CE_" + n]
    al += ["CP_" + n, "CA_" + n]
for r, d in [("u16", "= 300"), ("u32", "= 70_000"), ("u64", "= 5_000_000_000"), ("i16", "= 30_000"), ("i64", "= 0x7fff_ffff_ffff"), ("usize", "= 0xffff_ffff_f"), ("isize", "= 0x1_0000_0000")]:
    w("#[derive(Facet)]\n#[repr(%s)]\npub enum CW_%s { A %s, B, C(u8), D { x: u64 } = 1, E }" % (r, r, d))
    al.append("CW_" + r)
w("#[derive(Facet)]\n#[repr(u8)]\npub enum CMany { %s }" % ", ".join("V%d%s" % (i, "" if i % 3 else "(u%d)" % (8 << (i // 3 % 4))) for i in range(256)))
w("#[derive(Facet)]\n#[repr(C)]\npub enum CUnit1 { Only }")
al += ["CMany", "CUnit1"]
w("#[derive(Facet)]\n#[repr(u8)]\npub enum CDocs {\n    /// a\n    A,\n    /// b one\n    ///\n    /// b three\n    B(\n        /// f0\n        u8,\n        u16,\n    ),\n    #[doc = \"c\"]\n    C {\n        x: u8,\n        /// y\n        y: u8,\n    },\n    D,\n}")
w("#[derive(Facet)]\n#[repr(C)]\npub enum CDocsC {\n    /// a\n    A,\n    /// b one\n    ///\n    /// b three\n    B(\n        /// f0\n        u8,\n        u16,\n    ),\n    #[doc = \"c\"]\n    C {\n        x: u8,\n        /// y\n        y: u8,\n    },\n    D,\n}")
al += ["CDocs", "CDocsC"]

# ---- D: generic parameter lists
PATS = [
    ("a", "<T>", "<u8>", "T", "", ["T", "u8", "Vec<T>"]),
    ("b", "<A, B>", "<u8, String>", "", "", ["B", "u8", "A"]),
    ("c", "<A: Clone, B: Default + Clone>", "<String, u64>", "", "", ["Option<A>", "u8", "B"]),
    ("d", "<const N: usize>", "<3>", "", "", ["[u16; N]", "u8"]),
    ("e", "<const N: usize, T>", "<2, u32>", "", "", ["[u16; N]", "T"]),
    ("f", "<T, const N: usize, U>", "<u8, 4, String>", "", "", ["U", "[u8; N]", "T"]),
    ("g", "<'a>", "<'static>", "", "", ["&'a str", "u8"]),
    ("h", "<'a, T: 'a>", "<'static, u64>", "", "", ["&'a [T]", "u8", "T"]),
    ("i", "<'a, 'b: 'a, T>", "<'static, 'static, String>", "", "where T: Clone", ["&'a str", "T", "&'b str"]),
    ("j", "<T = u8>", "", "", "", ["T", "u64"]),
    ("k", "<A, B>", "<u64, u8>", "", "where A: Clone, B: Default, Vec<A>: Clone", ["A", "B", "PhantomData<B>"]),
    ("l", "<T: 'static>", "<String>", "", "", ["HashMap<String, T>", "BTreeMap<u8, T>", "Arc<T>"]),
    ("m", "<A, B, C, D>", "<u8, u16, String, bool>", "", "", ["D", "C", "B", "A", "A"]),
]
for n, gd, gu, _, wh, fs in PATS:
    inst = gu
    w("#[derive(Facet)]\npub struct DN_%s%s %s { %s }" % (n, gd, wh, ", ".join("f%d: %s" % (i, f) for i, f in enumerate(fs))))
    w("pub type DNi_%s = DN_%s%s;" % (n, n, inst))
    w("#[derive(Facet)]\npub struct DT_%s%s(%s) %s;" % (n, gd, ", ".join(fs), wh))
    w("pub type DTi_%s = DT_%s%s;" % (n, n, inst))
    w("#[derive(Facet)]\n#[repr(u8)]\npub enum DE_%s%s %s { U, T(%s), S { %s } }" % (n, gd, wh, ", ".join(fs), ", ".join("f%d: %s" % (i, f) for i, f in enumerate(fs))))
    w("pub type DEi_%s = DE_%s%s;" % (n, n, inst))

w("pub mod list {\n    macro_rules! each { ($($t:ident)*) => { $(pub type $t = super::$t;)* } }\n    each!(%s);\n}" % " ".join(al))
open(os.path.join(V, "witness", "src", "generated.rs"), "w").write("\n".join(o) + "\n")
