#!/usr/bin/env python3
"""Writes mc/src/derived.rs: the derived types of C12, as plain items, with what ssz says of them."""
import os, re
SPEC = """
named! {
	N0 { }
	N1 { [] a: u16 }
	N2 { [] a: u8, [] b: u8 }
	N3 { [] z: u8, [] y: u16, [] x: u32 }
	N4 { [] b: u8, [] a: u8, [] d: u8, [] c: u8 }
	N5 { [] f4: u8, [] f3: u8, [] f2: u8, [] f1: u8, [] f0: u8 }
	N6 { [] a: bool, [] b: u8, [] c: bool, [] d: u8, [] e: bool, [] f: u8 }
	N7 { [] a: u8, [] b: bool, [] c: u8, [] d: bool, [] e: u8, [] f: bool, [] g: u8 }
	N8 { [] a: bool, [] b: bool, [] c: u8, [] d: bool, [] e: bool, [] f: bool, [] g: u8, [] h: bool }
	N9 { [] i: bool, [] h: bool, [] g: bool, [] f: bool, [] e: bool, [] d: bool, [] c: bool, [] b: bool, [] a: u8 }
	N17 { [] a: bool, [] b: bool, [] c: bool, [] d: bool, [] e: bool, [] f: (), [] g: (), [] h: bool, [] i: u8, [] j: bool, [] k: (), [] l: (), [] m: (), [] n: (), [] o: (), [] p: bool, [] q: bool }
	C1 { [compact] a: MaxVec<bool, U9> }
	C2 { [compact] a: GenericArray<u8, U3>, [] b: u8 }
	C3 { [] a: u8, [compact] b: MaxVec<u64, U5>, [] c: u8 }
	C4 { [] a: MaxVec<u64, U5>, [compact] b: VecArray<u16, U3>, [compact] c: MaxVec<u8, U33> }
	C5 { [compact] a: GenericArray<bool, U4>, [compact] b: VecArray<bool, U4>, [] c: GenericArray<bool, U2>, [] d: bool, [compact] e: MaxVec<bool, U3> }
	L3 { [] a: Vec<u8>, [] b: Option<u16>, [] c: H512 }
	D2 { [] a: N3, [] b: N2 }
	D3 { [] a: Vec<N2>, [] b: Option<N1>, [] c: MaxVec<N0, U3> }
	D4 { [] a: E2, [] b: N1, [] c: Vec<E3>, [] d: Box<E1> }
	D5 { [] a: P2, [] b: P1, [] c: (N1, P0), [] d: U256, [] e: C1 }
}
positional! {
	P0 ()
	P1 ([] 0 u16)
	P2 ([] 0 u8, [] 1 u8)
	P3 ([] 0 u8, [] 1 u16, [] 2 u8)
	P4 ([] 0 u8, [] 1 u8, [] 2 u8, [] 3 u8)
	P5 ([] 0 u8, [] 1 bool, [] 2 u8, [] 3 bool, [] 4 u8)
	P6 ([] 0 bool, [] 1 bool, [] 2 bool, [] 3 bool, [] 4 u8, [] 5 bool)
	P7 ([] 0 bool, [] 1 bool, [] 2 bool, [] 3 bool, [] 4 u8, [] 5 bool, [] 6 u8)
	P8 ([] 0 bool, [] 1 bool, [] 2 bool, [] 3 bool, [] 4 u8, [] 5 bool, [] 6 bool, [] 7 bool)
	P9 ([] 0 bool, [] 1 bool, [] 2 bool, [] 3 bool, [] 4 u8, [] 5 bool, [] 6 bool, [] 7 bool, [] 8 u8)
	P11 ([] 0 bool, [] 1 bool, [] 2 bool, [] 3 bool, [] 4 bool, [] 5 (), [] 6 bool, [] 7 bool, [] 8 bool, [] 9 bool, [] 10 u8)
	PC ([compact] 0 MaxVec<bool, U3>, [] 1 u8, [compact] 2 GenericArray<u16, U2>)
	PL ([] 0 Vec<u8>, [] 1 H256, [] 2 Option<E1>)
}
enums! {
	E1 { A }
	E2 { A, B }
	E3 { A([] v0: u16), B { [] c: bool, [] d: u8 }, E }
	EF { U, A([] v0: u8), B([] v0: u8, [] v1: u8), C([] v0: bool, [] v1: u8, [] v2: bool), D([] v0: u8, [] v1: bool, [] v2: u8, [] v3: bool), F([] v0: bool, [] v1: u8, [] v2: bool, [] v3: bool, [] v4: bool), V, H([] v0: bool, [] v1: bool, [] v2: u8, [] v3: bool, [] v4: bool, [] v5: bool, [] v6: bool, [] v7: bool, [] v8: bool) }
	EN { Z { [] a: u16 }, Y { [] b: u8, [] a: u8 }, X { [] c: bool, [] b: u8, [] a: bool }, W { [] a: u8, [] d: bool, [] c: u8, [] b: bool }, T, S { [] a: bool, [] b: bool, [] c: u8, [] d: bool, [] e: bool } }
	EC { A([compact] v0: MaxVec<bool, U9>), B { [] x: u8, [compact] y: MaxVec<u8, U5> }, C }
	EL { None_, Some_([] v0: Vec<u8>), Pair([] v0: Option<u8>, [] v1: H512), Rec { [] v: Vec<bool>, [] w: MaxVec<u8, U2> } }
	ED { In([] v0: E3), St([] v0: N3), Both([] v0: E2, [] v1: N2), Named { [] e: E1, [] f: P2 }, Nest([] v0: Box<E2>), Un([] v0: Unit) }
	EE { A { }, B(), C, D([] v0: u8) }
	E1F { Only([] v0: u16, [] v1: u8) }
	E20 { V0, V1, V2, V3([] v0: bool), V4, V5, V6, V7 { [] a: bool }, V8, V9, V10, V11, V12, V13, V14, V15, V16([] v0: u8), V17, V18, V19 }
	E300 { @300 }
}
"""
DER = "#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]\n"
def split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<({[": d += 1
        if ch in ">)}]": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def fields(s):
    """[(compact, name, type)]"""
    out = []
    for f in split(s):
        m = re.match(r"\[(\w*)\]\s*(\w+):?\s+(.*)$", f)
        out.append((m.group(1) == "compact", m.group(2), m.group(3)))
    return out
def decl(f, named): return ("#[bm(compact)] " if f[0] else "") + (("pub " + f[1] + ": ") if named else "pub ") + f[2]
def vdecl(f, named): return ("#[bm(compact)] " if f[0] else "") + ((f[1] + ": ") if named else "") + f[2]
def spec(f, e): return f"Compact({e}.clone()).spec::<C>()" if f[0] else f"{e}.spec::<C>()"
def struct(name, fs, named):
    o, c = ("{", "}") if named else ("(", ")")
    mk = lambda e: o + ", ".join((f[1] + ": " if named else "") + e(i, f) for i, f in enumerate(fs)) + c
    return (DER + f"pub struct {name} {o} " + ", ".join(decl(f, named) for f in fs) + f" {c}" + ("" if named else ";") + "\n"
      + f"impl Le for {name} {{\n"
      + "\tfn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[" + ", ".join(spec(f, "self." + f[1]) for f in fs) + "], None) }\n"
      + f"\tfn nth(k: u64) -> Self {{ {name} " + mk(lambda i, f: f"<{f[2]}>::nth(if k == 0 {{ 0 }} else {{ k + {i} }})") + " }\n"
      + f"\tfn any(cx: &mut Cx) -> Self {{ {name} " + mk(lambda i, f: f"<{f[2]}>::any(cx)") + " }\n}\n")
def enum(name, vs):
    def arm(v, body): return f"{name}::{v[0]}" + body
    def pat(v, bind):
        if v[1] is None: return f"{name}::{v[0]}"
        if not bind: return f"{name}::{v[0]} {{ .. }}"
        return f"{name}::{v[0]} {{ " + ", ".join(f"{f[1] if v[1] else i}: x{i}" for i, f in enumerate(v[2])) + " }"
    def mk(v, e):
        if v[1] is None: return f"{name}::{v[0]}"
        return f"{name}::{v[0]} {{ " + ", ".join(f"{f[1] if v[1] else i}: {e(i, f)}" for i, f in enumerate(v[2])) + " }"
    def dec(v):
        if v[1] is None: return v[0]
        o, c = ("{ ", " }") if v[1] else ("(", ")")
        return v[0] + o + ", ".join(vdecl(f, v[1]) for f in v[2]) + c
    s = DER + f"pub enum {name} {{ " + ", ".join(dec(v) for v in vs) + " }\n"
    s += f"impl Tagged for {name} {{\n"
    s += "\tfn variants() -> Vec<(&'static str, bool)> { vec![" + ", ".join(f'("{v[0]}", {"true" if v[1] is None else "false"})' for v in vs) + "] }\n"
    s += "\tfn tag(&self) -> usize { match self { " + ", ".join(f"{pat(v, False)} => {i}" for i, v in enumerate(vs)) + " } }\n"
    s += "\tfn payload<C: LeC>(&self) -> Value { match self { " + ", ".join(f"{pat(v, True)} => spec_vec::<C>(&[" + ", ".join(spec(f, f"x{i}") for i, f in enumerate(v[2])) + "], None)" for v in vs) + " } }\n"
    s += "\tfn of(tag: usize, cx: &mut Cx) -> Self { match tag { " + ", ".join(f"{i} => " + mk(v, lambda i, f: f"<{f[2]}>::any(cx)") for i, v in enumerate(vs)) + ", _ => unreachable!() } }\n}\n"
    s += f"impl Le for {name} {{\n"
    s += "\tfn spec<C: LeC>(&self) -> Value { spec_mix::<C>(self.payload::<C>(), self.tag() as u64) }\n"
    n = len(vs)
    s += f"\tfn nth(k: u64) -> Self {{ let j = k / {n}; match k % {n} {{ " + ", ".join(f"{i} => " + mk(v, lambda i, f: f"<{f[2]}>::nth(j + {i})") for i, v in enumerate(vs)) + ", _ => unreachable!() } }\n"
    s += f"\tfn any(cx: &mut Cx) -> Self {{ let k = cx.choose({n}); Self::of(k, cx) }}\n}}\n"
    return s
out = "// Written by tools/mkderived.py.\n"
mode = None
for line in SPEC.strip().split("\n"):
    l = line.strip()
    if not l or l == "}": continue
    m = re.match(r"(named|positional|enums)! \{", l)
    if m: mode = m.group(1); continue
    m = re.match(r"(\w+)\s*([{(])(.*)[})]$", l)
    assert m, l
    name, body = m.group(1), m.group(3)
    if mode != "enums": out += struct(name, fields(body), mode == "named"); continue
    vs = []
    # many variants, those with fields around the limits of a byte
    if body.strip().startswith("@"): body = ", ".join(f"V{i}" + ("([] v0: u8)" if i in (3, 254, 256) else " { [] a: u8, [] b: bool }" if i in (255, 257, 299) else "") for i in range(int(body.strip()[1:])))
    for v in split(body):
        m = re.match(r"(\w+)\s*(?:([{(])(.*)[})])?$", v)
        vs.append((m.group(1), None if m.group(2) is None else m.group(2) == "{", fields(m.group(3) or "")))
    out += enum(name, vs)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc/src/derived.rs"), "w").write(out)
