#!/usr/bin/env python3
"""Writes mc/src/parts.rs: containers with partial views (C18), with what ssz says of them."""
SPEC = """
K1: u16
K2: u8, u64
K3: u8, U256, H256
K4: u128, u32, u8, u16
K5: u8, u8, u8, u8, u8
K6: u8, u16, u8, u16, u8, u16
K7: u64, u8, u64, u8, u64, u8, u64
K8: u8, u8, u8, u8, u8, u8, u8, H256
K9: u8, u8, u8, u8, u8, u8, u8, u8, u16
M1: K1
M2: K2, u8
M3: u8, M2, K3
M5: K2, K1, M1, u16, K5
L1: LVec<u8>
L2: LVec<u16>, u8
L3: u8, LVec<K2>, LVec<u64>
L4: LVec<LVec<u8>>, LVec<L2>
L5: u8, u8, u8, u8, LVec<H256>
Q3: Whole<Option<u8>>, Whole<Vec<u8>>, Whole<MaxVec<u16, U5>>
Q2: LVec<Whole<H512>>, Whole<(u8, u16)>
"""
def split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(": d += 1
        if ch in ">)": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    return out + [cur.strip()]
o = ["// Written by tools/mkparts.py."]
for line in SPEC.strip().splitlines():
    name, fs = line.split(":", 1)
    fs = split(fs)
    F = [(f"f{len(fs)-i}" if i % 2 else f"g{i}", t, i) for i, t in enumerate(fs)]
    o.append("#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]")
    o.append(f"pub struct {name} {{ " + ", ".join(f"pub {n}: {t}" for n, t, _ in F) + " }")
    o.append(f"impl Le for {name} {{")
    o.append("\tfn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[" + ", ".join(f"self.{n}.spec::<C>()" for n, _, _ in F) + "], None) }")
    o.append(f"\tfn nth(k: u64) -> Self {{ {name} {{ " + ", ".join(f"{n}: <{t} as Le>::nth(if k == 0 {{ 0 }} else {{ k + {i} }})" for n, t, i in F) + " } }")
    o.append(f"\tfn any(cx: &mut Cx) -> Self {{ {name} {{ " + ", ".join(f"{n}: <{t} as Le>::any(cx)" for n, t, _ in F) + " } }")
    o.append("}")
    o.append(f"impl Part for {name} {{")
    o.append("\tfn spots(&self, at: &[usize], out: &mut Vec<Spot>) { " + " ".join(f"self.{n}.spots(&[at, &[{i}]].concat(), out);" for n, _, i in F) + " }")
    def sel(sig, call, selfv):
        return f"\tfn {sig} {{ match p[0] {{ " + ", ".join(f"{i} => {call(n, t)}" for n, t, i in F) + ", _ => unreachable!() } }"
    o.append(sel("look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct", lambda n, t: f"<{t} as Part>::look(&mut v.{n}, &p[1..], fetch, raw, db)", ""))
    o.append(sel("put(v: &mut Self::Value, p: &[usize], k: u64)", lambda n, t: f"<{t} as Part>::put(&mut v.{n}, &p[1..], k)", ""))
    o.append(sel("add(v: &mut Self::Value, p: &[usize], k: u64)", lambda n, t: f"<{t} as Part>::add(&mut v.{n}, &p[1..], k)", ""))
    o.append(sel("m_look(&self, p: &[usize]) -> Option<String>", lambda n, t: f"self.{n}.m_look(&p[1..])", ""))
    o.append(sel("m_put(&mut self, p: &[usize], k: u64)", lambda n, t: f"self.{n}.m_put(&p[1..], k)", ""))
    o.append(sel("m_add(&mut self, p: &[usize], k: u64)", lambda n, t: f"self.{n}.m_add(&p[1..], k)", ""))
    o.append("}")
open(__file__.rsplit("/", 2)[0] + "/mc/src/parts.rs", "w").write("\n".join(o) + "\n")
