// Written by tools/mkderived.py.
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct N0 {  }
impl Le for N0 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[], None) }
	fn nth(k: u64) -> Self { N0 {} }
	fn any(cx: &mut Cx) -> Self { N0 {} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct N1 { pub a: u16 }
impl Le for N1 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>()], None) }
	fn nth(k: u64) -> Self { N1 {a: <u16>::nth(if k == 0 { 0 } else { k + 0 })} }
	fn any(cx: &mut Cx) -> Self { N1 {a: <u16>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct N2 { pub a: u8, pub b: u8 }
impl Le for N2 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>(), self.b.spec::<C>()], None) }
	fn nth(k: u64) -> Self { N2 {a: <u8>::nth(if k == 0 { 0 } else { k + 0 }), b: <u8>::nth(if k == 0 { 0 } else { k + 1 })} }
	fn any(cx: &mut Cx) -> Self { N2 {a: <u8>::any(cx), b: <u8>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct N3 { pub z: u8, pub y: u16, pub x: u32 }
impl Le for N3 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.z.spec::<C>(), self.y.spec::<C>(), self.x.spec::<C>()], None) }
	fn nth(k: u64) -> Self { N3 {z: <u8>::nth(if k == 0 { 0 } else { k + 0 }), y: <u16>::nth(if k == 0 { 0 } else { k + 1 }), x: <u32>::nth(if k == 0 { 0 } else { k + 2 })} }
	fn any(cx: &mut Cx) -> Self { N3 {z: <u8>::any(cx), y: <u16>::any(cx), x: <u32>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct N4 { pub b: u8, pub a: u8, pub d: u8, pub c: u8 }
impl Le for N4 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.b.spec::<C>(), self.a.spec::<C>(), self.d.spec::<C>(), self.c.spec::<C>()], None) }
	fn nth(k: u64) -> Self { N4 {b: <u8>::nth(if k == 0 { 0 } else { k + 0 }), a: <u8>::nth(if k == 0 { 0 } else { k + 1 }), d: <u8>::nth(if k == 0 { 0 } else { k + 2 }), c: <u8>::nth(if k == 0 { 0 } else { k + 3 })} }
	fn any(cx: &mut Cx) -> Self { N4 {b: <u8>::any(cx), a: <u8>::any(cx), d: <u8>::any(cx), c: <u8>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct N5 { pub f4: u8, pub f3: u8, pub f2: u8, pub f1: u8, pub f0: u8 }
impl Le for N5 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.f4.spec::<C>(), self.f3.spec::<C>(), self.f2.spec::<C>(), self.f1.spec::<C>(), self.f0.spec::<C>()], None) }
	fn nth(k: u64) -> Self { N5 {f4: <u8>::nth(if k == 0 { 0 } else { k + 0 }), f3: <u8>::nth(if k == 0 { 0 } else { k + 1 }), f2: <u8>::nth(if k == 0 { 0 } else { k + 2 }), f1: <u8>::nth(if k == 0 { 0 } else { k + 3 }), f0: <u8>::nth(if k == 0 { 0 } else { k + 4 })} }
	fn any(cx: &mut Cx) -> Self { N5 {f4: <u8>::any(cx), f3: <u8>::any(cx), f2: <u8>::any(cx), f1: <u8>::any(cx), f0: <u8>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct N6 { pub a: bool, pub b: u8, pub c: bool, pub d: u8, pub e: bool, pub f: u8 }
impl Le for N6 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>(), self.b.spec::<C>(), self.c.spec::<C>(), self.d.spec::<C>(), self.e.spec::<C>(), self.f.spec::<C>()], None) }
	fn nth(k: u64) -> Self { N6 {a: <bool>::nth(if k == 0 { 0 } else { k + 0 }), b: <u8>::nth(if k == 0 { 0 } else { k + 1 }), c: <bool>::nth(if k == 0 { 0 } else { k + 2 }), d: <u8>::nth(if k == 0 { 0 } else { k + 3 }), e: <bool>::nth(if k == 0 { 0 } else { k + 4 }), f: <u8>::nth(if k == 0 { 0 } else { k + 5 })} }
	fn any(cx: &mut Cx) -> Self { N6 {a: <bool>::any(cx), b: <u8>::any(cx), c: <bool>::any(cx), d: <u8>::any(cx), e: <bool>::any(cx), f: <u8>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct N7 { pub a: u8, pub b: bool, pub c: u8, pub d: bool, pub e: u8, pub f: bool, pub g: u8 }
impl Le for N7 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>(), self.b.spec::<C>(), self.c.spec::<C>(), self.d.spec::<C>(), self.e.spec::<C>(), self.f.spec::<C>(), self.g.spec::<C>()], None) }
	fn nth(k: u64) -> Self { N7 {a: <u8>::nth(if k == 0 { 0 } else { k + 0 }), b: <bool>::nth(if k == 0 { 0 } else { k + 1 }), c: <u8>::nth(if k == 0 { 0 } else { k + 2 }), d: <bool>::nth(if k == 0 { 0 } else { k + 3 }), e: <u8>::nth(if k == 0 { 0 } else { k + 4 }), f: <bool>::nth(if k == 0 { 0 } else { k + 5 }), g: <u8>::nth(if k == 0 { 0 } else { k + 6 })} }
	fn any(cx: &mut Cx) -> Self { N7 {a: <u8>::any(cx), b: <bool>::any(cx), c: <u8>::any(cx), d: <bool>::any(cx), e: <u8>::any(cx), f: <bool>::any(cx), g: <u8>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct N8 { pub a: bool, pub b: bool, pub c: u8, pub d: bool, pub e: bool, pub f: bool, pub g: u8, pub h: bool }
impl Le for N8 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>(), self.b.spec::<C>(), self.c.spec::<C>(), self.d.spec::<C>(), self.e.spec::<C>(), self.f.spec::<C>(), self.g.spec::<C>(), self.h.spec::<C>()], None) }
	fn nth(k: u64) -> Self { N8 {a: <bool>::nth(if k == 0 { 0 } else { k + 0 }), b: <bool>::nth(if k == 0 { 0 } else { k + 1 }), c: <u8>::nth(if k == 0 { 0 } else { k + 2 }), d: <bool>::nth(if k == 0 { 0 } else { k + 3 }), e: <bool>::nth(if k == 0 { 0 } else { k + 4 }), f: <bool>::nth(if k == 0 { 0 } else { k + 5 }), g: <u8>::nth(if k == 0 { 0 } else { k + 6 }), h: <bool>::nth(if k == 0 { 0 } else { k + 7 })} }
	fn any(cx: &mut Cx) -> Self { N8 {a: <bool>::any(cx), b: <bool>::any(cx), c: <u8>::any(cx), d: <bool>::any(cx), e: <bool>::any(cx), f: <bool>::any(cx), g: <u8>::any(cx), h: <bool>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct N9 { pub i: bool, pub h: bool, pub g: bool, pub f: bool, pub e: bool, pub d: bool, pub c: bool, pub b: bool, pub a: u8 }
impl Le for N9 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.i.spec::<C>(), self.h.spec::<C>(), self.g.spec::<C>(), self.f.spec::<C>(), self.e.spec::<C>(), self.d.spec::<C>(), self.c.spec::<C>(), self.b.spec::<C>(), self.a.spec::<C>()], None) }
	fn nth(k: u64) -> Self { N9 {i: <bool>::nth(if k == 0 { 0 } else { k + 0 }), h: <bool>::nth(if k == 0 { 0 } else { k + 1 }), g: <bool>::nth(if k == 0 { 0 } else { k + 2 }), f: <bool>::nth(if k == 0 { 0 } else { k + 3 }), e: <bool>::nth(if k == 0 { 0 } else { k + 4 }), d: <bool>::nth(if k == 0 { 0 } else { k + 5 }), c: <bool>::nth(if k == 0 { 0 } else { k + 6 }), b: <bool>::nth(if k == 0 { 0 } else { k + 7 }), a: <u8>::nth(if k == 0 { 0 } else { k + 8 })} }
	fn any(cx: &mut Cx) -> Self { N9 {i: <bool>::any(cx), h: <bool>::any(cx), g: <bool>::any(cx), f: <bool>::any(cx), e: <bool>::any(cx), d: <bool>::any(cx), c: <bool>::any(cx), b: <bool>::any(cx), a: <u8>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct N17 { pub a: bool, pub b: bool, pub c: bool, pub d: bool, pub e: bool, pub f: (), pub g: (), pub h: bool, pub i: u8, pub j: bool, pub k: (), pub l: (), pub m: (), pub n: (), pub o: (), pub p: bool, pub q: bool }
impl Le for N17 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>(), self.b.spec::<C>(), self.c.spec::<C>(), self.d.spec::<C>(), self.e.spec::<C>(), self.f.spec::<C>(), self.g.spec::<C>(), self.h.spec::<C>(), self.i.spec::<C>(), self.j.spec::<C>(), self.k.spec::<C>(), self.l.spec::<C>(), self.m.spec::<C>(), self.n.spec::<C>(), self.o.spec::<C>(), self.p.spec::<C>(), self.q.spec::<C>()], None) }
	fn nth(k: u64) -> Self { N17 {a: <bool>::nth(if k == 0 { 0 } else { k + 0 }), b: <bool>::nth(if k == 0 { 0 } else { k + 1 }), c: <bool>::nth(if k == 0 { 0 } else { k + 2 }), d: <bool>::nth(if k == 0 { 0 } else { k + 3 }), e: <bool>::nth(if k == 0 { 0 } else { k + 4 }), f: <()>::nth(if k == 0 { 0 } else { k + 5 }), g: <()>::nth(if k == 0 { 0 } else { k + 6 }), h: <bool>::nth(if k == 0 { 0 } else { k + 7 }), i: <u8>::nth(if k == 0 { 0 } else { k + 8 }), j: <bool>::nth(if k == 0 { 0 } else { k + 9 }), k: <()>::nth(if k == 0 { 0 } else { k + 10 }), l: <()>::nth(if k == 0 { 0 } else { k + 11 }), m: <()>::nth(if k == 0 { 0 } else { k + 12 }), n: <()>::nth(if k == 0 { 0 } else { k + 13 }), o: <()>::nth(if k == 0 { 0 } else { k + 14 }), p: <bool>::nth(if k == 0 { 0 } else { k + 15 }), q: <bool>::nth(if k == 0 { 0 } else { k + 16 })} }
	fn any(cx: &mut Cx) -> Self { N17 {a: <bool>::any(cx), b: <bool>::any(cx), c: <bool>::any(cx), d: <bool>::any(cx), e: <bool>::any(cx), f: <()>::any(cx), g: <()>::any(cx), h: <bool>::any(cx), i: <u8>::any(cx), j: <bool>::any(cx), k: <()>::any(cx), l: <()>::any(cx), m: <()>::any(cx), n: <()>::any(cx), o: <()>::any(cx), p: <bool>::any(cx), q: <bool>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct C1 { #[bm(compact)] pub a: MaxVec<bool, U9> }
impl Le for C1 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[Compact(self.a.clone()).spec::<C>()], None) }
	fn nth(k: u64) -> Self { C1 {a: <MaxVec<bool, U9>>::nth(if k == 0 { 0 } else { k + 0 })} }
	fn any(cx: &mut Cx) -> Self { C1 {a: <MaxVec<bool, U9>>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct C2 { #[bm(compact)] pub a: GenericArray<u8, U3>, pub b: u8 }
impl Le for C2 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[Compact(self.a.clone()).spec::<C>(), self.b.spec::<C>()], None) }
	fn nth(k: u64) -> Self { C2 {a: <GenericArray<u8, U3>>::nth(if k == 0 { 0 } else { k + 0 }), b: <u8>::nth(if k == 0 { 0 } else { k + 1 })} }
	fn any(cx: &mut Cx) -> Self { C2 {a: <GenericArray<u8, U3>>::any(cx), b: <u8>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct C3 { pub a: u8, #[bm(compact)] pub b: MaxVec<u64, U5>, pub c: u8 }
impl Le for C3 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>(), Compact(self.b.clone()).spec::<C>(), self.c.spec::<C>()], None) }
	fn nth(k: u64) -> Self { C3 {a: <u8>::nth(if k == 0 { 0 } else { k + 0 }), b: <MaxVec<u64, U5>>::nth(if k == 0 { 0 } else { k + 1 }), c: <u8>::nth(if k == 0 { 0 } else { k + 2 })} }
	fn any(cx: &mut Cx) -> Self { C3 {a: <u8>::any(cx), b: <MaxVec<u64, U5>>::any(cx), c: <u8>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct C4 { pub a: MaxVec<u64, U5>, #[bm(compact)] pub b: VecArray<u16, U3>, #[bm(compact)] pub c: MaxVec<u8, U33> }
impl Le for C4 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>(), Compact(self.b.clone()).spec::<C>(), Compact(self.c.clone()).spec::<C>()], None) }
	fn nth(k: u64) -> Self { C4 {a: <MaxVec<u64, U5>>::nth(if k == 0 { 0 } else { k + 0 }), b: <VecArray<u16, U3>>::nth(if k == 0 { 0 } else { k + 1 }), c: <MaxVec<u8, U33>>::nth(if k == 0 { 0 } else { k + 2 })} }
	fn any(cx: &mut Cx) -> Self { C4 {a: <MaxVec<u64, U5>>::any(cx), b: <VecArray<u16, U3>>::any(cx), c: <MaxVec<u8, U33>>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct C5 { #[bm(compact)] pub a: GenericArray<bool, U4>, #[bm(compact)] pub b: VecArray<bool, U4>, pub c: GenericArray<bool, U2>, pub d: bool, #[bm(compact)] pub e: MaxVec<bool, U3> }
impl Le for C5 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[Compact(self.a.clone()).spec::<C>(), Compact(self.b.clone()).spec::<C>(), self.c.spec::<C>(), self.d.spec::<C>(), Compact(self.e.clone()).spec::<C>()], None) }
	fn nth(k: u64) -> Self { C5 {a: <GenericArray<bool, U4>>::nth(if k == 0 { 0 } else { k + 0 }), b: <VecArray<bool, U4>>::nth(if k == 0 { 0 } else { k + 1 }), c: <GenericArray<bool, U2>>::nth(if k == 0 { 0 } else { k + 2 }), d: <bool>::nth(if k == 0 { 0 } else { k + 3 }), e: <MaxVec<bool, U3>>::nth(if k == 0 { 0 } else { k + 4 })} }
	fn any(cx: &mut Cx) -> Self { C5 {a: <GenericArray<bool, U4>>::any(cx), b: <VecArray<bool, U4>>::any(cx), c: <GenericArray<bool, U2>>::any(cx), d: <bool>::any(cx), e: <MaxVec<bool, U3>>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct L3 { pub a: Vec<u8>, pub b: Option<u16>, pub c: H512 }
impl Le for L3 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>(), self.b.spec::<C>(), self.c.spec::<C>()], None) }
	fn nth(k: u64) -> Self { L3 {a: <Vec<u8>>::nth(if k == 0 { 0 } else { k + 0 }), b: <Option<u16>>::nth(if k == 0 { 0 } else { k + 1 }), c: <H512>::nth(if k == 0 { 0 } else { k + 2 })} }
	fn any(cx: &mut Cx) -> Self { L3 {a: <Vec<u8>>::any(cx), b: <Option<u16>>::any(cx), c: <H512>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct D2 { pub a: N3, pub b: N2 }
impl Le for D2 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>(), self.b.spec::<C>()], None) }
	fn nth(k: u64) -> Self { D2 {a: <N3>::nth(if k == 0 { 0 } else { k + 0 }), b: <N2>::nth(if k == 0 { 0 } else { k + 1 })} }
	fn any(cx: &mut Cx) -> Self { D2 {a: <N3>::any(cx), b: <N2>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct D3 { pub a: Vec<N2>, pub b: Option<N1>, pub c: MaxVec<N0, U3> }
impl Le for D3 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>(), self.b.spec::<C>(), self.c.spec::<C>()], None) }
	fn nth(k: u64) -> Self { D3 {a: <Vec<N2>>::nth(if k == 0 { 0 } else { k + 0 }), b: <Option<N1>>::nth(if k == 0 { 0 } else { k + 1 }), c: <MaxVec<N0, U3>>::nth(if k == 0 { 0 } else { k + 2 })} }
	fn any(cx: &mut Cx) -> Self { D3 {a: <Vec<N2>>::any(cx), b: <Option<N1>>::any(cx), c: <MaxVec<N0, U3>>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct D4 { pub a: E2, pub b: N1, pub c: Vec<E3>, pub d: Box<E1> }
impl Le for D4 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>(), self.b.spec::<C>(), self.c.spec::<C>(), self.d.spec::<C>()], None) }
	fn nth(k: u64) -> Self { D4 {a: <E2>::nth(if k == 0 { 0 } else { k + 0 }), b: <N1>::nth(if k == 0 { 0 } else { k + 1 }), c: <Vec<E3>>::nth(if k == 0 { 0 } else { k + 2 }), d: <Box<E1>>::nth(if k == 0 { 0 } else { k + 3 })} }
	fn any(cx: &mut Cx) -> Self { D4 {a: <E2>::any(cx), b: <N1>::any(cx), c: <Vec<E3>>::any(cx), d: <Box<E1>>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct D5 { pub a: P2, pub b: P1, pub c: (N1, P0), pub d: U256, pub e: C1 }
impl Le for D5 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>(), self.b.spec::<C>(), self.c.spec::<C>(), self.d.spec::<C>(), self.e.spec::<C>()], None) }
	fn nth(k: u64) -> Self { D5 {a: <P2>::nth(if k == 0 { 0 } else { k + 0 }), b: <P1>::nth(if k == 0 { 0 } else { k + 1 }), c: <(N1, P0)>::nth(if k == 0 { 0 } else { k + 2 }), d: <U256>::nth(if k == 0 { 0 } else { k + 3 }), e: <C1>::nth(if k == 0 { 0 } else { k + 4 })} }
	fn any(cx: &mut Cx) -> Self { D5 {a: <P2>::any(cx), b: <P1>::any(cx), c: <(N1, P0)>::any(cx), d: <U256>::any(cx), e: <C1>::any(cx)} }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct P0 (  );
impl Le for P0 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[], None) }
	fn nth(k: u64) -> Self { P0 () }
	fn any(cx: &mut Cx) -> Self { P0 () }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct P1 ( pub u16 );
impl Le for P1 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.0.spec::<C>()], None) }
	fn nth(k: u64) -> Self { P1 (<u16>::nth(if k == 0 { 0 } else { k + 0 })) }
	fn any(cx: &mut Cx) -> Self { P1 (<u16>::any(cx)) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct P2 ( pub u8, pub u8 );
impl Le for P2 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.0.spec::<C>(), self.1.spec::<C>()], None) }
	fn nth(k: u64) -> Self { P2 (<u8>::nth(if k == 0 { 0 } else { k + 0 }), <u8>::nth(if k == 0 { 0 } else { k + 1 })) }
	fn any(cx: &mut Cx) -> Self { P2 (<u8>::any(cx), <u8>::any(cx)) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct P3 ( pub u8, pub u16, pub u8 );
impl Le for P3 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.0.spec::<C>(), self.1.spec::<C>(), self.2.spec::<C>()], None) }
	fn nth(k: u64) -> Self { P3 (<u8>::nth(if k == 0 { 0 } else { k + 0 }), <u16>::nth(if k == 0 { 0 } else { k + 1 }), <u8>::nth(if k == 0 { 0 } else { k + 2 })) }
	fn any(cx: &mut Cx) -> Self { P3 (<u8>::any(cx), <u16>::any(cx), <u8>::any(cx)) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct P4 ( pub u8, pub u8, pub u8, pub u8 );
impl Le for P4 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.0.spec::<C>(), self.1.spec::<C>(), self.2.spec::<C>(), self.3.spec::<C>()], None) }
	fn nth(k: u64) -> Self { P4 (<u8>::nth(if k == 0 { 0 } else { k + 0 }), <u8>::nth(if k == 0 { 0 } else { k + 1 }), <u8>::nth(if k == 0 { 0 } else { k + 2 }), <u8>::nth(if k == 0 { 0 } else { k + 3 })) }
	fn any(cx: &mut Cx) -> Self { P4 (<u8>::any(cx), <u8>::any(cx), <u8>::any(cx), <u8>::any(cx)) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct P5 ( pub u8, pub bool, pub u8, pub bool, pub u8 );
impl Le for P5 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.0.spec::<C>(), self.1.spec::<C>(), self.2.spec::<C>(), self.3.spec::<C>(), self.4.spec::<C>()], None) }
	fn nth(k: u64) -> Self { P5 (<u8>::nth(if k == 0 { 0 } else { k + 0 }), <bool>::nth(if k == 0 { 0 } else { k + 1 }), <u8>::nth(if k == 0 { 0 } else { k + 2 }), <bool>::nth(if k == 0 { 0 } else { k + 3 }), <u8>::nth(if k == 0 { 0 } else { k + 4 })) }
	fn any(cx: &mut Cx) -> Self { P5 (<u8>::any(cx), <bool>::any(cx), <u8>::any(cx), <bool>::any(cx), <u8>::any(cx)) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct P6 ( pub bool, pub bool, pub bool, pub bool, pub u8, pub bool );
impl Le for P6 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.0.spec::<C>(), self.1.spec::<C>(), self.2.spec::<C>(), self.3.spec::<C>(), self.4.spec::<C>(), self.5.spec::<C>()], None) }
	fn nth(k: u64) -> Self { P6 (<bool>::nth(if k == 0 { 0 } else { k + 0 }), <bool>::nth(if k == 0 { 0 } else { k + 1 }), <bool>::nth(if k == 0 { 0 } else { k + 2 }), <bool>::nth(if k == 0 { 0 } else { k + 3 }), <u8>::nth(if k == 0 { 0 } else { k + 4 }), <bool>::nth(if k == 0 { 0 } else { k + 5 })) }
	fn any(cx: &mut Cx) -> Self { P6 (<bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <u8>::any(cx), <bool>::any(cx)) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct P7 ( pub bool, pub bool, pub bool, pub bool, pub u8, pub bool, pub u8 );
impl Le for P7 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.0.spec::<C>(), self.1.spec::<C>(), self.2.spec::<C>(), self.3.spec::<C>(), self.4.spec::<C>(), self.5.spec::<C>(), self.6.spec::<C>()], None) }
	fn nth(k: u64) -> Self { P7 (<bool>::nth(if k == 0 { 0 } else { k + 0 }), <bool>::nth(if k == 0 { 0 } else { k + 1 }), <bool>::nth(if k == 0 { 0 } else { k + 2 }), <bool>::nth(if k == 0 { 0 } else { k + 3 }), <u8>::nth(if k == 0 { 0 } else { k + 4 }), <bool>::nth(if k == 0 { 0 } else { k + 5 }), <u8>::nth(if k == 0 { 0 } else { k + 6 })) }
	fn any(cx: &mut Cx) -> Self { P7 (<bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <u8>::any(cx), <bool>::any(cx), <u8>::any(cx)) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct P8 ( pub bool, pub bool, pub bool, pub bool, pub u8, pub bool, pub bool, pub bool );
impl Le for P8 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.0.spec::<C>(), self.1.spec::<C>(), self.2.spec::<C>(), self.3.spec::<C>(), self.4.spec::<C>(), self.5.spec::<C>(), self.6.spec::<C>(), self.7.spec::<C>()], None) }
	fn nth(k: u64) -> Self { P8 (<bool>::nth(if k == 0 { 0 } else { k + 0 }), <bool>::nth(if k == 0 { 0 } else { k + 1 }), <bool>::nth(if k == 0 { 0 } else { k + 2 }), <bool>::nth(if k == 0 { 0 } else { k + 3 }), <u8>::nth(if k == 0 { 0 } else { k + 4 }), <bool>::nth(if k == 0 { 0 } else { k + 5 }), <bool>::nth(if k == 0 { 0 } else { k + 6 }), <bool>::nth(if k == 0 { 0 } else { k + 7 })) }
	fn any(cx: &mut Cx) -> Self { P8 (<bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <u8>::any(cx), <bool>::any(cx), <bool>::any(cx), <bool>::any(cx)) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct P9 ( pub bool, pub bool, pub bool, pub bool, pub u8, pub bool, pub bool, pub bool, pub u8 );
impl Le for P9 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.0.spec::<C>(), self.1.spec::<C>(), self.2.spec::<C>(), self.3.spec::<C>(), self.4.spec::<C>(), self.5.spec::<C>(), self.6.spec::<C>(), self.7.spec::<C>(), self.8.spec::<C>()], None) }
	fn nth(k: u64) -> Self { P9 (<bool>::nth(if k == 0 { 0 } else { k + 0 }), <bool>::nth(if k == 0 { 0 } else { k + 1 }), <bool>::nth(if k == 0 { 0 } else { k + 2 }), <bool>::nth(if k == 0 { 0 } else { k + 3 }), <u8>::nth(if k == 0 { 0 } else { k + 4 }), <bool>::nth(if k == 0 { 0 } else { k + 5 }), <bool>::nth(if k == 0 { 0 } else { k + 6 }), <bool>::nth(if k == 0 { 0 } else { k + 7 }), <u8>::nth(if k == 0 { 0 } else { k + 8 })) }
	fn any(cx: &mut Cx) -> Self { P9 (<bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <u8>::any(cx), <bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <u8>::any(cx)) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct P11 ( pub bool, pub bool, pub bool, pub bool, pub bool, pub (), pub bool, pub bool, pub bool, pub bool, pub u8 );
impl Le for P11 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.0.spec::<C>(), self.1.spec::<C>(), self.2.spec::<C>(), self.3.spec::<C>(), self.4.spec::<C>(), self.5.spec::<C>(), self.6.spec::<C>(), self.7.spec::<C>(), self.8.spec::<C>(), self.9.spec::<C>(), self.10.spec::<C>()], None) }
	fn nth(k: u64) -> Self { P11 (<bool>::nth(if k == 0 { 0 } else { k + 0 }), <bool>::nth(if k == 0 { 0 } else { k + 1 }), <bool>::nth(if k == 0 { 0 } else { k + 2 }), <bool>::nth(if k == 0 { 0 } else { k + 3 }), <bool>::nth(if k == 0 { 0 } else { k + 4 }), <()>::nth(if k == 0 { 0 } else { k + 5 }), <bool>::nth(if k == 0 { 0 } else { k + 6 }), <bool>::nth(if k == 0 { 0 } else { k + 7 }), <bool>::nth(if k == 0 { 0 } else { k + 8 }), <bool>::nth(if k == 0 { 0 } else { k + 9 }), <u8>::nth(if k == 0 { 0 } else { k + 10 })) }
	fn any(cx: &mut Cx) -> Self { P11 (<bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <()>::any(cx), <bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <bool>::any(cx), <u8>::any(cx)) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct PC ( #[bm(compact)] pub MaxVec<bool, U3>, pub u8, #[bm(compact)] pub GenericArray<u16, U2> );
impl Le for PC {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[Compact(self.0.clone()).spec::<C>(), self.1.spec::<C>(), Compact(self.2.clone()).spec::<C>()], None) }
	fn nth(k: u64) -> Self { PC (<MaxVec<bool, U3>>::nth(if k == 0 { 0 } else { k + 0 }), <u8>::nth(if k == 0 { 0 } else { k + 1 }), <GenericArray<u16, U2>>::nth(if k == 0 { 0 } else { k + 2 })) }
	fn any(cx: &mut Cx) -> Self { PC (<MaxVec<bool, U3>>::any(cx), <u8>::any(cx), <GenericArray<u16, U2>>::any(cx)) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct PL ( pub Vec<u8>, pub H256, pub Option<E1> );
impl Le for PL {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.0.spec::<C>(), self.1.spec::<C>(), self.2.spec::<C>()], None) }
	fn nth(k: u64) -> Self { PL (<Vec<u8>>::nth(if k == 0 { 0 } else { k + 0 }), <H256>::nth(if k == 0 { 0 } else { k + 1 }), <Option<E1>>::nth(if k == 0 { 0 } else { k + 2 })) }
	fn any(cx: &mut Cx) -> Self { PL (<Vec<u8>>::any(cx), <H256>::any(cx), <Option<E1>>::any(cx)) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub enum E1 { A }
impl Tagged for E1 {
	fn variants() -> Vec<(&'static str, bool)> { vec![("A", true)] }
	fn tag(&self) -> usize { match self { E1::A => 0 } }
	fn payload<C: LeC>(&self) -> Value { match self { E1::A => spec_vec::<C>(&[], None) } }
	fn of(tag: usize, cx: &mut Cx) -> Self { match tag { 0 => E1::A, _ => unreachable!() } }
}
impl Le for E1 {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(self.payload::<C>(), self.tag() as u64) }
	fn nth(k: u64) -> Self { let j = k / 1; match k % 1 { 0 => E1::A, _ => unreachable!() } }
	fn any(cx: &mut Cx) -> Self { let k = cx.choose(1); Self::of(k, cx) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub enum E2 { A, B }
impl Tagged for E2 {
	fn variants() -> Vec<(&'static str, bool)> { vec![("A", true), ("B", true)] }
	fn tag(&self) -> usize { match self { E2::A => 0, E2::B => 1 } }
	fn payload<C: LeC>(&self) -> Value { match self { E2::A => spec_vec::<C>(&[], None), E2::B => spec_vec::<C>(&[], None) } }
	fn of(tag: usize, cx: &mut Cx) -> Self { match tag { 0 => E2::A, 1 => E2::B, _ => unreachable!() } }
}
impl Le for E2 {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(self.payload::<C>(), self.tag() as u64) }
	fn nth(k: u64) -> Self { let j = k / 2; match k % 2 { 0 => E2::A, 1 => E2::B, _ => unreachable!() } }
	fn any(cx: &mut Cx) -> Self { let k = cx.choose(2); Self::of(k, cx) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub enum E3 { A(u16), B{ c: bool, d: u8 }, E }
impl Tagged for E3 {
	fn variants() -> Vec<(&'static str, bool)> { vec![("A", false), ("B", false), ("E", true)] }
	fn tag(&self) -> usize { match self { E3::A { .. } => 0, E3::B { .. } => 1, E3::E => 2 } }
	fn payload<C: LeC>(&self) -> Value { match self { E3::A { 0: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None), E3::B { c: x0, d: x1 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>()], None), E3::E => spec_vec::<C>(&[], None) } }
	fn of(tag: usize, cx: &mut Cx) -> Self { match tag { 0 => E3::A { 0: <u16>::any(cx) }, 1 => E3::B { c: <bool>::any(cx), d: <u8>::any(cx) }, 2 => E3::E, _ => unreachable!() } }
}
impl Le for E3 {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(self.payload::<C>(), self.tag() as u64) }
	fn nth(k: u64) -> Self { let j = k / 3; match k % 3 { 0 => E3::A { 0: <u16>::nth(j + 0) }, 1 => E3::B { c: <bool>::nth(j + 0), d: <u8>::nth(j + 1) }, 2 => E3::E, _ => unreachable!() } }
	fn any(cx: &mut Cx) -> Self { let k = cx.choose(3); Self::of(k, cx) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub enum EF { U, A(u8), B(u8, u8), C(bool, u8, bool), D(u8, bool, u8, bool), F(bool, u8, bool, bool, bool), V, H(bool, bool, u8, bool, bool, bool, bool, bool, bool) }
impl Tagged for EF {
	fn variants() -> Vec<(&'static str, bool)> { vec![("U", true), ("A", false), ("B", false), ("C", false), ("D", false), ("F", false), ("V", true), ("H", false)] }
	fn tag(&self) -> usize { match self { EF::U => 0, EF::A { .. } => 1, EF::B { .. } => 2, EF::C { .. } => 3, EF::D { .. } => 4, EF::F { .. } => 5, EF::V => 6, EF::H { .. } => 7 } }
	fn payload<C: LeC>(&self) -> Value { match self { EF::U => spec_vec::<C>(&[], None), EF::A { 0: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None), EF::B { 0: x0, 1: x1 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>()], None), EF::C { 0: x0, 1: x1, 2: x2 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>(), x2.spec::<C>()], None), EF::D { 0: x0, 1: x1, 2: x2, 3: x3 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>(), x2.spec::<C>(), x3.spec::<C>()], None), EF::F { 0: x0, 1: x1, 2: x2, 3: x3, 4: x4 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>(), x2.spec::<C>(), x3.spec::<C>(), x4.spec::<C>()], None), EF::V => spec_vec::<C>(&[], None), EF::H { 0: x0, 1: x1, 2: x2, 3: x3, 4: x4, 5: x5, 6: x6, 7: x7, 8: x8 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>(), x2.spec::<C>(), x3.spec::<C>(), x4.spec::<C>(), x5.spec::<C>(), x6.spec::<C>(), x7.spec::<C>(), x8.spec::<C>()], None) } }
	fn of(tag: usize, cx: &mut Cx) -> Self { match tag { 0 => EF::U, 1 => EF::A { 0: <u8>::any(cx) }, 2 => EF::B { 0: <u8>::any(cx), 1: <u8>::any(cx) }, 3 => EF::C { 0: <bool>::any(cx), 1: <u8>::any(cx), 2: <bool>::any(cx) }, 4 => EF::D { 0: <u8>::any(cx), 1: <bool>::any(cx), 2: <u8>::any(cx), 3: <bool>::any(cx) }, 5 => EF::F { 0: <bool>::any(cx), 1: <u8>::any(cx), 2: <bool>::any(cx), 3: <bool>::any(cx), 4: <bool>::any(cx) }, 6 => EF::V, 7 => EF::H { 0: <bool>::any(cx), 1: <bool>::any(cx), 2: <u8>::any(cx), 3: <bool>::any(cx), 4: <bool>::any(cx), 5: <bool>::any(cx), 6: <bool>::any(cx), 7: <bool>::any(cx), 8: <bool>::any(cx) }, _ => unreachable!() } }
}
impl Le for EF {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(self.payload::<C>(), self.tag() as u64) }
	fn nth(k: u64) -> Self { let j = k / 8; match k % 8 { 0 => EF::U, 1 => EF::A { 0: <u8>::nth(j + 0) }, 2 => EF::B { 0: <u8>::nth(j + 0), 1: <u8>::nth(j + 1) }, 3 => EF::C { 0: <bool>::nth(j + 0), 1: <u8>::nth(j + 1), 2: <bool>::nth(j + 2) }, 4 => EF::D { 0: <u8>::nth(j + 0), 1: <bool>::nth(j + 1), 2: <u8>::nth(j + 2), 3: <bool>::nth(j + 3) }, 5 => EF::F { 0: <bool>::nth(j + 0), 1: <u8>::nth(j + 1), 2: <bool>::nth(j + 2), 3: <bool>::nth(j + 3), 4: <bool>::nth(j + 4) }, 6 => EF::V, 7 => EF::H { 0: <bool>::nth(j + 0), 1: <bool>::nth(j + 1), 2: <u8>::nth(j + 2), 3: <bool>::nth(j + 3), 4: <bool>::nth(j + 4), 5: <bool>::nth(j + 5), 6: <bool>::nth(j + 6), 7: <bool>::nth(j + 7), 8: <bool>::nth(j + 8) }, _ => unreachable!() } }
	fn any(cx: &mut Cx) -> Self { let k = cx.choose(8); Self::of(k, cx) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub enum EN { Z{ a: u16 }, Y{ b: u8, a: u8 }, X{ c: bool, b: u8, a: bool }, W{ a: u8, d: bool, c: u8, b: bool }, T, S{ a: bool, b: bool, c: u8, d: bool, e: bool } }
impl Tagged for EN {
	fn variants() -> Vec<(&'static str, bool)> { vec![("Z", false), ("Y", false), ("X", false), ("W", false), ("T", true), ("S", false)] }
	fn tag(&self) -> usize { match self { EN::Z { .. } => 0, EN::Y { .. } => 1, EN::X { .. } => 2, EN::W { .. } => 3, EN::T => 4, EN::S { .. } => 5 } }
	fn payload<C: LeC>(&self) -> Value { match self { EN::Z { a: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None), EN::Y { b: x0, a: x1 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>()], None), EN::X { c: x0, b: x1, a: x2 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>(), x2.spec::<C>()], None), EN::W { a: x0, d: x1, c: x2, b: x3 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>(), x2.spec::<C>(), x3.spec::<C>()], None), EN::T => spec_vec::<C>(&[], None), EN::S { a: x0, b: x1, c: x2, d: x3, e: x4 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>(), x2.spec::<C>(), x3.spec::<C>(), x4.spec::<C>()], None) } }
	fn of(tag: usize, cx: &mut Cx) -> Self { match tag { 0 => EN::Z { a: <u16>::any(cx) }, 1 => EN::Y { b: <u8>::any(cx), a: <u8>::any(cx) }, 2 => EN::X { c: <bool>::any(cx), b: <u8>::any(cx), a: <bool>::any(cx) }, 3 => EN::W { a: <u8>::any(cx), d: <bool>::any(cx), c: <u8>::any(cx), b: <bool>::any(cx) }, 4 => EN::T, 5 => EN::S { a: <bool>::any(cx), b: <bool>::any(cx), c: <u8>::any(cx), d: <bool>::any(cx), e: <bool>::any(cx) }, _ => unreachable!() } }
}
impl Le for EN {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(self.payload::<C>(), self.tag() as u64) }
	fn nth(k: u64) -> Self { let j = k / 6; match k % 6 { 0 => EN::Z { a: <u16>::nth(j + 0) }, 1 => EN::Y { b: <u8>::nth(j + 0), a: <u8>::nth(j + 1) }, 2 => EN::X { c: <bool>::nth(j + 0), b: <u8>::nth(j + 1), a: <bool>::nth(j + 2) }, 3 => EN::W { a: <u8>::nth(j + 0), d: <bool>::nth(j + 1), c: <u8>::nth(j + 2), b: <bool>::nth(j + 3) }, 4 => EN::T, 5 => EN::S { a: <bool>::nth(j + 0), b: <bool>::nth(j + 1), c: <u8>::nth(j + 2), d: <bool>::nth(j + 3), e: <bool>::nth(j + 4) }, _ => unreachable!() } }
	fn any(cx: &mut Cx) -> Self { let k = cx.choose(6); Self::of(k, cx) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub enum EC { A(#[bm(compact)] MaxVec<bool, U9>), B{ x: u8, #[bm(compact)] y: MaxVec<u8, U5> }, C }
impl Tagged for EC {
	fn variants() -> Vec<(&'static str, bool)> { vec![("A", false), ("B", false), ("C", true)] }
	fn tag(&self) -> usize { match self { EC::A { .. } => 0, EC::B { .. } => 1, EC::C => 2 } }
	fn payload<C: LeC>(&self) -> Value { match self { EC::A { 0: x0 } => spec_vec::<C>(&[Compact(x0.clone()).spec::<C>()], None), EC::B { x: x0, y: x1 } => spec_vec::<C>(&[x0.spec::<C>(), Compact(x1.clone()).spec::<C>()], None), EC::C => spec_vec::<C>(&[], None) } }
	fn of(tag: usize, cx: &mut Cx) -> Self { match tag { 0 => EC::A { 0: <MaxVec<bool, U9>>::any(cx) }, 1 => EC::B { x: <u8>::any(cx), y: <MaxVec<u8, U5>>::any(cx) }, 2 => EC::C, _ => unreachable!() } }
}
impl Le for EC {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(self.payload::<C>(), self.tag() as u64) }
	fn nth(k: u64) -> Self { let j = k / 3; match k % 3 { 0 => EC::A { 0: <MaxVec<bool, U9>>::nth(j + 0) }, 1 => EC::B { x: <u8>::nth(j + 0), y: <MaxVec<u8, U5>>::nth(j + 1) }, 2 => EC::C, _ => unreachable!() } }
	fn any(cx: &mut Cx) -> Self { let k = cx.choose(3); Self::of(k, cx) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub enum EL { None_, Some_(Vec<u8>), Pair(Option<u8>, H512), Rec{ v: Vec<bool>, w: MaxVec<u8, U2> } }
impl Tagged for EL {
	fn variants() -> Vec<(&'static str, bool)> { vec![("None_", true), ("Some_", false), ("Pair", false), ("Rec", false)] }
	fn tag(&self) -> usize { match self { EL::None_ => 0, EL::Some_ { .. } => 1, EL::Pair { .. } => 2, EL::Rec { .. } => 3 } }
	fn payload<C: LeC>(&self) -> Value { match self { EL::None_ => spec_vec::<C>(&[], None), EL::Some_ { 0: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None), EL::Pair { 0: x0, 1: x1 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>()], None), EL::Rec { v: x0, w: x1 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>()], None) } }
	fn of(tag: usize, cx: &mut Cx) -> Self { match tag { 0 => EL::None_, 1 => EL::Some_ { 0: <Vec<u8>>::any(cx) }, 2 => EL::Pair { 0: <Option<u8>>::any(cx), 1: <H512>::any(cx) }, 3 => EL::Rec { v: <Vec<bool>>::any(cx), w: <MaxVec<u8, U2>>::any(cx) }, _ => unreachable!() } }
}
impl Le for EL {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(self.payload::<C>(), self.tag() as u64) }
	fn nth(k: u64) -> Self { let j = k / 4; match k % 4 { 0 => EL::None_, 1 => EL::Some_ { 0: <Vec<u8>>::nth(j + 0) }, 2 => EL::Pair { 0: <Option<u8>>::nth(j + 0), 1: <H512>::nth(j + 1) }, 3 => EL::Rec { v: <Vec<bool>>::nth(j + 0), w: <MaxVec<u8, U2>>::nth(j + 1) }, _ => unreachable!() } }
	fn any(cx: &mut Cx) -> Self { let k = cx.choose(4); Self::of(k, cx) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub enum ED { In(E3), St(N3), Both(E2, N2), Named{ e: E1, f: P2 }, Nest(Box<E2>), Un(Unit) }
impl Tagged for ED {
	fn variants() -> Vec<(&'static str, bool)> { vec![("In", false), ("St", false), ("Both", false), ("Named", false), ("Nest", false), ("Un", false)] }
	fn tag(&self) -> usize { match self { ED::In { .. } => 0, ED::St { .. } => 1, ED::Both { .. } => 2, ED::Named { .. } => 3, ED::Nest { .. } => 4, ED::Un { .. } => 5 } }
	fn payload<C: LeC>(&self) -> Value { match self { ED::In { 0: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None), ED::St { 0: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None), ED::Both { 0: x0, 1: x1 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>()], None), ED::Named { e: x0, f: x1 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>()], None), ED::Nest { 0: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None), ED::Un { 0: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None) } }
	fn of(tag: usize, cx: &mut Cx) -> Self { match tag { 0 => ED::In { 0: <E3>::any(cx) }, 1 => ED::St { 0: <N3>::any(cx) }, 2 => ED::Both { 0: <E2>::any(cx), 1: <N2>::any(cx) }, 3 => ED::Named { e: <E1>::any(cx), f: <P2>::any(cx) }, 4 => ED::Nest { 0: <Box<E2>>::any(cx) }, 5 => ED::Un { 0: <Unit>::any(cx) }, _ => unreachable!() } }
}
impl Le for ED {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(self.payload::<C>(), self.tag() as u64) }
	fn nth(k: u64) -> Self { let j = k / 6; match k % 6 { 0 => ED::In { 0: <E3>::nth(j + 0) }, 1 => ED::St { 0: <N3>::nth(j + 0) }, 2 => ED::Both { 0: <E2>::nth(j + 0), 1: <N2>::nth(j + 1) }, 3 => ED::Named { e: <E1>::nth(j + 0), f: <P2>::nth(j + 1) }, 4 => ED::Nest { 0: <Box<E2>>::nth(j + 0) }, 5 => ED::Un { 0: <Unit>::nth(j + 0) }, _ => unreachable!() } }
	fn any(cx: &mut Cx) -> Self { let k = cx.choose(6); Self::of(k, cx) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub enum EE { A{  }, B(), C, D(u8) }
impl Tagged for EE {
	fn variants() -> Vec<(&'static str, bool)> { vec![("A", false), ("B", false), ("C", true), ("D", false)] }
	fn tag(&self) -> usize { match self { EE::A { .. } => 0, EE::B { .. } => 1, EE::C => 2, EE::D { .. } => 3 } }
	fn payload<C: LeC>(&self) -> Value { match self { EE::A {  } => spec_vec::<C>(&[], None), EE::B {  } => spec_vec::<C>(&[], None), EE::C => spec_vec::<C>(&[], None), EE::D { 0: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None) } }
	fn of(tag: usize, cx: &mut Cx) -> Self { match tag { 0 => EE::A {  }, 1 => EE::B {  }, 2 => EE::C, 3 => EE::D { 0: <u8>::any(cx) }, _ => unreachable!() } }
}
impl Le for EE {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(self.payload::<C>(), self.tag() as u64) }
	fn nth(k: u64) -> Self { let j = k / 4; match k % 4 { 0 => EE::A {  }, 1 => EE::B {  }, 2 => EE::C, 3 => EE::D { 0: <u8>::nth(j + 0) }, _ => unreachable!() } }
	fn any(cx: &mut Cx) -> Self { let k = cx.choose(4); Self::of(k, cx) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub enum E1F { Only(u16, u8) }
impl Tagged for E1F {
	fn variants() -> Vec<(&'static str, bool)> { vec![("Only", false)] }
	fn tag(&self) -> usize { match self { E1F::Only { .. } => 0 } }
	fn payload<C: LeC>(&self) -> Value { match self { E1F::Only { 0: x0, 1: x1 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>()], None) } }
	fn of(tag: usize, cx: &mut Cx) -> Self { match tag { 0 => E1F::Only { 0: <u16>::any(cx), 1: <u8>::any(cx) }, _ => unreachable!() } }
}
impl Le for E1F {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(self.payload::<C>(), self.tag() as u64) }
	fn nth(k: u64) -> Self { let j = k / 1; match k % 1 { 0 => E1F::Only { 0: <u16>::nth(j + 0), 1: <u8>::nth(j + 1) }, _ => unreachable!() } }
	fn any(cx: &mut Cx) -> Self { let k = cx.choose(1); Self::of(k, cx) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub enum E20 { V0, V1, V2, V3(bool), V4, V5, V6, V7{ a: bool }, V8, V9, V10, V11, V12, V13, V14, V15, V16(u8), V17, V18, V19 }
impl Tagged for E20 {
	fn variants() -> Vec<(&'static str, bool)> { vec![("V0", true), ("V1", true), ("V2", true), ("V3", false), ("V4", true), ("V5", true), ("V6", true), ("V7", false), ("V8", true), ("V9", true), ("V10", true), ("V11", true), ("V12", true), ("V13", true), ("V14", true), ("V15", true), ("V16", false), ("V17", true), ("V18", true), ("V19", true)] }
	fn tag(&self) -> usize { match self { E20::V0 => 0, E20::V1 => 1, E20::V2 => 2, E20::V3 { .. } => 3, E20::V4 => 4, E20::V5 => 5, E20::V6 => 6, E20::V7 { .. } => 7, E20::V8 => 8, E20::V9 => 9, E20::V10 => 10, E20::V11 => 11, E20::V12 => 12, E20::V13 => 13, E20::V14 => 14, E20::V15 => 15, E20::V16 { .. } => 16, E20::V17 => 17, E20::V18 => 18, E20::V19 => 19 } }
	fn payload<C: LeC>(&self) -> Value { match self { E20::V0 => spec_vec::<C>(&[], None), E20::V1 => spec_vec::<C>(&[], None), E20::V2 => spec_vec::<C>(&[], None), E20::V3 { 0: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None), E20::V4 => spec_vec::<C>(&[], None), E20::V5 => spec_vec::<C>(&[], None), E20::V6 => spec_vec::<C>(&[], None), E20::V7 { a: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None), E20::V8 => spec_vec::<C>(&[], None), E20::V9 => spec_vec::<C>(&[], None), E20::V10 => spec_vec::<C>(&[], None), E20::V11 => spec_vec::<C>(&[], None), E20::V12 => spec_vec::<C>(&[], None), E20::V13 => spec_vec::<C>(&[], None), E20::V14 => spec_vec::<C>(&[], None), E20::V15 => spec_vec::<C>(&[], None), E20::V16 { 0: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None), E20::V17 => spec_vec::<C>(&[], None), E20::V18 => spec_vec::<C>(&[], None), E20::V19 => spec_vec::<C>(&[], None) } }
	fn of(tag: usize, cx: &mut Cx) -> Self { match tag { 0 => E20::V0, 1 => E20::V1, 2 => E20::V2, 3 => E20::V3 { 0: <bool>::any(cx) }, 4 => E20::V4, 5 => E20::V5, 6 => E20::V6, 7 => E20::V7 { a: <bool>::any(cx) }, 8 => E20::V8, 9 => E20::V9, 10 => E20::V10, 11 => E20::V11, 12 => E20::V12, 13 => E20::V13, 14 => E20::V14, 15 => E20::V15, 16 => E20::V16 { 0: <u8>::any(cx) }, 17 => E20::V17, 18 => E20::V18, 19 => E20::V19, _ => unreachable!() } }
}
impl Le for E20 {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(self.payload::<C>(), self.tag() as u64) }
	fn nth(k: u64) -> Self { let j = k / 20; match k % 20 { 0 => E20::V0, 1 => E20::V1, 2 => E20::V2, 3 => E20::V3 { 0: <bool>::nth(j + 0) }, 4 => E20::V4, 5 => E20::V5, 6 => E20::V6, 7 => E20::V7 { a: <bool>::nth(j + 0) }, 8 => E20::V8, 9 => E20::V9, 10 => E20::V10, 11 => E20::V11, 12 => E20::V12, 13 => E20::V13, 14 => E20::V14, 15 => E20::V15, 16 => E20::V16 { 0: <u8>::nth(j + 0) }, 17 => E20::V17, 18 => E20::V18, 19 => E20::V19, _ => unreachable!() } }
	fn any(cx: &mut Cx) -> Self { let k = cx.choose(20); Self::of(k, cx) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub enum E300 { V0, V1, V2, V3(u8), V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254(u8), V255{ a: u8, b: bool }, V256(u8), V257{ a: u8, b: bool }, V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275, V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287, V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298, V299{ a: u8, b: bool } }
impl Tagged for E300 {
	fn variants() -> Vec<(&'static str, bool)> { vec![("V0", true), ("V1", true), ("V2", true), ("V3", false), ("V4", true), ("V5", true), ("V6", true), ("V7", true), ("V8", true), ("V9", true), ("V10", true), ("V11", true), ("V12", true), ("V13", true), ("V14", true), ("V15", true), ("V16", true), ("V17", true), ("V18", true), ("V19", true), ("V20", true), ("V21", true), ("V22", true), ("V23", true), ("V24", true), ("V25", true), ("V26", true), ("V27", true), ("V28", true), ("V29", true), ("V30", true), ("V31", true), ("V32", true), ("V33", true), ("V34", true), ("V35", true), ("V36", true), ("V37", true), ("V38", true), ("V39", true), ("V40", true), ("V41", true), ("V42", true), ("V43", true), ("V44", true), ("V45", true), ("V46", true), ("V47", true), ("V48", true), ("V49", true), ("V50", true), ("V51", true), ("V52", true), ("V53", true), ("V54", true), ("V55", true), ("V56", true), ("V57", true), ("V58", true), ("V59", true), ("V60", true), ("V61", true), ("V62", true), ("V63", true), ("V64", true), ("V65", true), ("V66", true), ("V67", true), ("V68", true), ("V69", true), ("V70", true), ("V71", true), ("V72", true), ("V73", true), ("V74", true), ("V75", true), ("V76", true), ("V77", true), ("V78", true), ("V79", true), ("V80", true), ("V81", true), ("V82", true), ("V83", true), ("V84", true), ("V85", true), ("V86", true), ("V87", true), ("V88", true), ("V89", true), ("V90", true), ("V91", true), ("V92", true), ("V93", true), ("V94", true), ("V95", true), ("V96", true), ("V97", true), ("V98", true), ("V99", true), ("V100", true), ("V101", true), ("V102", true), ("V103", true), ("V104", true), ("V105", true), ("V106", true), ("V107", true), ("V108", true), ("V109", true), ("V110", true), ("V111", true), ("V112", true), ("V113", true), ("V114", true), ("V115", true), ("V116", true), ("V117", true), ("V118", true), ("V119", true), ("V120", true), ("V121", true), ("V122", true), ("V123", true), ("V124", true), ("V125", true), ("V126", true), ("V127", true), ("V128", true), ("V129", true), ("V130", true), ("V131", true), ("V132", true), ("V133", true), ("V134", true), ("V135", true), ("V136", true), ("V137", true), ("V138", true), ("V139", true), ("V140", true), ("V141", true), ("V142", true), ("V143", true), ("V144", true), ("V145", true), ("V146", true), ("V147", true), ("V148", true), ("V149", true), ("V150", true), ("V151", true), ("V152", true), ("V153", true), ("V154", true), ("V155", true), ("V156", true), ("V157", true), ("V158", true), ("V159", true), ("V160", true), ("V161", true), ("V162", true), ("V163", true), ("V164", true), ("V165", true), ("V166", true), ("V167", true), ("V168", true), ("V169", true), ("V170", true), ("V171", true), ("V172", true), ("V173", true), ("V174", true), ("V175", true), ("V176", true), ("V177", true), ("V178", true), ("V179", true), ("V180", true), ("V181", true), ("V182", true), ("V183", true), ("V184", true), ("V185", true), ("V186", true), ("V187", true), ("V188", true), ("V189", true), ("V190", true), ("V191", true), ("V192", true), ("V193", true), ("V194", true), ("V195", true), ("V196", true), ("V197", true), ("V198", true), ("V199", true), ("V200", true), ("V201", true), ("V202", true), ("V203", true), ("V204", true), ("V205", true), ("V206", true), ("V207", true), ("V208", true), ("V209", true), ("V210", true), ("V211", true), ("V212", true), ("V213", true), ("V214", true), ("V215", true), ("V216", true), ("V217", true), ("V218", true), ("V219", true), ("V220", true), ("V221", true), ("V222", true), ("V223", true), ("V224", true), ("V225", true), ("V226", true), ("V227", true), ("V228", true), ("V229", true), ("V230", true), ("V231", true), ("V232", true), ("V233", true), ("V234", true), ("V235", true), ("V236", true), ("V237", true), ("V238", true), ("V239", true), ("V240", true), ("V241", true), ("V242", true), ("V243", true), ("V244", true), ("V245", true), ("V246", true), ("V247", true), ("V248", true), ("V249", true), ("V250", true), ("V251", true), ("V252", true), ("V253", true), ("V254", false), ("V255", false), ("V256", false), ("V257", false), ("V258", true), ("V259", true), ("V260", true), ("V261", true), ("V262", true), ("V263", true), ("V264", true), ("V265", true), ("V266", true), ("V267", true), ("V268", true), ("V269", true), ("V270", true), ("V271", true), ("V272", true), ("V273", true), ("V274", true), ("V275", true), ("V276", true), ("V277", true), ("V278", true), ("V279", true), ("V280", true), ("V281", true), ("V282", true), ("V283", true), ("V284", true), ("V285", true), ("V286", true), ("V287", true), ("V288", true), ("V289", true), ("V290", true), ("V291", true), ("V292", true), ("V293", true), ("V294", true), ("V295", true), ("V296", true), ("V297", true), ("V298", true), ("V299", false)] }
	fn tag(&self) -> usize { match self { E300::V0 => 0, E300::V1 => 1, E300::V2 => 2, E300::V3 { .. } => 3, E300::V4 => 4, E300::V5 => 5, E300::V6 => 6, E300::V7 => 7, E300::V8 => 8, E300::V9 => 9, E300::V10 => 10, E300::V11 => 11, E300::V12 => 12, E300::V13 => 13, E300::V14 => 14, E300::V15 => 15, E300::V16 => 16, E300::V17 => 17, E300::V18 => 18, E300::V19 => 19, E300::V20 => 20, E300::V21 => 21, E300::V22 => 22, E300::V23 => 23, E300::V24 => 24, E300::V25 => 25, E300::V26 => 26, E300::V27 => 27, E300::V28 => 28, E300::V29 => 29, E300::V30 => 30, E300::V31 => 31, E300::V32 => 32, E300::V33 => 33, E300::V34 => 34, E300::V35 => 35, E300::V36 => 36, E300::V37 => 37, E300::V38 => 38, E300::V39 => 39, E300::V40 => 40, E300::V41 => 41, E300::V42 => 42, E300::V43 => 43, E300::V44 => 44, E300::V45 => 45, E300::V46 => 46, E300::V47 => 47, E300::V48 => 48, E300::V49 => 49, E300::V50 => 50, E300::V51 => 51, E300::V52 => 52, E300::V53 => 53, E300::V54 => 54, E300::V55 => 55, E300::V56 => 56, E300::V57 => 57, E300::V58 => 58, E300::V59 => 59, E300::V60 => 60, E300::V61 => 61, E300::V62 => 62, E300::V63 => 63, E300::V64 => 64, E300::V65 => 65, E300::V66 => 66, E300::V67 => 67, E300::V68 => 68, E300::V69 => 69, E300::V70 => 70, E300::V71 => 71, E300::V72 => 72, E300::V73 => 73, E300::V74 => 74, E300::V75 => 75, E300::V76 => 76, E300::V77 => 77, E300::V78 => 78, E300::V79 => 79, E300::V80 => 80, E300::V81 => 81, E300::V82 => 82, E300::V83 => 83, E300::V84 => 84, E300::V85 => 85, E300::V86 => 86, E300::V87 => 87, E300::V88 => 88, E300::V89 => 89, E300::V90 => 90, E300::V91 => 91, E300::V92 => 92, E300::V93 => 93, E300::V94 => 94, E300::V95 => 95, E300::V96 => 96, E300::V97 => 97, E300::V98 => 98, E300::V99 => 99, E300::V100 => 100, E300::V101 => 101, E300::V102 => 102, E300::V103 => 103, E300::V104 => 104, E300::V105 => 105, E300::V106 => 106, E300::V107 => 107, E300::V108 => 108, E300::V109 => 109, E300::V110 => 110, E300::V111 => 111, E300::V112 => 112, E300::V113 => 113, E300::V114 => 114, E300::V115 => 115, E300::V116 => 116, E300::V117 => 117, E300::V118 => 118, E300::V119 => 119, E300::V120 => 120, E300::V121 => 121, E300::V122 => 122, E300::V123 => 123, E300::V124 => 124, E300::V125 => 125, E300::V126 => 126, E300::V127 => 127, E300::V128 => 128, E300::V129 => 129, E300::V130 => 130, E300::V131 => 131, E300::V132 => 132, E300::V133 => 133, E300::V134 => 134, E300::V135 => 135, E300::V136 => 136, E300::V137 => 137, E300::V138 => 138, E300::V139 => 139, E300::V140 => 140, E300::V141 => 141, E300::V142 => 142, E300::V143 => 143, E300::V144 => 144, E300::V145 => 145, E300::V146 => 146, E300::V147 => 147, E300::V148 => 148, E300::V149 => 149, E300::V150 => 150, E300::V151 => 151, E300::V152 => 152, E300::V153 => 153, E300::V154 => 154, E300::V155 => 155, E300::V156 => 156, E300::V157 => 157, E300::V158 => 158, E300::V159 => 159, E300::V160 => 160, E300::V161 => 161, E300::V162 => 162, E300::V163 => 163, E300::V164 => 164, E300::V165 => 165, E300::V166 => 166, E300::V167 => 167, E300::V168 => 168, E300::V169 => 169, E300::V170 => 170, E300::V171 => 171, E300::V172 => 172, E300::V173 => 173, E300::V174 => 174, E300::V175 => 175, E300::V176 => 176, E300::V177 => 177, E300::V178 => 178, E300::V179 => 179, E300::V180 => 180, E300::V181 => 181, E300::V182 => 182, E300::V183 => 183, E300::V184 => 184, E300::V185 => 185, E300::V186 => 186, E300::V187 => 187, E300::V188 => 188, E300::V189 => 189, E300::V190 => 190, E300::V191 => 191, E300::V192 => 192, E300::V193 => 193, E300::V194 => 194, E300::V195 => 195, E300::V196 => 196, E300::V197 => 197, E300::V198 => 198, E300::V199 => 199, E300::V200 => 200, E300::V201 => 201, E300::V202 => 202, E300::V203 => 203, E300::V204 => 204, E300::V205 => 205, E300::V206 => 206, E300::V207 => 207, E300::V208 => 208, E300::V209 => 209, E300::V210 => 210, E300::V211 => 211, E300::V212 => 212, E300::V213 => 213, E300::V214 => 214, E300::V215 => 215, E300::V216 => 216, E300::V217 => 217, E300::V218 => 218, E300::V219 => 219, E300::V220 => 220, E300::V221 => 221, E300::V222 => 222, E300::V223 => 223, E300::V224 => 224, E300::V225 => 225, E300::V226 => 226, E300::V227 => 227, E300::V228 => 228, E300::V229 => 229, E300::V230 => 230, E300::V231 => 231, E300::V232 => 232, E300::V233 => 233, E300::V234 => 234, E300::V235 => 235, E300::V236 => 236, E300::V237 => 237, E300::V238 => 238, E300::V239 => 239, E300::V240 => 240, E300::V241 => 241, E300::V242 => 242, E300::V243 => 243, E300::V244 => 244, E300::V245 => 245, E300::V246 => 246, E300::V247 => 247, E300::V248 => 248, E300::V249 => 249, E300::V250 => 250, E300::V251 => 251, E300::V252 => 252, E300::V253 => 253, E300::V254 { .. } => 254, E300::V255 { .. } => 255, E300::V256 { .. } => 256, E300::V257 { .. } => 257, E300::V258 => 258, E300::V259 => 259, E300::V260 => 260, E300::V261 => 261, E300::V262 => 262, E300::V263 => 263, E300::V264 => 264, E300::V265 => 265, E300::V266 => 266, E300::V267 => 267, E300::V268 => 268, E300::V269 => 269, E300::V270 => 270, E300::V271 => 271, E300::V272 => 272, E300::V273 => 273, E300::V274 => 274, E300::V275 => 275, E300::V276 => 276, E300::V277 => 277, E300::V278 => 278, E300::V279 => 279, E300::V280 => 280, E300::V281 => 281, E300::V282 => 282, E300::V283 => 283, E300::V284 => 284, E300::V285 => 285, E300::V286 => 286, E300::V287 => 287, E300::V288 => 288, E300::V289 => 289, E300::V290 => 290, E300::V291 => 291, E300::V292 => 292, E300::V293 => 293, E300::V294 => 294, E300::V295 => 295, E300::V296 => 296, E300::V297 => 297, E300::V298 => 298, E300::V299 { .. } => 299 } }
	fn payload<C: LeC>(&self) -> Value { match self { E300::V0 => spec_vec::<C>(&[], None), E300::V1 => spec_vec::<C>(&[], None), E300::V2 => spec_vec::<C>(&[], None), E300::V3 { 0: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None), E300::V4 => spec_vec::<C>(&[], None), E300::V5 => spec_vec::<C>(&[], None), E300::V6 => spec_vec::<C>(&[], None), E300::V7 => spec_vec::<C>(&[], None), E300::V8 => spec_vec::<C>(&[], None), E300::V9 => spec_vec::<C>(&[], None), E300::V10 => spec_vec::<C>(&[], None), E300::V11 => spec_vec::<C>(&[], None), E300::V12 => spec_vec::<C>(&[], None), E300::V13 => spec_vec::<C>(&[], None), E300::V14 => spec_vec::<C>(&[], None), E300::V15 => spec_vec::<C>(&[], None), E300::V16 => spec_vec::<C>(&[], None), E300::V17 => spec_vec::<C>(&[], None), E300::V18 => spec_vec::<C>(&[], None), E300::V19 => spec_vec::<C>(&[], None), E300::V20 => spec_vec::<C>(&[], None), E300::V21 => spec_vec::<C>(&[], None), E300::V22 => spec_vec::<C>(&[], None), E300::V23 => spec_vec::<C>(&[], None), E300::V24 => spec_vec::<C>(&[], None), E300::V25 => spec_vec::<C>(&[], None), E300::V26 => spec_vec::<C>(&[], None), E300::V27 => spec_vec::<C>(&[], None), E300::V28 => spec_vec::<C>(&[], None), E300::V29 => spec_vec::<C>(&[], None), E300::V30 => spec_vec::<C>(&[], None), E300::V31 => spec_vec::<C>(&[], None), E300::V32 => spec_vec::<C>(&[], None), E300::V33 => spec_vec::<C>(&[], None), E300::V34 => spec_vec::<C>(&[], None), E300::V35 => spec_vec::<C>(&[], None), E300::V36 => spec_vec::<C>(&[], None), E300::V37 => spec_vec::<C>(&[], None), E300::V38 => spec_vec::<C>(&[], None), E300::V39 => spec_vec::<C>(&[], None), E300::V40 => spec_vec::<C>(&[], None), E300::V41 => spec_vec::<C>(&[], None), E300::V42 => spec_vec::<C>(&[], None), E300::V43 => spec_vec::<C>(&[], None), E300::V44 => spec_vec::<C>(&[], None), E300::V45 => spec_vec::<C>(&[], None), E300::V46 => spec_vec::<C>(&[], None), E300::V47 => spec_vec::<C>(&[], None), E300::V48 => spec_vec::<C>(&[], None), E300::V49 => spec_vec::<C>(&[], None), E300::V50 => spec_vec::<C>(&[], None), E300::V51 => spec_vec::<C>(&[], None), E300::V52 => spec_vec::<C>(&[], None), E300::V53 => spec_vec::<C>(&[], None), E300::V54 => spec_vec::<C>(&[], None), E300::V55 => spec_vec::<C>(&[], None), E300::V56 => spec_vec::<C>(&[], None), E300::V57 => spec_vec::<C>(&[], None), E300::V58 => spec_vec::<C>(&[], None), E300::V59 => spec_vec::<C>(&[], None), E300::V60 => spec_vec::<C>(&[], None), E300::V61 => spec_vec::<C>(&[], None), E300::V62 => spec_vec::<C>(&[], None), E300::V63 => spec_vec::<C>(&[], None), E300::V64 => spec_vec::<C>(&[], None), E300::V65 => spec_vec::<C>(&[], None), E300::V66 => spec_vec::<C>(&[], None), E300::V67 => spec_vec::<C>(&[], None), E300::V68 => spec_vec::<C>(&[], None), E300::V69 => spec_vec::<C>(&[], None), E300::V70 => spec_vec::<C>(&[], None), E300::V71 => spec_vec::<C>(&[], None), E300::V72 => spec_vec::<C>(&[], None), E300::V73 => spec_vec::<C>(&[], None), E300::V74 => spec_vec::<C>(&[], None), E300::V75 => spec_vec::<C>(&[], None), E300::V76 => spec_vec::<C>(&[], None), E300::V77 => spec_vec::<C>(&[], None), E300::V78 => spec_vec::<C>(&[], None), E300::V79 => spec_vec::<C>(&[], None), E300::V80 => spec_vec::<C>(&[], None), E300::V81 => spec_vec::<C>(&[], None), E300::V82 => spec_vec::<C>(&[], None), E300::V83 => spec_vec::<C>(&[], None), E300::V84 => spec_vec::<C>(&[], None), E300::V85 => spec_vec::<C>(&[], None), E300::V86 => spec_vec::<C>(&[], None), E300::V87 => spec_vec::<C>(&[], None), E300::V88 => spec_vec::<C>(&[], None), E300::V89 => spec_vec::<C>(&[], None), E300::V90 => spec_vec::<C>(&[], None), E300::V91 => spec_vec::<C>(&[], None), E300::V92 => spec_vec::<C>(&[], None), E300::V93 => spec_vec::<C>(&[], None), E300::V94 => spec_vec::<C>(&[], None), E300::V95 => spec_vec::<C>(&[], None), E300::V96 => spec_vec::<C>(&[], None), E300::V97 => spec_vec::<C>(&[], None), E300::V98 => spec_vec::<C>(&[], None), E300::V99 => spec_vec::<C>(&[], None), E300::V100 => spec_vec::<C>(&[], None), E300::V101 => spec_vec::<C>(&[], None), E300::V102 => spec_vec::<C>(&[], None), E300::V103 => spec_vec::<C>(&[], None), E300::V104 => spec_vec::<C>(&[], None), E300::V105 => spec_vec::<C>(&[], None), E300::V106 => spec_vec::<C>(&[], None), E300::V107 => spec_vec::<C>(&[], None), E300::V108 => spec_vec::<C>(&[], None), E300::V109 => spec_vec::<C>(&[], None), E300::V110 => spec_vec::<C>(&[], None), E300::V111 => spec_vec::<C>(&[], None), E300::V112 => spec_vec::<C>(&[], None), E300::V113 => spec_vec::<C>(&[], None), E300::V114 => spec_vec::<C>(&[], None), E300::V115 => spec_vec::<C>(&[], None), E300::V116 => spec_vec::<C>(&[], None), E300::V117 => spec_vec::<C>(&[], None), E300::V118 => spec_vec::<C>(&[], None), E300::V119 => spec_vec::<C>(&[], None), E300::V120 => spec_vec::<C>(&[], None), E300::V121 => spec_vec::<C>(&[], None), E300::V122 => spec_vec::<C>(&[], None), E300::V123 => spec_vec::<C>(&[], None), E300::V124 => spec_vec::<C>(&[], None), E300::V125 => spec_vec::<C>(&[], None), E300::V126 => spec_vec::<C>(&[], None), E300::V127 => spec_vec::<C>(&[], None), E300::V128 => spec_vec::<C>(&[], None), E300::V129 => spec_vec::<C>(&[], None), E300::V130 => spec_vec::<C>(&[], None), E300::V131 => spec_vec::<C>(&[], None), E300::V132 => spec_vec::<C>(&[], None), E300::V133 => spec_vec::<C>(&[], None), E300::V134 => spec_vec::<C>(&[], None), E300::V135 => spec_vec::<C>(&[], None), E300::V136 => spec_vec::<C>(&[], None), E300::V137 => spec_vec::<C>(&[], None), E300::V138 => spec_vec::<C>(&[], None), E300::V139 => spec_vec::<C>(&[], None), E300::V140 => spec_vec::<C>(&[], None), E300::V141 => spec_vec::<C>(&[], None), E300::V142 => spec_vec::<C>(&[], None), E300::V143 => spec_vec::<C>(&[], None), E300::V144 => spec_vec::<C>(&[], None), E300::V145 => spec_vec::<C>(&[], None), E300::V146 => spec_vec::<C>(&[], None), E300::V147 => spec_vec::<C>(&[], None), E300::V148 => spec_vec::<C>(&[], None), E300::V149 => spec_vec::<C>(&[], None), E300::V150 => spec_vec::<C>(&[], None), E300::V151 => spec_vec::<C>(&[], None), E300::V152 => spec_vec::<C>(&[], None), E300::V153 => spec_vec::<C>(&[], None), E300::V154 => spec_vec::<C>(&[], None), E300::V155 => spec_vec::<C>(&[], None), E300::V156 => spec_vec::<C>(&[], None), E300::V157 => spec_vec::<C>(&[], None), E300::V158 => spec_vec::<C>(&[], None), E300::V159 => spec_vec::<C>(&[], None), E300::V160 => spec_vec::<C>(&[], None), E300::V161 => spec_vec::<C>(&[], None), E300::V162 => spec_vec::<C>(&[], None), E300::V163 => spec_vec::<C>(&[], None), E300::V164 => spec_vec::<C>(&[], None), E300::V165 => spec_vec::<C>(&[], None), E300::V166 => spec_vec::<C>(&[], None), E300::V167 => spec_vec::<C>(&[], None), E300::V168 => spec_vec::<C>(&[], None), E300::V169 => spec_vec::<C>(&[], None), E300::V170 => spec_vec::<C>(&[], None), E300::V171 => spec_vec::<C>(&[], None), E300::V172 => spec_vec::<C>(&[], None), E300::V173 => spec_vec::<C>(&[], None), E300::V174 => spec_vec::<C>(&[], None), E300::V175 => spec_vec::<C>(&[], None), E300::V176 => spec_vec::<C>(&[], None), E300::V177 => spec_vec::<C>(&[], None), E300::V178 => spec_vec::<C>(&[], None), E300::V179 => spec_vec::<C>(&[], None), E300::V180 => spec_vec::<C>(&[], None), E300::V181 => spec_vec::<C>(&[], None), E300::V182 => spec_vec::<C>(&[], None), E300::V183 => spec_vec::<C>(&[], None), E300::V184 => spec_vec::<C>(&[], None), E300::V185 => spec_vec::<C>(&[], None), E300::V186 => spec_vec::<C>(&[], None), E300::V187 => spec_vec::<C>(&[], None), E300::V188 => spec_vec::<C>(&[], None), E300::V189 => spec_vec::<C>(&[], None), E300::V190 => spec_vec::<C>(&[], None), E300::V191 => spec_vec::<C>(&[], None), E300::V192 => spec_vec::<C>(&[], None), E300::V193 => spec_vec::<C>(&[], None), E300::V194 => spec_vec::<C>(&[], None), E300::V195 => spec_vec::<C>(&[], None), E300::V196 => spec_vec::<C>(&[], None), E300::V197 => spec_vec::<C>(&[], None), E300::V198 => spec_vec::<C>(&[], None), E300::V199 => spec_vec::<C>(&[], None), E300::V200 => spec_vec::<C>(&[], None), E300::V201 => spec_vec::<C>(&[], None), E300::V202 => spec_vec::<C>(&[], None), E300::V203 => spec_vec::<C>(&[], None), E300::V204 => spec_vec::<C>(&[], None), E300::V205 => spec_vec::<C>(&[], None), E300::V206 => spec_vec::<C>(&[], None), E300::V207 => spec_vec::<C>(&[], None), E300::V208 => spec_vec::<C>(&[], None), E300::V209 => spec_vec::<C>(&[], None), E300::V210 => spec_vec::<C>(&[], None), E300::V211 => spec_vec::<C>(&[], None), E300::V212 => spec_vec::<C>(&[], None), E300::V213 => spec_vec::<C>(&[], None), E300::V214 => spec_vec::<C>(&[], None), E300::V215 => spec_vec::<C>(&[], None), E300::V216 => spec_vec::<C>(&[], None), E300::V217 => spec_vec::<C>(&[], None), E300::V218 => spec_vec::<C>(&[], None), E300::V219 => spec_vec::<C>(&[], None), E300::V220 => spec_vec::<C>(&[], None), E300::V221 => spec_vec::<C>(&[], None), E300::V222 => spec_vec::<C>(&[], None), E300::V223 => spec_vec::<C>(&[], None), E300::V224 => spec_vec::<C>(&[], None), E300::V225 => spec_vec::<C>(&[], None), E300::V226 => spec_vec::<C>(&[], None), E300::V227 => spec_vec::<C>(&[], None), E300::V228 => spec_vec::<C>(&[], None), E300::V229 => spec_vec::<C>(&[], None), E300::V230 => spec_vec::<C>(&[], None), E300::V231 => spec_vec::<C>(&[], None), E300::V232 => spec_vec::<C>(&[], None), E300::V233 => spec_vec::<C>(&[], None), E300::V234 => spec_vec::<C>(&[], None), E300::V235 => spec_vec::<C>(&[], None), E300::V236 => spec_vec::<C>(&[], None), E300::V237 => spec_vec::<C>(&[], None), E300::V238 => spec_vec::<C>(&[], None), E300::V239 => spec_vec::<C>(&[], None), E300::V240 => spec_vec::<C>(&[], None), E300::V241 => spec_vec::<C>(&[], None), E300::V242 => spec_vec::<C>(&[], None), E300::V243 => spec_vec::<C>(&[], None), E300::V244 => spec_vec::<C>(&[], None), E300::V245 => spec_vec::<C>(&[], None), E300::V246 => spec_vec::<C>(&[], None), E300::V247 => spec_vec::<C>(&[], None), E300::V248 => spec_vec::<C>(&[], None), E300::V249 => spec_vec::<C>(&[], None), E300::V250 => spec_vec::<C>(&[], None), E300::V251 => spec_vec::<C>(&[], None), E300::V252 => spec_vec::<C>(&[], None), E300::V253 => spec_vec::<C>(&[], None), E300::V254 { 0: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None), E300::V255 { a: x0, b: x1 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>()], None), E300::V256 { 0: x0 } => spec_vec::<C>(&[x0.spec::<C>()], None), E300::V257 { a: x0, b: x1 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>()], None), E300::V258 => spec_vec::<C>(&[], None), E300::V259 => spec_vec::<C>(&[], None), E300::V260 => spec_vec::<C>(&[], None), E300::V261 => spec_vec::<C>(&[], None), E300::V262 => spec_vec::<C>(&[], None), E300::V263 => spec_vec::<C>(&[], None), E300::V264 => spec_vec::<C>(&[], None), E300::V265 => spec_vec::<C>(&[], None), E300::V266 => spec_vec::<C>(&[], None), E300::V267 => spec_vec::<C>(&[], None), E300::V268 => spec_vec::<C>(&[], None), E300::V269 => spec_vec::<C>(&[], None), E300::V270 => spec_vec::<C>(&[], None), E300::V271 => spec_vec::<C>(&[], None), E300::V272 => spec_vec::<C>(&[], None), E300::V273 => spec_vec::<C>(&[], None), E300::V274 => spec_vec::<C>(&[], None), E300::V275 => spec_vec::<C>(&[], None), E300::V276 => spec_vec::<C>(&[], None), E300::V277 => spec_vec::<C>(&[], None), E300::V278 => spec_vec::<C>(&[], None), E300::V279 => spec_vec::<C>(&[], None), E300::V280 => spec_vec::<C>(&[], None), E300::V281 => spec_vec::<C>(&[], None), E300::V282 => spec_vec::<C>(&[], None), E300::V283 => spec_vec::<C>(&[], None), E300::V284 => spec_vec::<C>(&[], None), E300::V285 => spec_vec::<C>(&[], None), E300::V286 => spec_vec::<C>(&[], None), E300::V287 => spec_vec::<C>(&[], None), E300::V288 => spec_vec::<C>(&[], None), E300::V289 => spec_vec::<C>(&[], None), E300::V290 => spec_vec::<C>(&[], None), E300::V291 => spec_vec::<C>(&[], None), E300::V292 => spec_vec::<C>(&[], None), E300::V293 => spec_vec::<C>(&[], None), E300::V294 => spec_vec::<C>(&[], None), E300::V295 => spec_vec::<C>(&[], None), E300::V296 => spec_vec::<C>(&[], None), E300::V297 => spec_vec::<C>(&[], None), E300::V298 => spec_vec::<C>(&[], None), E300::V299 { a: x0, b: x1 } => spec_vec::<C>(&[x0.spec::<C>(), x1.spec::<C>()], None) } }
	fn of(tag: usize, cx: &mut Cx) -> Self { match tag { 0 => E300::V0, 1 => E300::V1, 2 => E300::V2, 3 => E300::V3 { 0: <u8>::any(cx) }, 4 => E300::V4, 5 => E300::V5, 6 => E300::V6, 7 => E300::V7, 8 => E300::V8, 9 => E300::V9, 10 => E300::V10, 11 => E300::V11, 12 => E300::V12, 13 => E300::V13, 14 => E300::V14, 15 => E300::V15, 16 => E300::V16, 17 => E300::V17, 18 => E300::V18, 19 => E300::V19, 20 => E300::V20, 21 => E300::V21, 22 => E300::V22, 23 => E300::V23, 24 => E300::V24, 25 => E300::V25, 26 => E300::V26, 27 => E300::V27, 28 => E300::V28, 29 => E300::V29, 30 => E300::V30, 31 => E300::V31, 32 => E300::V32, 33 => E300::V33, 34 => E300::V34, 35 => E300::V35, 36 => E300::V36, 37 => E300::V37, 38 => E300::V38, 39 => E300::V39, 40 => E300::V40, 41 => E300::V41, 42 => E300::V42, 43 => E300::V43, 44 => E300::V44, 45 => E300::V45, 46 => E300::V46, 47 => E300::V47, 48 => E300::V48, 49 => E300::V49, 50 => E300::V50, 51 => E300::V51, 52 => E300::V52, 53 => E300::V53, 54 => E300::V54, 55 => E300::V55, 56 => E300::V56, 57 => E300::V57, 58 => E300::V58, 59 => E300::V59, 60 => E300::V60, 61 => E300::V61, 62 => E300::V62, 63 => E300::V63, 64 => E300::V64, 65 => E300::V65, 66 => E300::V66, 67 => E300::V67, 68 => E300::V68, 69 => E300::V69, 70 => E300::V70, 71 => E300::V71, 72 => E300::V72, 73 => E300::V73, 74 => E300::V74, 75 => E300::V75, 76 => E300::V76, 77 => E300::V77, 78 => E300::V78, 79 => E300::V79, 80 => E300::V80, 81 => E300::V81, 82 => E300::V82, 83 => E300::V83, 84 => E300::V84, 85 => E300::V85, 86 => E300::V86, 87 => E300::V87, 88 => E300::V88, 89 => E300::V89, 90 => E300::V90, 91 => E300::V91, 92 => E300::V92, 93 => E300::V93, 94 => E300::V94, 95 => E300::V95, 96 => E300::V96, 97 => E300::V97, 98 => E300::V98, 99 => E300::V99, 100 => E300::V100, 101 => E300::V101, 102 => E300::V102, 103 => E300::V103, 104 => E300::V104, 105 => E300::V105, 106 => E300::V106, 107 => E300::V107, 108 => E300::V108, 109 => E300::V109, 110 => E300::V110, 111 => E300::V111, 112 => E300::V112, 113 => E300::V113, 114 => E300::V114, 115 => E300::V115, 116 => E300::V116, 117 => E300::V117, 118 => E300::V118, 119 => E300::V119, 120 => E300::V120, 121 => E300::V121, 122 => E300::V122, 123 => E300::V123, 124 => E300::V124, 125 => E300::V125, 126 => E300::V126, 127 => E300::V127, 128 => E300::V128, 129 => E300::V129, 130 => E300::V130, 131 => E300::V131, 132 => E300::V132, 133 => E300::V133, 134 => E300::V134, 135 => E300::V135, 136 => E300::V136, 137 => E300::V137, 138 => E300::V138, 139 => E300::V139, 140 => E300::V140, 141 => E300::V141, 142 => E300::V142, 143 => E300::V143, 144 => E300::V144, 145 => E300::V145, 146 => E300::V146, 147 => E300::V147, 148 => E300::V148, 149 => E300::V149, 150 => E300::V150, 151 => E300::V151, 152 => E300::V152, 153 => E300::V153, 154 => E300::V154, 155 => E300::V155, 156 => E300::V156, 157 => E300::V157, 158 => E300::V158, 159 => E300::V159, 160 => E300::V160, 161 => E300::V161, 162 => E300::V162, 163 => E300::V163, 164 => E300::V164, 165 => E300::V165, 166 => E300::V166, 167 => E300::V167, 168 => E300::V168, 169 => E300::V169, 170 => E300::V170, 171 => E300::V171, 172 => E300::V172, 173 => E300::V173, 174 => E300::V174, 175 => E300::V175, 176 => E300::V176, 177 => E300::V177, 178 => E300::V178, 179 => E300::V179, 180 => E300::V180, 181 => E300::V181, 182 => E300::V182, 183 => E300::V183, 184 => E300::V184, 185 => E300::V185, 186 => E300::V186, 187 => E300::V187, 188 => E300::V188, 189 => E300::V189, 190 => E300::V190, 191 => E300::V191, 192 => E300::V192, 193 => E300::V193, 194 => E300::V194, 195 => E300::V195, 196 => E300::V196, 197 => E300::V197, 198 => E300::V198, 199 => E300::V199, 200 => E300::V200, 201 => E300::V201, 202 => E300::V202, 203 => E300::V203, 204 => E300::V204, 205 => E300::V205, 206 => E300::V206, 207 => E300::V207, 208 => E300::V208, 209 => E300::V209, 210 => E300::V210, 211 => E300::V211, 212 => E300::V212, 213 => E300::V213, 214 => E300::V214, 215 => E300::V215, 216 => E300::V216, 217 => E300::V217, 218 => E300::V218, 219 => E300::V219, 220 => E300::V220, 221 => E300::V221, 222 => E300::V222, 223 => E300::V223, 224 => E300::V224, 225 => E300::V225, 226 => E300::V226, 227 => E300::V227, 228 => E300::V228, 229 => E300::V229, 230 => E300::V230, 231 => E300::V231, 232 => E300::V232, 233 => E300::V233, 234 => E300::V234, 235 => E300::V235, 236 => E300::V236, 237 => E300::V237, 238 => E300::V238, 239 => E300::V239, 240 => E300::V240, 241 => E300::V241, 242 => E300::V242, 243 => E300::V243, 244 => E300::V244, 245 => E300::V245, 246 => E300::V246, 247 => E300::V247, 248 => E300::V248, 249 => E300::V249, 250 => E300::V250, 251 => E300::V251, 252 => E300::V252, 253 => E300::V253, 254 => E300::V254 { 0: <u8>::any(cx) }, 255 => E300::V255 { a: <u8>::any(cx), b: <bool>::any(cx) }, 256 => E300::V256 { 0: <u8>::any(cx) }, 257 => E300::V257 { a: <u8>::any(cx), b: <bool>::any(cx) }, 258 => E300::V258, 259 => E300::V259, 260 => E300::V260, 261 => E300::V261, 262 => E300::V262, 263 => E300::V263, 264 => E300::V264, 265 => E300::V265, 266 => E300::V266, 267 => E300::V267, 268 => E300::V268, 269 => E300::V269, 270 => E300::V270, 271 => E300::V271, 272 => E300::V272, 273 => E300::V273, 274 => E300::V274, 275 => E300::V275, 276 => E300::V276, 277 => E300::V277, 278 => E300::V278, 279 => E300::V279, 280 => E300::V280, 281 => E300::V281, 282 => E300::V282, 283 => E300::V283, 284 => E300::V284, 285 => E300::V285, 286 => E300::V286, 287 => E300::V287, 288 => E300::V288, 289 => E300::V289, 290 => E300::V290, 291 => E300::V291, 292 => E300::V292, 293 => E300::V293, 294 => E300::V294, 295 => E300::V295, 296 => E300::V296, 297 => E300::V297, 298 => E300::V298, 299 => E300::V299 { a: <u8>::any(cx), b: <bool>::any(cx) }, _ => unreachable!() } }
}
impl Le for E300 {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(self.payload::<C>(), self.tag() as u64) }
	fn nth(k: u64) -> Self { let j = k / 300; match k % 300 { 0 => E300::V0, 1 => E300::V1, 2 => E300::V2, 3 => E300::V3 { 0: <u8>::nth(j + 0) }, 4 => E300::V4, 5 => E300::V5, 6 => E300::V6, 7 => E300::V7, 8 => E300::V8, 9 => E300::V9, 10 => E300::V10, 11 => E300::V11, 12 => E300::V12, 13 => E300::V13, 14 => E300::V14, 15 => E300::V15, 16 => E300::V16, 17 => E300::V17, 18 => E300::V18, 19 => E300::V19, 20 => E300::V20, 21 => E300::V21, 22 => E300::V22, 23 => E300::V23, 24 => E300::V24, 25 => E300::V25, 26 => E300::V26, 27 => E300::V27, 28 => E300::V28, 29 => E300::V29, 30 => E300::V30, 31 => E300::V31, 32 => E300::V32, 33 => E300::V33, 34 => E300::V34, 35 => E300::V35, 36 => E300::V36, 37 => E300::V37, 38 => E300::V38, 39 => E300::V39, 40 => E300::V40, 41 => E300::V41, 42 => E300::V42, 43 => E300::V43, 44 => E300::V44, 45 => E300::V45, 46 => E300::V46, 47 => E300::V47, 48 => E300::V48, 49 => E300::V49, 50 => E300::V50, 51 => E300::V51, 52 => E300::V52, 53 => E300::V53, 54 => E300::V54, 55 => E300::V55, 56 => E300::V56, 57 => E300::V57, 58 => E300::V58, 59 => E300::V59, 60 => E300::V60, 61 => E300::V61, 62 => E300::V62, 63 => E300::V63, 64 => E300::V64, 65 => E300::V65, 66 => E300::V66, 67 => E300::V67, 68 => E300::V68, 69 => E300::V69, 70 => E300::V70, 71 => E300::V71, 72 => E300::V72, 73 => E300::V73, 74 => E300::V74, 75 => E300::V75, 76 => E300::V76, 77 => E300::V77, 78 => E300::V78, 79 => E300::V79, 80 => E300::V80, 81 => E300::V81, 82 => E300::V82, 83 => E300::V83, 84 => E300::V84, 85 => E300::V85, 86 => E300::V86, 87 => E300::V87, 88 => E300::V88, 89 => E300::V89, 90 => E300::V90, 91 => E300::V91, 92 => E300::V92, 93 => E300::V93, 94 => E300::V94, 95 => E300::V95, 96 => E300::V96, 97 => E300::V97, 98 => E300::V98, 99 => E300::V99, 100 => E300::V100, 101 => E300::V101, 102 => E300::V102, 103 => E300::V103, 104 => E300::V104, 105 => E300::V105, 106 => E300::V106, 107 => E300::V107, 108 => E300::V108, 109 => E300::V109, 110 => E300::V110, 111 => E300::V111, 112 => E300::V112, 113 => E300::V113, 114 => E300::V114, 115 => E300::V115, 116 => E300::V116, 117 => E300::V117, 118 => E300::V118, 119 => E300::V119, 120 => E300::V120, 121 => E300::V121, 122 => E300::V122, 123 => E300::V123, 124 => E300::V124, 125 => E300::V125, 126 => E300::V126, 127 => E300::V127, 128 => E300::V128, 129 => E300::V129, 130 => E300::V130, 131 => E300::V131, 132 => E300::V132, 133 => E300::V133, 134 => E300::V134, 135 => E300::V135, 136 => E300::V136, 137 => E300::V137, 138 => E300::V138, 139 => E300::V139, 140 => E300::V140, 141 => E300::V141, 142 => E300::V142, 143 => E300::V143, 144 => E300::V144, 145 => E300::V145, 146 => E300::V146, 147 => E300::V147, 148 => E300::V148, 149 => E300::V149, 150 => E300::V150, 151 => E300::V151, 152 => E300::V152, 153 => E300::V153, 154 => E300::V154, 155 => E300::V155, 156 => E300::V156, 157 => E300::V157, 158 => E300::V158, 159 => E300::V159, 160 => E300::V160, 161 => E300::V161, 162 => E300::V162, 163 => E300::V163, 164 => E300::V164, 165 => E300::V165, 166 => E300::V166, 167 => E300::V167, 168 => E300::V168, 169 => E300::V169, 170 => E300::V170, 171 => E300::V171, 172 => E300::V172, 173 => E300::V173, 174 => E300::V174, 175 => E300::V175, 176 => E300::V176, 177 => E300::V177, 178 => E300::V178, 179 => E300::V179, 180 => E300::V180, 181 => E300::V181, 182 => E300::V182, 183 => E300::V183, 184 => E300::V184, 185 => E300::V185, 186 => E300::V186, 187 => E300::V187, 188 => E300::V188, 189 => E300::V189, 190 => E300::V190, 191 => E300::V191, 192 => E300::V192, 193 => E300::V193, 194 => E300::V194, 195 => E300::V195, 196 => E300::V196, 197 => E300::V197, 198 => E300::V198, 199 => E300::V199, 200 => E300::V200, 201 => E300::V201, 202 => E300::V202, 203 => E300::V203, 204 => E300::V204, 205 => E300::V205, 206 => E300::V206, 207 => E300::V207, 208 => E300::V208, 209 => E300::V209, 210 => E300::V210, 211 => E300::V211, 212 => E300::V212, 213 => E300::V213, 214 => E300::V214, 215 => E300::V215, 216 => E300::V216, 217 => E300::V217, 218 => E300::V218, 219 => E300::V219, 220 => E300::V220, 221 => E300::V221, 222 => E300::V222, 223 => E300::V223, 224 => E300::V224, 225 => E300::V225, 226 => E300::V226, 227 => E300::V227, 228 => E300::V228, 229 => E300::V229, 230 => E300::V230, 231 => E300::V231, 232 => E300::V232, 233 => E300::V233, 234 => E300::V234, 235 => E300::V235, 236 => E300::V236, 237 => E300::V237, 238 => E300::V238, 239 => E300::V239, 240 => E300::V240, 241 => E300::V241, 242 => E300::V242, 243 => E300::V243, 244 => E300::V244, 245 => E300::V245, 246 => E300::V246, 247 => E300::V247, 248 => E300::V248, 249 => E300::V249, 250 => E300::V250, 251 => E300::V251, 252 => E300::V252, 253 => E300::V253, 254 => E300::V254 { 0: <u8>::nth(j + 0) }, 255 => E300::V255 { a: <u8>::nth(j + 0), b: <bool>::nth(j + 1) }, 256 => E300::V256 { 0: <u8>::nth(j + 0) }, 257 => E300::V257 { a: <u8>::nth(j + 0), b: <bool>::nth(j + 1) }, 258 => E300::V258, 259 => E300::V259, 260 => E300::V260, 261 => E300::V261, 262 => E300::V262, 263 => E300::V263, 264 => E300::V264, 265 => E300::V265, 266 => E300::V266, 267 => E300::V267, 268 => E300::V268, 269 => E300::V269, 270 => E300::V270, 271 => E300::V271, 272 => E300::V272, 273 => E300::V273, 274 => E300::V274, 275 => E300::V275, 276 => E300::V276, 277 => E300::V277, 278 => E300::V278, 279 => E300::V279, 280 => E300::V280, 281 => E300::V281, 282 => E300::V282, 283 => E300::V283, 284 => E300::V284, 285 => E300::V285, 286 => E300::V286, 287 => E300::V287, 288 => E300::V288, 289 => E300::V289, 290 => E300::V290, 291 => E300::V291, 292 => E300::V292, 293 => E300::V293, 294 => E300::V294, 295 => E300::V295, 296 => E300::V296, 297 => E300::V297, 298 => E300::V298, 299 => E300::V299 { a: <u8>::nth(j + 0), b: <bool>::nth(j + 1) }, _ => unreachable!() } }
	fn any(cx: &mut Cx) -> Self { let k = cx.choose(300); Self::of(k, cx) }
}
