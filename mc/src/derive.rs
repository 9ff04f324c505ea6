//! C12: derived containers and enums.

use crate::engine::*;
use crate::hash::*;
use crate::le::*;
use bm::WriteBackend;
use bm_le::*;
use bm_le_derive::{FromTree, IntoTree};
use generic_array::{ArrayLength, GenericArray};
use std::fmt::Debug;
use primitive_types::{H256, H512, U256};
use typenum::{Unsigned, U2, U3, U4, U5, U9, U33};
use vecarray::VecArray;

/// What is known of a derived enum.
pub trait Tagged: Le {
	/// Variant names and whether each is a unit variant.
	fn variants() -> Vec<(&'static str, bool)>;
	fn tag(&self) -> usize;
	/// Root of the fields of the variant.
	fn payload<C: LeC>(&self) -> Value;
	fn of(tag: usize, cx: &mut Cx) -> Self;
}
include!("derived.rs");
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct Unit;
impl Le for Unit {
	fn spec<C: LeC>(&self) -> Value { Value::default() }
	fn nth(_: u64) -> Self { Unit }
	fn any(_: &mut Cx) -> Self { Unit }
}

#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct G1<T> { pub a: T }
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct G3<A: Clone, B> { pub a: A, pub b: u8, pub c: B }
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct GP<A, B>(pub B, pub A, pub A);
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub enum GE<A, B> { Left(A), Right { b: B, n: u8 }, Neither }
pub trait Config: Clone + PartialEq + Debug + 'static { type D: ArrayLength<u64> + Clone + PartialEq + Debug; type E: Lim; }
#[derive(Clone, PartialEq, Debug)] pub struct Small;
#[derive(Clone, PartialEq, Debug)] pub struct Large;
impl Config for Small { type D = U2; type E = U3; }
impl Config for Large { type D = U5; type E = U33; }
#[derive(IntoTree, FromTree, Clone, PartialEq, Debug)]
pub struct GC<C: Config> { pub a: u32, #[bm(compact)] pub d: GenericArray<u64, C::D>, #[bm(compact)] pub e: MaxVec<u64, C::E>, pub f: MaxVec<u8, C::E>, pub g: GenericArray<u64, C::D> }

impl<T: Le> Le for G1<T> {
	fn spec<C: LeC>(&self) -> Value { self.a.spec::<C>() }
	fn nth(k: u64) -> Self { G1 { a: T::nth(k) } }
	fn any(cx: &mut Cx) -> Self { G1 { a: T::any(cx) } }
}
impl<A: Le, B: Le> Le for G3<A, B> {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.a.spec::<C>(), self.b.spec::<C>(), self.c.spec::<C>()], None) }
	fn nth(k: u64) -> Self { G3 { a: A::nth(k), b: u8::nth(k), c: B::nth(k) } }
	fn any(cx: &mut Cx) -> Self { G3 { a: A::any(cx), b: u8::any(cx), c: B::any(cx) } }
}
impl<A: Le, B: Le> Le for GP<A, B> {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.0.spec::<C>(), self.1.spec::<C>(), self.2.spec::<C>()], None) }
	fn nth(k: u64) -> Self { GP(B::nth(k), A::nth(k + 1), A::nth(k + 2)) }
	fn any(cx: &mut Cx) -> Self { GP(B::any(cx), A::any(cx), A::any(cx)) }
}
impl<A: Le, B: Le> Le for GE<A, B> {
	fn spec<C: LeC>(&self) -> Value {
		match self {
			GE::Left(a) => spec_mix::<C>(a.spec::<C>(), 0),
			GE::Right { b, n } => spec_mix::<C>(spec_vec::<C>(&[b.spec::<C>(), n.spec::<C>()], None), 1),
			GE::Neither => spec_mix::<C>(Value::default(), 2),
		}
	}
	fn nth(k: u64) -> Self { match k % 3 { 0 => GE::Left(A::nth(k / 3)), 1 => GE::Right { b: B::nth(k), n: u8::nth(k + 1) }, _ => GE::Neither } }
	fn any(cx: &mut Cx) -> Self { match cx.choose(3) { 0 => GE::Left(A::any(cx)), 1 => GE::Right { b: B::any(cx), n: u8::any(cx) }, _ => GE::Neither } }
}
impl<C: Config> Le for GC<C> {
	fn spec<X: LeC>(&self) -> Value { spec_vec::<X>(&[self.a.spec::<X>(), spec_packed::<X, u64>(&self.d[..], None), spec_mix::<X>(spec_packed::<X, u64>(&self.e.0, Some(C::E::to_u64())), self.e.0.len() as u64), self.f.spec::<X>(), self.g.spec::<X>()], None) }
	fn nth(k: u64) -> Self { GC { a: u32::nth(k), d: GenericArray::nth(k + 1), e: MaxVec::nth(k + 2), f: MaxVec::nth(k + 3), g: GenericArray::nth(k + 4) } }
	fn any(cx: &mut Cx) -> Self { let k = cx.choose(30) as u64; Self::nth(k) }
}

fn value<T: Le>(cx: &mut Cx, flags: u32) -> Res {
	let v = T::any(cx);
	match cx.choose(3) { 0 => value_case::<T, Dyn>(cx, &v, flags), 1 => on(UNI, || value_case::<T, Dyn>(cx, &v, flags)), _ => on(SHA, || value_case::<T, Dyn>(cx, &v, flags & !TRIP)) }
}
fn family<T: Le>(cx: &mut Cx, flags: u32) -> Res {
	let v = T::nth(cx.choose(40) as u64);
	let got = Value(tree_root::<Sha256, T>(&v));
	ensure_eq!(got, on(SHA, || v.spec::<Dyn>()), "tree_root of {:?}", v);
	value_case::<T, Dyn>(cx, &v, flags)
}

/// Every tag and a choice of payloads, stored as a tree by hand.
fn tags<T: Tagged>(cx: &mut Cx, _: u32) -> Res {
	let vs = T::variants();
	let n = vs.len();
	let mut db = Mem::<Dyn>::default();
	// a payload: that of some variant, nothing, a leaf
	let of = cx.choose(n + 3);
	let (payload, from) = if of < n {
		let v = T::of(of, cx);
		let root = put::<_, Dyn>(&v, &mut db).map_err(Fail)?;
		let p = v.payload::<Dyn>();
		ensure_eq!(root, spec_mix::<Dyn>(p.clone(), of as u64), "root of {:?}", v);
		(p, Some(v))
	} else { (match of - n { 0 => Value::default(), 1 => Value::leaf(3), _ => len_value(1) }, None) };
	// with many variants, only some tags with each
	if n > 64 && of < n && ![0, 1, 3, 4, 43, 44, 128, 253, 254, 255, 256, 257, 258, 298, 299].contains(&of) && !cx.thorough { return Ok(()) }
	let k = cx.choose(n + 3 + 256 + 64 + 5);
	let tag: [u8; 32] = {
		let t = if k < n + 3 { U256::from(k) } else if k < n + 3 + 256 { U256::one() << (k - n - 3) } else if k < n + 3 + 256 + 64 { (U256::one() << 64) * U256::from(k - n - 3 - 255) + U256::from((k - n) % (n + 1)) } else { [U256::max_value(), U256::from(u64::max_value()), U256::from(u64::max_value()) + U256::one(), U256::from(1u64 << 32), U256::from((1u64 << 32) + 1)][k - n - 3 - 256 - 64] };
		let mut b = [0; 32];
		t.to_little_endian(&mut b);
		b
	};
	let known = (0..n).find(|i| len_value::<Value>(*i as u64) == val(tag));
	let root = Dyn::hash(&payload, &val(tag));
	db.insert(root.clone(), (payload.clone(), val(tag))).map_err(|e| Fail(format!("{:?}", e)))?;
	cx.note(|| format!("{}: payload {:?}, tag {:?}", std::any::type_name::<T>(), from, &tag[..9]));
	if !cx.transition() { return Ok(()) }
	let got = take::<T, Dyn>(&root, &mut db);
	let what = || format!("decoding {} with payload of {:?} ({}) and tag {:?}", std::any::type_name::<T>(), from, payload.short(), &tag[..]);
	match known {
		None => ensure_eq!(got, Err("CorruptedDatabase".into()), "{}", what()),
		Some(i) => {
			if vs[i].1 && payload != Value::default() { ensure_eq!(got, Err("CorruptedDatabase".into()), "{}, a unit variant", what()); }
			if vs[i].1 && payload == Value::default() { ensure!(got.as_ref().map(|g| g.tag() == i).unwrap_or(false), "{}: got {:?}", what(), got); }
			if from.as_ref().map(|v| v.tag() == i).unwrap_or(false) { ensure_eq!(got, Ok(from.clone().unwrap()), "{}", what()); }
			// whatever is accepted is of the variant that the tag names
			if let Ok(g) = &got { ensure_eq!(g.tag(), i, "{}: variant of {:?}", what(), g); }
		},
	}
	cx.eval(1);
	cx.state(H::new().b(root.as_ref()).s(std::any::type_name::<T>()));
	Ok(())
}

/// Values of all derived types.
pub fn values(r: &mut Runner, flags: u32) {
	let pairs = |f: usize| -> Vec<TypeFn> {
		macro_rules! all { ($g:ident) => { types![$g: N0, N1, N2, N3, N4, N5, N6, N7, N8, N9, C1, C2, C3, C5, L3, D2, D3, D4, P0, P1, P2, P3, P4, P5, P6, P7, P8, P9, PC, Unit,
			E1, E2, E3, EF, EN, EC, EL, ED, EE, E1F, E20, E300,
			G1<u8>, G1<Vec<u8>>, G1<G1<N2>>, G3<u16, bool>, G3<H512, Option<u8>>, GP<u8, bool>, GP<N2, E2>, GE<u8, u16>, GE<N2, Vec<u8>>, GE<GE<u8, u8>, GP<bool, bool>>, GC<Small>, GC<Large>] } }
		if f == 0 { all!(value) } else { let mut v: Vec<TypeFn> = all!(family); v.extend::<Vec<TypeFn>>(types![family: N17, C4, D5, P11, PL]); v }
	};
	let t = pairs(0);
	r.dfs("every value of every derived type", 0, |cx| { let (n, f) = t[cx.choose(t.len())]; cx.note(|| n.to_string()); f(cx, flags) });
	let t = pairs(1);
	r.dfs("a family of values of derived types", 0, |cx| { let (n, f) = t[cx.choose(t.len())]; cx.note(|| n.to_string()); f(cx, flags) });
}

/// Tags and lengths mixed in directly.
fn mixed_in(cx: &mut Cx, length: bool) -> Res {
	let b = cx.choose(64);
	let n = (1u128 << b) as i128 + cx.pick(&[-2i128, -1, 0, 1, 2, 5, 100]);
	let n = if n < 0 { usize::max_value() } else { n as usize };
	let k = cx.choose(4) as u64;
	fn go<T: Le>(n: usize, k: u64, length: bool) -> Res {
		let v = T::nth(k);
		let mut db = Mem::<Dyn>::default();
		let e = |e| Fail(format!("{:?}", e));
		let what = || format!("{:?} with {} {} mixed in", v, if length { "length" } else { "tag" }, n);
		let root = { let db = &mut Any::<Dyn>(&mut db); if length { utils::mix_in_length(&v, db, n) } else { utils::mix_in_type(&v, db, n) }.map_err(e)? };
		ensure_eq!(root, spec_mix::<Dyn>(v.spec::<Dyn>(), n as u64), "root of {}", what());
		let db = &mut Any::<Dyn>(&mut db);
		if length {
			ensure_eq!(utils::decode_with_length::<T, _>(&root, db), Ok((v.clone(), n)), "decoding {}", what());
		} else {
			let got = utils::decode_with_type(&root, db, |value, db, ty| Ok((T::from_tree(value, db)?, ty)));
			ensure_eq!(got, Ok((v.clone(), n)), "decoding {}", what());
		}
		Ok(())
	}
	cx.note(|| format!("{} mixed in", n));
	on([0, UNI][cx.choose(2)], || { go::<u8>(n, k, length)?; go::<H256>(n, k, length)?; go::<N3>(n, k, length)?; go::<Vec<u8>>(n, k, length) })?;
	cx.eval(8);
	cx.transition();
	cx.state(H::new().u(n as u64).u(k).u(length as u64));
	Ok(())
}
/// Lengths mixed in directly (C10, C11).
pub fn lengths(r: &mut Runner) { r.dfs("lengths mixed in", 0, |cx| mixed_in(cx, true)); }

pub fn c12(r: &mut Runner) {
	r.dfs("tags mixed in", 0, |cx| mixed_in(cx, false));
	values(r, ROOT | TRIP);
	let t: Vec<TypeFn> = types![tags: E1, E2, E3, EF, EN, EC, EL, ED, EE, E1F, E20, E300];
	r.dfs("every tag", 0, |cx| { let (_, f) = t[cx.choose(t.len())]; f(cx, 0) });
}
