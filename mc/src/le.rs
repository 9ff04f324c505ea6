//! Values of the bm-le types, and what ssz says about them (C10, C11).

use crate::engine::*;
use crate::hash::*;
use bm::{Raw, Owned, Tree, Index, WriteBackend, Backend, Error};
use bm_le::*;
use generic_array::{ArrayLength, GenericArray};
use primitive_types::{H256, H512, U256};
use std::convert::TryFrom;
use std::fmt::Debug;
use typenum::*;
use vecarray::VecArray;

/// Constructs of ssz trees.
pub trait LeC: Spec<V = Value, Value = Value> { }
impl<C: Spec<V = Value, Value = Value>> LeC for C { }

/// A type under test: its values and their root by the ssz specification.
pub trait Le: IntoTree + FromTree + Clone + PartialEq + Debug + 'static {
	fn spec<C: LeC>(&self) -> Value;
	/// A family of values; number 0 is the all-zero one.
	fn nth(k: u64) -> Self;
	/// A few values, all of them explored.
	fn any(cx: &mut Cx) -> Self;
}

/// Types with a packed form.
pub trait Pack: Le {
	/// Serialization of a sequence, little endian, without gaps.
	fn pack(v: &[Self]) -> Vec<u8>;
	/// Number of bytes for `n` elements.
	fn bytes(n: u64) -> u128;
}

pub fn to_chunks(b: &[u8]) -> Vec<Value> { b.chunks(32).map(|c| Value::of(c)).collect() }
pub fn chunk_limit(bytes: u128) -> u64 { ((bytes + 31) / 32) as u64 }
pub fn spec_vec<C: LeC>(leaves: &[Value], limit: Option<u64>) -> Value { tree::<C>(leaves, depth_for(limit.unwrap_or(leaves.len() as u64))) }
pub fn spec_mix<C: LeC>(v: Value, n: u64) -> Value { C::hash(&v, &len_value(n)) }
pub fn spec_roots<C: LeC, T: Le>(v: &[T]) -> Vec<Value> { v.iter().map(|x| x.spec::<C>()).collect() }
pub fn spec_packed<C: LeC, T: Pack>(v: &[T], limit: Option<u64>) -> Value { spec_vec::<C>(&to_chunks(&T::pack(v)), limit.map(|l| chunk_limit(T::bytes(l)))) }

/// Byte `i` of pattern `k`.
fn pat(k: u64, i: usize) -> u8 {
	if k == 0 { return 0 }
	if k == 1 { return 255 }
	let x = (k.wrapping_mul(0x9e3779b97f4a7c15) ^ (i as u64 + 1).wrapping_mul(0xc2b2ae3d27d4eb4f)).wrapping_mul(0xd6e8feb86659fd93);
	(x >> 40) as u8 | ((x >> 33) as u8 & 1)
}
fn bytes_of<const N: usize>(k: u64) -> [u8; N] { let mut b = [0; N]; for i in 0..N { b[i] = pat(k, i); } b }

macro_rules! le_uint { ($($t:ty, $n:expr;)*) => { $(
	impl Le for $t {
		fn spec<C: LeC>(&self) -> Value { let mut v = *self as u128; let mut b = [0u8; 32]; for i in 0..16 { b[i] = v as u8; v >>= 8; } val(b) }
		fn nth(k: u64) -> Self { let mut v: u128 = 0; for i in (0..$n).rev() { v = v << 8 | pat(k, i) as u128; } v as $t }
		fn any(cx: &mut Cx) -> Self { Self::nth(cx.choose(3) as u64) }
	}
	impl Pack for $t {
		fn pack(v: &[Self]) -> Vec<u8> { let mut o = vec![]; for x in v { let mut x = *x as u128; for _ in 0..$n { o.push(x as u8); x >>= 8; } } o }
		fn bytes(n: u64) -> u128 { n as u128 * $n }
	}
)* } }
le_uint! { u8, 1; u16, 2; u32, 4; u64, 8; u128, 16; }

fn u256_bytes(x: &U256) -> [u8; 32] { let mut b = [0; 32]; for i in 0..32 { b[i] = x.byte(i); } b }
impl Le for U256 {
	fn spec<C: LeC>(&self) -> Value { val(u256_bytes(self)) }
	fn nth(k: u64) -> Self { let mut x = U256::zero(); for i in (0..32).rev() { x = (x << 8) + U256::from(pat(k, i)); } x }
	fn any(cx: &mut Cx) -> Self { Self::nth(cx.choose(3) as u64) }
}
impl Pack for U256 {
	fn pack(v: &[Self]) -> Vec<u8> { v.iter().flat_map(|x| u256_bytes(x).to_vec()).collect() }
	fn bytes(n: u64) -> u128 { n as u128 * 32 }
}
impl Le for bool {
	fn spec<C: LeC>(&self) -> Value { (*self as u8).spec::<C>() }
	fn nth(k: u64) -> Self { match k { 0 => false, 1 => true, k => pat(k / 8 + 2, 3) >> (k % 8) & 1 == 1 } }
	fn any(cx: &mut Cx) -> Self { cx.choose(2) == 1 }
}
impl Pack for bool {
	fn pack(v: &[Self]) -> Vec<u8> { v.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a + if *b { 1 << i } else { 0 })).collect() }
	fn bytes(n: u64) -> u128 { (n as u128 + 7) / 8 }
}
impl Le for Value {
	fn spec<C: LeC>(&self) -> Value { self.clone() }
	fn nth(k: u64) -> Self { val(bytes_of(k)) }
	fn any(cx: &mut Cx) -> Self { Self::nth(2 * cx.choose(2) as u64) }
}
impl Le for H256 {
	fn spec<C: LeC>(&self) -> Value { Value::of(&self[..]) }
	fn nth(k: u64) -> Self { H256::from(bytes_of::<32>(k)) }
	fn any(cx: &mut Cx) -> Self { Self::nth(2 * cx.choose(2) as u64) }
}
impl Le for H512 {
	fn spec<C: LeC>(&self) -> Value { C::hash(&Value::of(&self[..32]), &Value::of(&self[32..])) }
	fn nth(k: u64) -> Self { H512::from(bytes_of::<64>(k)) }
	fn any(cx: &mut Cx) -> Self { Self::nth(2 * cx.choose(2) as u64) }
}
impl Le for () {
	fn spec<C: LeC>(&self) -> Value { Value::default() }
	fn nth(_: u64) -> Self { }
	fn any(_: &mut Cx) -> Self { }
}
impl<T: Le> Le for Option<T> {
	fn spec<C: LeC>(&self) -> Value { match self { None => spec_mix::<C>(Value::default(), 0), Some(x) => spec_mix::<C>(x.spec::<C>(), 1) } }
	fn nth(k: u64) -> Self { if k == 0 { None } else { Some(T::nth(k - 1)) } }
	fn any(cx: &mut Cx) -> Self { if cx.choose(2) == 0 { None } else { Some(T::any(cx)) } }
}
impl<T: Le> Le for Box<T> {
	fn spec<C: LeC>(&self) -> Value { (**self).spec::<C>() }
	fn nth(k: u64) -> Self { Box::new(T::nth(k)) }
	fn any(cx: &mut Cx) -> Self { Box::new(T::any(cx)) }
}
macro_rules! le_tuple { ($($($t:ident $i:tt),+;)*) => { $(
	impl<$($t: Le),+> Le for ($($t),+) {
		fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[$(self.$i.spec::<C>()),+], None) }
		fn nth(k: u64) -> Self { ($($t::nth(if k == 0 { 0 } else { k + $i })),+) }
		fn any(cx: &mut Cx) -> Self { ($($t::any(cx)),+) }
	}
)* } }
le_tuple! {
	T0 0, T1 1;
	T0 0, T1 1, T2 2;
	T0 0, T1 1, T2 2, T3 3;
	T0 0, T1 1, T2 2, T3 3, T4 4;
	T0 0, T1 1, T2 2, T3 3, T4 4, T5 5;
	T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6;
	T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7;
	T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8;
}
pub fn seq<T: Le>(k: u64, n: usize) -> Vec<T> { (0..n).map(|i| T::nth(if k < 2 { k } else { k + i as u64 })).collect() }
macro_rules! le_array { ($($n:expr),*) => { $(
	impl<T: Le + Default + Copy> Le for [T; $n] {
		fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&spec_roots::<C, T>(&self[..]), None) }
		fn nth(k: u64) -> Self { <[T; $n]>::try_from(&seq::<T>(k, $n)[..]).unwrap() }
		fn any(cx: &mut Cx) -> Self { if $n <= 3 { let mut a = [T::default(); $n]; for i in 0..$n { a[i] = T::any(cx); } a } else { Self::nth(cx.choose(3) as u64) } }
	}
)* } }
le_array!(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32);
fn few<T: Le>(cx: &mut Cx, n: usize) -> Vec<T> { if n <= 3 { (0..n).map(|_| T::any(cx)).collect() } else { let k = cx.choose(3) as u64; seq(k, n) } }
impl<T: Le, L: ArrayLength<T> + 'static> Le for GenericArray<T, L> {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&spec_roots::<C, T>(&self[..]), None) }
	fn nth(k: u64) -> Self { GenericArray::from_exact_iter(seq::<T>(k, L::to_usize())).unwrap() }
	fn any(cx: &mut Cx) -> Self { GenericArray::from_exact_iter(few::<T>(cx, L::to_usize())).unwrap() }
}
impl<T: Le, L: Unsigned + Clone + PartialEq + Debug + 'static> Le for VecArray<T, L> {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&spec_roots::<C, T>(&self[..]), None) }
	fn nth(k: u64) -> Self { VecArray::try_from(seq::<T>(k, L::to_usize())).ok().unwrap() }
	fn any(cx: &mut Cx) -> Self { VecArray::try_from(few::<T>(cx, L::to_usize())).ok().unwrap() }
}
impl<T: Le> Le for Vec<T> {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(spec_vec::<C>(&spec_roots::<C, T>(self), None), self.len() as u64) }
	fn nth(k: u64) -> Self { seq(k, (k as usize * 2) % 7) }
	fn any(cx: &mut Cx) -> Self { let n = cx.choose(4); few(cx, n) }
}
pub trait Lim: Unsigned + Clone + PartialEq + Debug + 'static { }
impl<L: Unsigned + Clone + PartialEq + Debug + 'static> Lim for L { }
impl<T: Le, L: Lim> Le for MaxVec<T, L> {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(spec_vec::<C>(&spec_roots::<C, T>(self), Some(L::to_u64())), self.len() as u64) }
	fn nth(k: u64) -> Self { seq(k, ((k * 2) % 7).min(L::to_u64()) as usize).into() }
	fn any(cx: &mut Cx) -> Self { let n = cx.choose(L::to_u64().min(3) as usize + 1); few(cx, n).into() }
}
impl<T: Pack + Default, L: ArrayLength<T> + 'static> Le for Compact<GenericArray<T, L>> where for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, ElementalFixedVec<T>: FromCompactVectorTree {
	fn spec<C: LeC>(&self) -> Value { spec_packed::<C, T>(&self.0[..], None) }
	fn nth(k: u64) -> Self { Compact(GenericArray::nth(k)) }
	fn any(cx: &mut Cx) -> Self { Compact(GenericArray::any(cx)) }
}
impl<T: Pack + Default, L: Lim> Le for Compact<VecArray<T, L>> where for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, ElementalFixedVec<T>: FromCompactVectorTree {
	fn spec<C: LeC>(&self) -> Value { spec_packed::<C, T>(&self.0[..], None) }
	fn nth(k: u64) -> Self { Compact(VecArray::nth(k)) }
	fn any(cx: &mut Cx) -> Self { Compact(VecArray::any(cx)) }
}
impl<T: Pack, L: Lim> Le for Compact<MaxVec<T, L>> where for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree, ElementalFixedVec<T>: FromCompactVectorTree {
	fn spec<C: LeC>(&self) -> Value { spec_mix::<C>(spec_packed::<C, T>(&(self.0).0, Some(L::to_u64())), (self.0).0.len() as u64) }
	fn nth(k: u64) -> Self { Compact(MaxVec::nth(k)) }
	fn any(cx: &mut Cx) -> Self { Compact(MaxVec::any(cx)) }
}

// ---- what is checked of a value ----

/// Something that has a tree: merkleized by `put`, expected root, decoded by `get`.
pub struct Case<'a, C: LeC> {
	pub put: &'a dyn Fn(&mut Mem<C>) -> Result<Value, String>,
	pub want: Value,
	/// Whether decoding from a root gives the value back.
	pub get: &'a dyn Fn(&Value, &mut Mem<C>) -> Result<bool, String>,
	pub name: &'a dyn Fn() -> String,
}

pub fn er<T, E: Debug>(r: Result<T, Error<E>>) -> Result<T, String> {
	r.map_err(|e| match e { Error::CorruptedDatabase => "CorruptedDatabase".into(), Error::AccessOverflowed => "AccessOverflowed".into(), Error::InvalidParameter => "InvalidParameter".into(), Error::Backend(e) => format!("Backend({:?})", e) })
}

/// `into_tree` and `from_tree`, compiled once for all backends.
pub fn put<T: IntoTree, C: LeC>(v: &T, db: &mut dyn Db<Value>) -> Result<Value, String> { er(v.into_tree(&mut Any::<C>(db))) }
pub fn take<T: FromTree, C: LeC>(root: &Value, db: &mut dyn Db<Value>) -> Result<T, String> { er(T::from_tree(root, &mut Any::<C>(db))) }

pub fn check_root<C: LeC>(c: &Case<C>) -> Res {
	let mut db = Mem::<C>::default();
	let got = (c.put)(&mut db);
	ensure_eq!(got, Ok(c.want.clone()), "root of {} over {}", (c.name)(), C::name());
	// again, into the same database
	let got = (c.put)(&mut db);
	ensure_eq!(got, Ok(c.want.clone()), "root of {} merkleized a second time", (c.name)());
	Ok(())
}

pub fn check_trip<C: LeC>(c: &Case<C>, others: &[&dyn Fn(&mut Mem<C>) -> Result<Value, String>]) -> Res<u64> {
	let mut n = 0;
	let put = |db: &mut Mem<C>| -> Res<Value> { match (c.put)(db) { Ok(r) => Ok(r), Err(e) => Err(Fail(format!("{} cannot be merkleized: {}", (c.name)(), e))) } };
	let back = |root: &Value, db: &mut Mem<C>, env: &str| -> Res {
		let got = (c.get)(root, db);
		ensure!(got == Ok(true), "decoding {} over {}, {}: {}", (c.name)(), C::name(), env, match got { Ok(_) => "gives another value".to_string(), Err(e) => e });
		Ok(())
	};
	// alone
	let mut db = Mem::<C>::default();
	let root = put(&mut db)?;
	back(&root, &mut db, "alone")?;
	let alone = db;
	n += 1;
	// others before
	let mut db = Mem::<C>::default();
	for o in others { let _ = o(&mut db); }
	let root = put(&mut db)?;
	back(&root, &mut db, "other values before")?;
	// others after
	let mut db = Mem::<C>::default();
	let root = put(&mut db)?;
	for o in others { let _ = o(&mut db); }
	back(&root, &mut db, "other values after")?;
	n += 2;
	// every node of its tree is known as a child of something else before
	let keys: Vec<Value> = { let mut k: Vec<Value> = alone.as_ref().keys().cloned().collect(); k.sort(); k };
	if keys.len() <= 40 {
		let mut db = Mem::<C>::default();
		for k in &keys { let z = C::hash(k, &Value::leaf(77)); db.insert(z, (k.clone(), Value::leaf(77))).unwrap(); }
		let root = put(&mut db)?;
		back(&root, &mut db, "after trees in which its nodes are leaves")?;
		n += 1;
	}
	// owned, next to other owned trees that come and go
	let mut db = Mem::<C>::default();
	let hold = |root: Value, db: &mut Mem<C>| -> Raw<Owned, C> { let mut r = Raw::default(); r.set(db, Index::root(), root).unwrap(); r };
	let mut held = vec![];
	for o in others { if let Ok(r) = o(&mut db) { held.push(hold(r, &mut db)); } }
	let root = put(&mut db)?;
	let mine = hold(root.clone(), &mut db);
	for o in others { if let Ok(r) = o(&mut db) { held.push(hold(r, &mut db)); } }
	for h in held { h.drop(&mut db).unwrap(); }
	back(&root, &mut db, "owned, after other trees were dropped")?;
	// only what it consists of is kept
	mine.drop(&mut db).unwrap();
	n += 1;
	Ok(n)
}

pub const ROOT: u32 = 1;
pub const TRIP: u32 = 2;
/// Over all kinds of backends.
pub const WRAP: u32 = 4;

/// A value of a type with its own impls.
pub fn value_case<T: Le, C: LeC>(cx: &mut Cx, v: &T, flags: u32) -> Res {
	let put = |db: &mut Mem<C>| put::<T, C>(v, db);
	let get = |root: &Value, db: &mut Mem<C>| take::<T, C>(root, db).map(|g| g == *v);
	let name = || format!("{:?}: {}", v, std::any::type_name::<T>());
	let c = Case::<C> { put: &put, want: v.spec::<C>(), get: &get, name: &name };
	cx.note(name);
	if flags & ROOT != 0 { check_root(&c)?; cx.eval(2); }
	if flags & TRIP != 0 {
		let o: Vec<T> = (0..4).map(|k| T::nth(k)).collect();
		let puts: Vec<Box<dyn Fn(&mut Mem<C>) -> Result<Value, String>>> = o.iter().map(|x| { let x = x.clone(); Box::new(move |db: &mut Mem<C>| self::put::<T, C>(&x, db)) as Box<dyn Fn(&mut Mem<C>) -> Result<Value, String>> }).collect();
		let refs: Vec<&dyn Fn(&mut Mem<C>) -> Result<Value, String>> = puts.iter().map(|b| &**b).collect();
		let n = check_trip(&c, &refs)?;
		cx.eval(n);
	}
	if flags & WRAP != 0 { return crate::wrap::value::<T, C>(cx, v) }
	cx.transition();
	cx.state(H::new().b(c.want.as_ref()).s(std::any::type_name::<T>()).s(C::name()));
	Ok(())
}

macro_rules! over { ($cx:expr, $f:ident, $t:ty, $($a:expr),*) => { match $cx.choose(3) {
	0 => $f::<$t, Dyn>($cx, $($a),*), 1 => on(UNI, || $f::<$t, Dyn>($cx, $($a),*)), _ => on(SHA, || $f::<$t, Dyn>($cx, $($a),*)),
} } }

/// All values `any` gives.
fn all_of<T: Le>(cx: &mut Cx, flags: u32) -> Res { let v = T::any(cx); over!(cx, value_case, T, &v, flags) }
/// The family `nth`.
fn family<T: Le>(cx: &mut Cx, flags: u32) -> Res { let v = T::nth(cx.choose(12) as u64); over!(cx, value_case, T, &v, flags) }

pub type TypeFn = (&'static str, fn(&mut Cx, u32) -> Res);
macro_rules! types { ($f:ident: $($t:ty),* $(,)?) => { vec![$((stringify!($t), $f::<$t> as fn(&mut Cx, u32) -> Res)),*] } }
pub(crate) use types;

pub type N256 = typenum::U256;
pub type N512 = typenum::U512;
pub type U2_40 = typenum::U1099511627776;

/// Lists packed or not, at run-time lengths and limits.
fn listing<T: Pack, C: LeC>(cx: &mut Cx, v: &Vec<T>, max: Option<u64>, compact: bool, vector: bool, flags: u32) -> Res where
	for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, ElementalFixedVec<T>: FromCompactVectorTree, for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree,
{
	let len = v.len();
	let put = |db: &mut Mem<C>| { let db = &mut Any::<C>(db); er(match (compact, vector) {
		(true, true) => ElementalFixedVecRef(&v[..]).into_compact_vector_tree(db, max),
		(true, false) => ElementalVariableVecRef(&v[..]).into_compact_list_tree(db, max),
		(false, true) => ElementalFixedVecRef(&v[..]).into_composite_vector_tree(db, max),
		(false, false) => ElementalVariableVecRef(&v[..]).into_composite_list_tree(db, max),
	}) };
	let get = |root: &Value, db: &mut Mem<C>| { let db = &mut Any::<C>(db); er(match (compact, vector) {
		(true, true) => ElementalFixedVec::<T>::from_compact_vector_tree(root, db, len, max).map(|x| x.0),
		(true, false) => ElementalVariableVec::<T>::from_compact_list_tree(root, db, max).map(|x| x.0),
		(false, true) => ElementalFixedVec::<T>::from_composite_vector_tree(root, db, len, max).map(|x| x.0),
		(false, false) => ElementalVariableVec::<T>::from_composite_list_tree(root, db, max).map(|x| x.0),
	}).map(|g| g == *v) };
	let name = || format!("{} {}{} of {} {} with maximum {:?}: {:?}", len, if compact { "packed " } else { "" }, std::any::type_name::<T>(), if vector { "vector" } else { "list" }, C::name(), max, if len < 9 { &v[..] } else { &v[..9] });
	cx.note(&name);
	if max.map(|m| len as u64 > m).unwrap_or(false) {
		// longer than allowed: refused (a packed vector may only notice whole chunks)
		if flags & ROOT != 0 {
			let got = put(&mut Mem::<C>::default());
			if !vector || !compact { ensure_eq!(got, Err("InvalidParameter".into()), "merkleizing {}", name()); }
			cx.eval(1);
			cx.transition();
			cx.state(H::new().s(&name()));
		}
		return Ok(())
	}
	let mut want = if compact { spec_packed::<C, T>(v, max) } else { spec_vec::<C>(&spec_roots::<C, T>(v), max) };
	if !vector { want = spec_mix::<C>(want, len as u64); }
	let c = Case::<C> { put: &put, want, get: &get, name: &name };
	if flags & ROOT != 0 {
		check_root(&c)?;
		// the by-value forms
		let mut mem = Mem::<C>::default();
		let mut db = Any::<C>(&mut mem);
		let got = er(match (compact, vector) {
			(true, true) => ElementalFixedVec(v.clone()).into_compact_vector_tree(&mut db, max),
			(true, false) => ElementalVariableVec(v.clone()).into_compact_list_tree(&mut db, max),
			(false, true) => ElementalFixedVec(v.clone()).into_composite_vector_tree(&mut db, max),
			(false, false) => ElementalVariableVec(v.clone()).into_composite_list_tree(&mut db, max),
		});
		ensure_eq!(got, Ok(c.want.clone()), "root of {} by value", name());
		cx.eval(3);
	}
	if flags & WRAP != 0 { return crate::wrap::everywhere::<C, _>(cx, &crate::script::SeqScript { v, max, compact, vector }) }
	if flags & TRIP != 0 {
		let a: Vec<T> = seq(2, len / 2);
		let b: Vec<T> = seq(1, len + 1);
		let z: Vec<T> = seq(0, len);
		let f = |x: &Vec<T>, db: &mut Mem<C>| { let db = &mut Any::<C>(db); er(if compact { ElementalVariableVecRef(&x[..]).into_compact_list_tree(db, None) } else { ElementalVariableVecRef(&x[..]).into_composite_list_tree(db, max) }) };
		let (fa, fb, fz) = (|db: &mut Mem<C>| f(&a, db), |db: &mut Mem<C>| f(&b, db), |db: &mut Mem<C>| f(&z, db));
		let n = check_trip(&c, &[&fa, &fb, &fz])?;
		cx.eval(n);
	}
	cx.transition();
	cx.state(H::new().b(c.want.as_ref()).u(max.unwrap_or(u64::max_value())).u(compact as u64 * 2 + vector as u64).s(std::any::type_name::<T>()));
	Ok(())
}

fn maxima(len: u64) -> Vec<Option<u64>> {
	let mut m = vec![len, len + 1, len + 2, 2 * len + 1, len.next_power_of_two(), len.next_power_of_two() + 1, 31, 32, 33, 64, 100, 256, 257, 1 << 16, (1 << 20) + 1, 1 << 40];
	if len > 0 { m.push(len - 1); m.push(len / 2); m.push(0); }
	m.sort();
	m.dedup();
	let mut out = vec![None];
	out.extend(m.into_iter().map(Some));
	out
}

fn length_grid<T: Pack>(cx: &mut Cx, flags: u32) -> Res where
	for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, ElementalFixedVec<T>: FromCompactVectorTree, for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree,
{
	let per = (256 / T::bytes(8).max(1) as usize).max(1);
	let shape = cx.choose(4);
	let (compact, vector) = (shape & 1 == 0, shape & 2 == 0);
	let len = if compact {
		// every length up to a few chunks, then around chunk boundaries
		let mut l: Vec<usize> = (0..(if cx.thorough { 70 } else { 34 })).collect();
		for c in &[1usize, 2, 3, 4, 5, 7, 8, 9] { for d in 0..3 { let x = (c * per + d).saturating_sub(1); if x <= 1100 && (cx.thorough || *c <= 5 || per <= 32) { l.push(x); } } }
		l.sort();
		l.dedup();
		cx.pick(&l)
	} else { let n = if cx.thorough { 34 } else { 18 }; cx.choose(n) };
	let max = cx.pick(&maxima(len as u64));
	let v: Vec<T> = seq(if len == 0 { 0 } else { cx.choose(3) as u64 }, len);
	match cx.choose(2) { 0 => listing::<T, Dyn>(cx, &v, max, compact, vector, flags), _ => on(UNI, || listing::<T, Dyn>(cx, &v, max, compact, vector, flags)) }
}

pub fn grid(r: &mut Runner, flags: u32) {
	r.dfs("every type, every small value", 0, |cx| {
		let t: Vec<TypeFn> = types![all_of: bool, u8, u16, u32, u64, u128, U256, Value, H256, H512, (), Option<u16>, Option<()>, Option<Option<bool>>, Option<H512>, Option<Vec<u8>>, Box<u64>, Box<Option<Box<u8>>>,
			(u8, u16), (u8, u16, u32), (bool, U256, u64, H256), (u8, bool, u16, bool, u8), (bool, bool, bool, bool, bool, bool), (bool, u8, bool, bool, (), bool, H256), (bool, bool, bool, u16, bool, bool, bool, bool), (bool, bool, bool, bool, bool, bool, bool, bool, u8),
			((u8, u8), (u8, u8)), (Vec<u8>, Vec<u16>), (Option<u8>, Vec<u8>, H512), ((), ()), ((), u8, ()),
			[u8; 1], [u16; 2], [u64; 3], [H256; 2], [(u8, bool); 2], [[u8; 2]; 2], [Option<bool>; 3],
			GenericArray<u8, U0>, GenericArray<u16, U1>, GenericArray<Vec<u8>, U2>, GenericArray<Option<u8>, U3>,
			VecArray<u8, U0>, VecArray<u16, U1>, VecArray<Vec<u8>, U2>, VecArray<(u8, Option<bool>), U3>,
			Vec<u8>, Vec<bool>, Vec<U256>, Vec<H256>, Vec<H512>, Vec<()>, Vec<Option<bool>>, Vec<Vec<bool>>, Vec<(u8, bool)>, Vec<Box<u8>>,
			MaxVec<u8, U0>, MaxVec<u8, U1>, MaxVec<u64, U2>, MaxVec<u64, U3>, MaxVec<u16, U5>, MaxVec<H256, U9>, MaxVec<H512, U4>, MaxVec<u8, U2_40>, MaxVec<Vec<bool>, U2>, MaxVec<MaxVec<u8, U3>, U2>, MaxVec<Option<u8>, U3>, MaxVec<(u8, Vec<bool>), U2>,
			Compact<GenericArray<u8, U0>>, Compact<GenericArray<bool, U3>>, Compact<GenericArray<u64, U3>>, Compact<GenericArray<U256, U2>>, Compact<GenericArray<u128, U3>>,
			Compact<VecArray<bool, U2>>, Compact<VecArray<u32, U3>>, Compact<VecArray<U256, U3>>,
			Compact<MaxVec<u8, U0>>, Compact<MaxVec<bool, U3>>, Compact<MaxVec<u8, U5>>, Compact<MaxVec<u64, U9>>, Compact<MaxVec<u128, U3>>, Compact<MaxVec<U256, U2>>, Compact<MaxVec<U256, U5>>, Compact<MaxVec<u8, U2_40>>, Compact<MaxVec<bool, U2_40>>,
			Vec<Compact<MaxVec<bool, U9>>>, MaxVec<Compact<MaxVec<u8, U33>>, U2>, (Compact<GenericArray<u8, U2>>, Compact<MaxVec<bool, U3>>), Option<Compact<VecArray<u16, U2>>>, Vec<Option<(bool, Vec<bool>)>>];
		let (n, f) = t[cx.choose(t.len())];
		cx.note(|| n.to_string());
		f(cx, flags)
	});
	r.dfs("every type, a family of values", 0, |cx| {
		let mut t: Vec<TypeFn> = types![family: u8, u16, u32, u64, u128, U256, Value, H256, H512, Option<U256>, Option<H512>, (u128, U256), (H512, H512, H512), (u8, u16, u32, u64, u128, U256, bool, H256, H512),
			Vec<u8>, Vec<u16>, Vec<u128>, Vec<U256>, Vec<H512>, Vec<Vec<u16>>, Vec<Vec<Vec<u8>>>, Vec<(u8, Vec<u16>)>,
			MaxVec<u8, U7>, MaxVec<u64, U8>, MaxVec<H256, U1024>, MaxVec<U256, U2_40>, MaxVec<Vec<u64>, U16>];
		t.extend::<Vec<TypeFn>>(types![family: [u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8], [u8; 9], [u8; 10], [u8; 11], [u8; 12], [u8; 13], [u8; 14], [u8; 15], [u8; 16], [u8; 17], [u8; 18], [u8; 19], [u8; 20], [u8; 21], [u8; 22], [u8; 23], [u8; 24], [u8; 25], [u8; 26], [u8; 27], [u8; 28], [u8; 29], [u8; 30], [u8; 31], [u8; 32],
			[H256; 5], [u128; 8], [U256; 9], [(u8, u16); 5], [[u8; 3]; 4], [H512; 3]]);
		macro_rules! compacts { ($($n:ty),*) => { $( t.extend::<Vec<TypeFn>>(types![family: Compact<GenericArray<u8, $n>>, Compact<GenericArray<u64, $n>>, Compact<VecArray<u16, $n>>, Compact<VecArray<bool, $n>>, Compact<GenericArray<bool, $n>>, Compact<GenericArray<U256, $n>>, Compact<VecArray<u128, $n>>, Compact<VecArray<U256, $n>>, Compact<GenericArray<u32, $n>>, GenericArray<u16, $n>, VecArray<H256, $n>]); )* } }
		compacts!(U1, U2, U3, U4, U5, U7, U8, U9, U15, U16, U17, U31, U32, U33, U63, U64, U65, U127, U128, U129, U255, N256, U257);
		macro_rules! limits { ($($n:ty),*) => { $( t.extend::<Vec<TypeFn>>(types![family: Compact<MaxVec<u8, $n>>, Compact<MaxVec<u64, $n>>, Compact<MaxVec<bool, $n>>, Compact<MaxVec<U256, $n>>, Compact<MaxVec<u16, $n>>, MaxVec<u32, $n>, MaxVec<H256, $n>]); )* } }
		limits!(U1, U2, U3, U4, U5, U6, U7, U8, U9, U16, U17, U31, U32, U33, U64, U65, U128, U129, N256, U257, N512, U513, U1024, U4096, U65536, U2_40);
		let (n, f) = t[cx.choose(t.len())];
		cx.note(|| n.to_string());
		f(cx, flags)
	});
	r.dfs("every length and limit", 0, |cx| {
		let t: Vec<TypeFn> = vec![("u8", length_grid::<u8>), ("u16", length_grid::<u16>), ("u32", length_grid::<u32>), ("u64", length_grid::<u64>), ("u128", length_grid::<u128>), ("U256", length_grid::<U256>), ("bool", length_grid::<bool>)];
		let (_, f) = t[cx.choose(t.len())];
		f(cx, flags)
	});
	r.dfs("limits around every power of two", 0, |cx| {
		fn go<T: Pack>(cx: &mut Cx, flags: u32) -> Res where
			for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, ElementalFixedVec<T>: FromCompactVectorTree, for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree,
		{
			let b = cx.choose(63);
			let base = 1i128 << b;
			let limit = base + cx.pick(&[-2i128, -1, 0, 1, 2, base / 2, base / 2 + 1, base / 3, base / 128 + 1]);
			if limit < 0 || limit >= 1 << 63 { return Ok(()) }
			let v: Vec<T> = seq(3, cx.pick(&[0usize, 1, 2, 3, 40]));
			let (vector, compact) = (cx.choose(2) == 0, cx.choose(2) == 0);
			// vectors have no limit beside their length in any type, but are merkleized with one
			if cx.choose(2) == 0 { listing::<T, Dyn>(cx, &v, Some(limit as u64), compact, vector, flags) } else { on(UNI, || listing::<T, Dyn>(cx, &v, Some(limit as u64), compact, vector, flags)) }
		}
		let t: Vec<TypeFn> = vec![("u8", go::<u8>), ("u32", go::<u32>), ("u64", go::<u64>), ("U256", go::<U256>), ("bool", go::<bool>)];
		let (_, f) = t[cx.choose(t.len())];
		f(cx, flags)
	});
	r.dfs("long lists", 0, |cx| {
		let n = cx.pick(&[255usize, 256, 257, 511, 512, 4095, 4096, 4097, 65535, 65536, 65537, 65600]);
		let max = cx.pick(&[None, Some(n as u64), Some(n as u64 + 1), Some(1 << 40)]);
		let vector = cx.choose(2) == 0;
		let compact = cx.choose(2) == 0;
		match cx.choose(2) { 0 => listing::<u8, Dyn>(cx, &seq(3, n), max, compact, vector, flags), _ => listing::<bool, Dyn>(cx, &seq(3, n), max, compact, vector, flags) }
	});
	let n = if r.thorough { 14 } else { 11 };
	r.dfs("every bit vector and bit list", 0, |cx| {
		let len = cx.choose(n + 1);
		let hi = cx.choose(1 << len.min(6));
		let shape = cx.choose(2) == 0;
		for lo in 0..1usize << (len - len.min(6)) {
			let x = hi << (len - len.min(6)) | lo;
			let v: Vec<bool> = (0..len).map(|i| x >> i & 1 == 1).collect();
			listing::<bool, Dyn>(cx, &v, None, true, shape, flags)?;
			listing::<bool, Dyn>(cx, &v, Some(n as u64), true, shape, flags)?;
		}
		Ok(())
	});
	r.dfs("single bits and single bytes", 0, |cx| {
		let n = 600;
		let len = cx.pick(&[1usize, 7, 8, 9, 255, 256, 257, 511, 512, 513, 600]);
		let at = cx.choose(n);
		if at >= len { return Ok(()) }
		let v: Vec<bool> = (0..len).map(|i| i == at).collect();
		let vector = cx.choose(2) == 0;
		listing::<bool, Dyn>(cx, &v, None, true, vector, flags)?;
		let v: Vec<u8> = (0..len).map(|i| (i == at) as u8 * 0x81).collect();
		listing::<u8, Dyn>(cx, &v, Some(1000), true, vector, flags)
	});
	r.dfs("every integer of 8 and 16 bits, every power of two", 0, |cx| {
		let hi = cx.choose(256);
		if hi == 0 { for x in 0..=255u8 { value_case::<u8, Dyn>(cx, &x, flags)?; } }
		for lo in 0..256 { value_case::<u16, Dyn>(cx, &((hi << 8 | lo) as u16), flags)?; }
		for d in 0..3u32 {
			let one = |b: usize| (U256::one() << b).overflowing_add(U256::from(d)).0.overflowing_sub(U256::one()).0;
			if hi < 32 { value_case::<u32, Dyn>(cx, &one(hi).low_u32(), flags)?; }
			if hi < 64 { value_case::<u64, Dyn>(cx, &one(hi).low_u64(), flags)?; }
			if hi < 128 { value_case::<u128, Dyn>(cx, &((one(hi).0[1] as u128) << 64 | one(hi).0[0] as u128), flags)?; }
			value_case::<U256, Dyn>(cx, &one(hi), flags)?;
		}
		Ok(())
	});
}

/// References and slices give the same root as the values, and so does `tree_root`.
fn forms(r: &mut Runner) {
	r.dfs("references, slices and tree_root", 0, |cx| on(SHA, || {
		fn sha<T: Le>(v: &T) -> Res { let got = Value(tree_root::<Sha256, T>(v)); ensure_eq!(got, v.spec::<Dyn>(), "tree_root of {:?}", v); Ok(()) }
		fn root<T: IntoTree + ?Sized>(v: &T) -> Result<Value, String> { er(v.into_tree(&mut Any::<Dyn>(&mut Mem::<Dyn>::default()))) }
		let k = cx.choose(20) as u64;
		let n = cx.choose(8) as usize;
		macro_rules! go { ($($t:ty),*) => { $(
			let v: Vec<$t> = seq(k, n);
			ensure_eq!(root(&v[..]), Ok(v.spec::<Dyn>()), "root of the slice {:?}", v);
			sha(&v)?;
			let g: GenericArray<$t, U5> = GenericArray::nth(k);
			let c = Compact(g.clone());
			ensure_eq!(root(&CompactRef(&g)), Ok(c.spec::<Dyn>()), "root of the reference to {:?}", g);
			sha(&c)?; sha(&g)?;
			let a: VecArray<$t, U9> = VecArray::nth(k);
			let c = Compact(a.clone());
			ensure_eq!(root(&CompactRef(&a)), Ok(c.spec::<Dyn>()), "root of the reference to {:?}", a);
			sha(&c)?; sha(&a)?;
			let m: MaxVec<$t, U7> = v.into();
			let c = Compact(m.clone());
			ensure_eq!(root(&CompactRef(&m)), Ok(c.spec::<Dyn>()), "root of the reference to {:?}", m);
			sha(&c)?; sha(&m)?;
			cx.eval(9);
			cx.transition();
		)* } }
		go!(bool, u8, u16, u32, u64, u128, U256);
		sha(&Option::<u8>::nth(k))?; sha(&H256::nth(k))?; sha(&H512::nth(k))?; sha(&<(u8, u64, H512)>::nth(k))?;
		cx.state(H::new().u(k).u(n as u64));
		cx.note(|| format!("pattern {} length {}", k, n));
		Ok(())
	}));
	r.dfs("too long lists", 0, |cx| {
		// a bounded list holding more than its maximum gets no root
		fn over<T: Le, L: Lim>(n: usize) -> Res where Compact<MaxVec<T, L>>: IntoTree {
			let m: MaxVec<T, L> = seq::<T>(2, n).into();
			let got = put::<_, Dyn>(&m, &mut Mem::<Dyn>::default());
			ensure_eq!(got, Err("InvalidParameter".into()), "merkleizing {:?} with maximum {}", m, L::to_u64());
			let c = Compact(m);
			let got = put::<_, Dyn>(&c, &mut Mem::<Dyn>::default());
			ensure_eq!(got, Err("InvalidParameter".into()), "merkleizing packed {:?} with maximum {}", c, L::to_u64());
			Ok(())
		}
		let extra = 1 + cx.choose(40);
		macro_rules! go { ($($l:ty),*) => { $( {
			let n = <$l>::to_usize() + extra;
			over::<bool, $l>(n)?; over::<u8, $l>(n)?; over::<u16, $l>(n)?; over::<u32, $l>(n)?; over::<u64, $l>(n)?; over::<u128, $l>(n)?; over::<U256, $l>(n)?;
			cx.eval(14);
			cx.transition();
		} )* } }
		go!(U0, U1, U2, U3, U4, U5, U7, U8, U9, U31, U32, U33);
		cx.state(H::new().u(extra as u64));
		Ok(())
	});
}

pub fn c10(r: &mut Runner) { grid(r, ROOT); forms(r); crate::derive::lengths(r); }
pub fn c11(r: &mut Runner) { grid(r, TRIP); crate::derive::lengths(r); }

#[allow(dead_code)]
pub fn backend_name<B: Backend>(_: &B) -> &'static str { std::any::type_name::<B>() }
