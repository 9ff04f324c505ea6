//! C14: decoding from incomplete and tampered trees.

use crate::coll::{elem, leaked, create, Coll, Er, Kind, BoxColl};
use crate::derive as dt;
use crate::engine::*;
use crate::hash::*;
use crate::le::*;
use bm::{Dangling, List, Owned, Sequence, Tree, WriteBackend};
use bm_le::*;
use generic_array::GenericArray;
use primitive_types::{H256, H512, U256};
use std::collections::{HashMap, HashSet};
use typenum::{U0, U1, U2, U3, U4, U5, U6, U7, U8, U9, U16, U17, U33};
use vecarray::VecArray;



/// Inner nodes of a tree, top down, left to right.
pub fn inner<C: Spec>(db: &Mem<C>, root: &C::V) -> Vec<C::V> {
	let mut out = vec![];
	let mut seen = HashSet::new();
	let mut todo = std::collections::VecDeque::new();
	todo.push_back(root.clone());
	while let Some(k) = todo.pop_front() {
		if let Some((l, r)) = kids::<C>(db, &k) {
			if seen.insert(k.clone()) { out.push(k.clone()); todo.push_back(l.clone()); todo.push_back(r.clone()); }
		}
	}
	out
}

/// A database that knows only some nodes.
pub fn only<C: Spec>(db: &Mem<C>, nodes: &[C::V]) -> Mem<C> {
	let mut out = Mem::<C>::default();
	let map: HashMap<C::V, (C::V, C::V)> = nodes.iter().map(|k| (k.clone(), kids::<C>(db, k).unwrap().clone())).collect();
	out.populate(map);
	out
}

/// Choices of missing nodes among `n`: all subsets if there are few, else all up to three.
fn gaps(n: usize, full: usize, triples: usize) -> Vec<Vec<usize>> {
	if n <= full { return (1..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect() }
	let mut v = vec![];
	for i in 0..n { v.push(vec![i]); for j in 0..i { v.push(vec![j, i]); if n <= triples { for k in 0..j { v.push(vec![k, j, i]); } } } }
	v.push((0..n).collect());
	for k in 1..n { v.push((0..k).collect()); v.push((k..n).collect()); }
	v
}

pub struct Missing<'a> { pub full: usize, pub triples: usize, pub name: &'a dyn Fn() -> String }

/// Every gap in the tree below `root`: `read` gives the value or says the database is corrupted.
pub fn missing<C: Spec>(cx: &mut Cx, db: &Mem<C>, root: &C::V, m: &Missing, read: &dyn Fn(&mut Mem<C>) -> Result<bool, String>) -> Res {
	let nodes = inner::<C>(db, root);
	let mut refused = 0;
	let gs = gaps(nodes.len(), m.full, m.triples);
	for g in &gs {
		let left: Vec<C::V> = nodes.iter().enumerate().filter(|(i, _)| !g.contains(i)).map(|(_, k)| k.clone()).collect();
		let mut part = only::<C>(db, &left);
		match guarded(|| read(&mut part)) {
			Err(p) => return Err(Fail(format!("decoding {} without nodes {:?} of {}: {}", (m.name)(), g, nodes.len(), p))),
			Ok(Ok(true)) => { },
			Ok(Ok(false)) => return Err(Fail(format!("decoding {} without nodes {:?} of {} gives another value", (m.name)(), g, nodes.len()))),
			Ok(Err(e)) => { refused += 1; ensure!(e == "CorruptedDatabase", "decoding {} without nodes {:?} of {}: {}", (m.name)(), g, nodes.len(), e); },
		}
	}
	// all of it
	let mut part = only::<C>(db, &nodes);
	ensure_eq!(read(&mut part), Ok(true), "decoding {} from exactly its nodes", (m.name)());
	cx.transition();
	cx.eval(gs.len() as u64 + 1);
	cx.state(H::new().b(root.as_ref()).u(refused).s(C::name()));
	cx.note(|| format!("{}: {} nodes, {} gaps, {} refused", (m.name)(), nodes.len(), gs.len(), refused));
	Ok(())
}

fn gone<T: Le, C: LeC>(cx: &mut Cx, v: &T) -> Res {
	let mut db = Mem::<C>::default();
	let root = put::<_, C>(v, &mut db).map_err(Fail)?;
	let (full, triples) = if cx.thorough { (13, 24) } else { (9, 12) };
	missing::<C>(cx, &db, &root, &Missing { full, triples, name: &|| format!("{:?}", v) }, &|d| take::<T, C>(&root, d).map(|g| g == *v))
}
fn any<T: Le>(cx: &mut Cx, _: u32) -> Res { let v = T::any(cx); if cx.choose(2) == 0 { gone::<T, Dyn>(cx, &v) } else { on(UNI, || gone::<T, Dyn>(cx, &v)) } }
fn family<T: Le>(cx: &mut Cx, _: u32) -> Res { let v = T::nth(cx.choose(10) as u64); if cx.choose(2) == 0 { gone::<T, Dyn>(cx, &v) } else { on(UNI, || gone::<T, Dyn>(cx, &v)) } }

/// Packed and composite lists at run-time lengths.
fn lists<T: Pack, C: LeC>(cx: &mut Cx, _: u32) -> Res where
	for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree, ElementalFixedVec<T>: FromCompactVectorTree, for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree
{
	let shape = cx.choose(4);
	let (compact, vector) = (shape & 1 == 0, shape & 2 == 0);
	let per = if compact { (256 / T::bytes(8).max(1) as usize).max(1) } else { 1 };
	let leaves = cx.choose(12);
	let len = (leaves * per).saturating_sub(if per > 2 { cx.choose(3) } else { 0 });
	let max = cx.pick(&[None, Some(len as u64), Some(2 * len as u64 + 1), Some(1 << 20)]);
	let v: Vec<T> = seq(cx.choose(3) as u64, len);
	let mut db = Mem::<C>::default();
	let root = er(match (compact, vector) {
		(true, true) => ElementalFixedVecRef(&v[..]).into_compact_vector_tree(&mut Any::<C>(&mut db), max),
		(true, false) => ElementalVariableVecRef(&v[..]).into_compact_list_tree(&mut Any::<C>(&mut db), max),
		(false, true) => ElementalFixedVecRef(&v[..]).into_composite_vector_tree(&mut Any::<C>(&mut db), max),
		(false, false) => ElementalVariableVecRef(&v[..]).into_composite_list_tree(&mut Any::<C>(&mut db), max),
	}).map_err(Fail)?;
	let read = |db: &mut Mem<C>| er(match (compact, vector) {
		(true, true) => ElementalFixedVec::<T>::from_compact_vector_tree(&root, &mut Any::<C>(db), len, max).map(|x| x.0),
		(true, false) => ElementalVariableVec::<T>::from_compact_list_tree(&root, &mut Any::<C>(db), max).map(|x| x.0),
		(false, true) => ElementalFixedVec::<T>::from_composite_vector_tree(&root, &mut Any::<C>(db), len, max).map(|x| x.0),
		(false, false) => ElementalVariableVec::<T>::from_composite_list_tree(&root, &mut Any::<C>(db), max).map(|x| x.0),
	}).map(|g| g == v);
	missing::<C>(cx, &db, &root, &Missing { full: 8, triples: 0, name: &|| format!("{} {:?} of {} (maximum {:?}, packed {})", len, if vector { "vector" } else { "list" }, std::any::type_name::<T>(), max, compact) }, &read)
}

/// Reading elements of a collection attached to an incomplete database.
fn collections<C: Spec>(cx: &mut Cx) -> Res {
	let kind = cx.pick(&[Kind::Vector, Kind::List, Kind::PVec(16), Kind::PVec(48), Kind::PVec(5), Kind::PVec(64), Kind::PList(16), Kind::PList(48), Kind::PList(5), Kind::PList(33)]);
	let len = cx.choose(if cx.thorough { 14 } else { 9 });
	let max = cx.pick(&[None, Some(len as u64 + 1), Some(2 * len as u64 + 9)]);
	let distinct = cx.choose(2) == 1;
	let mut db = Mem::<C>::default();
	let mut c = create::<C>(kind, &mut db, 0, max).map_err(|e| Fail(format!("{:?}", e)))?;
	let w = kind.width(C::V::BYTES);
	let els: Vec<Vec<u8>> = (0..len).map(|i| elem(w, if distinct { i as u64 + 1 } else { 1 })).collect();
	for e in &els { c.push(&mut db, e).map_err(|e| Fail(format!("{:?}", e)))?; }
	let meta = c.meta();
	let root = c.root();
	for i in 0..len {
		let read = |d: &mut Mem<C>| -> Result<bool, String> {
			let c: BoxColl<C::V> = leaked::<C>(kind, false, meta.clone());
			match c.get(d, i) { Ok(g) => Ok(g == els[i]), Err(Er::Corrupt) => Err("CorruptedDatabase".into()), Err(e) => Err(format!("{:?}", e)) }
		};
		missing::<C>(cx, &db, &root, &Missing { full: 7, triples: 0, name: &|| format!("element {} of a {} of length {} (maximum {:?}) over {}", i, kind.name(), len, max, C::name()) }, &read)?;
	}
	cx.state(H::new().b(root.as_ref()).u(len as u64).s(C::name()));
	Ok(())
}

/// Lengths to write into a list tree.
fn lengths(n: usize, max: Option<u64>) -> Vec<U256> {
	let mut v: Vec<U256> = (0..n + 6).map(U256::from).collect();
	if let Some(m) = max { for d in 0..6u64 { v.push(U256::from(m.saturating_add(d).saturating_sub(2))); } }
	for b in 3..256usize {
		let x = U256::one() << b;
		v.push(x);
		if b % 8 == 0 || b > 30 && b < 70 { v.push(x - U256::one()); v.push(x + U256::one()); v.push(x + U256::from(n)); }
	}
	v.push(U256::max_value());
	v
}

/// The tree of a list with another length recorded.
fn tampered<T: Pack, C: LeC>(cx: &mut Cx, _: u32) -> Res where
	for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree, ElementalFixedVec<T>: FromCompactVectorTree, Vec<T>: IntoTree
{
	let compact = cx.choose(2) == 0;
	let per = if compact { (256 / T::bytes(8).max(1) as usize).max(1) } else { 1 };
	let n = cx.pick(&[0usize, 1, 2, 3, 5, per, per + 1, 2 * per, 2 * per + 1]);
	let zero = cx.choose(2) == 0;
	let max = cx.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(8), Some(9), Some(2 * per as u64), Some(4 * per as u64 + 1), Some(64)]);
	if max.map(|m| m < n as u64).unwrap_or(false) { return Ok(()) }
	let v: Vec<T> = seq(if zero { 0 } else { 2 }, n);
	let mut db = Mem::<C>::default();
	let root = er(if compact { ElementalVariableVecRef(&v[..]).into_compact_list_tree(&mut Any::<C>(&mut db), max) } else { ElementalVariableVecRef(&v[..]).into_composite_list_tree(&mut Any::<C>(&mut db), max) }).map_err(Fail)?;
	let data = kids::<C>(&db, &root).unwrap().0.clone();
	let leaves = |k: u128| if compact { chunk_limit(k * T::bytes(8) / 8 + (k * T::bytes(8) % 8 != 0) as u128) } else { k as u64 };
	for len in lengths(n, max) {
		let mut b = [0u8; 32];
		len.to_little_endian(&mut b);
		let bad = C::hash(&data, &val(b));
		let mut db = db.clone();
		db.insert(bad.clone(), (data.clone(), val(b))).unwrap();
		let what = || format!("list of {} {} (maximum {:?}, packed {}) with length {:?} recorded", n, std::any::type_name::<T>(), max, compact, len);
		let got = guarded(|| er(if compact { ElementalVariableVec::<T>::from_compact_list_tree(&bad, &mut Any::<C>(&mut db), max) } else { ElementalVariableVec::<T>::from_composite_list_tree(&bad, &mut Any::<C>(&mut db), max) }));
		let got = match got { Ok(g) => g.map(|x| x.0), Err(p) => return Err(Fail(format!("decoding a {}: {}", what(), p))) };
		let over = max.map(|m| len > U256::from(m)).unwrap_or(len > U256::from(u64::max_value()));
		if over { ensure_eq!(got, Err("CorruptedDatabase".into()), "decoding a {}", what()); }
		match &got {
			Err(e) => {
				ensure_eq!(*e, "CorruptedDatabase", "decoding a {}", what());
				ensure!(len != U256::from(n), "decoding a {}: refused", what());
			},
			Ok(g) => {
				ensure!(U256::from(g.len()) == len, "decoding a {} gives length {}", what(), g.len());
				// the same tree shape holds the same elements
				let same = depth_for(leaves(max.map(|m| m as u128).unwrap_or(len.low_u64() as u128))) == depth_for(leaves(max.map(|m| m as u128).unwrap_or(n as u128)));
				if same { let k = n.min(g.len()); ensure!(g[..k] == v[..k], "decoding a {} gives {:?}, elements were {:?}", what(), g, v); }
			},
		}
		// only attached to
		if !compact {
			let got = guarded(|| List::<Dangling, C>::reconstruct(bad.clone(), &mut db, max).map(|l| Sequence::len(&l)));
			let got = match got { Ok(g) => er(g), Err(p) => return Err(Fail(format!("List::reconstruct of a {}: {}", what(), p))) };
			if over { ensure_eq!(got, Err("CorruptedDatabase".into()), "List::reconstruct of a {}", what()); }
			else if len <= U256::from(1u64 << 63) { ensure_eq!(got, Ok(len.low_u64() as usize), "length after List::reconstruct of a {}", what()); }
		}
		cx.eval(2);
		cx.transition();
	}
	cx.state(H::new().b(root.as_ref()).u(max.unwrap_or(999)).s(std::any::type_name::<T>()));
	cx.note(|| format!("{} {} with maximum {:?}, packed {}: every length", n, std::any::type_name::<T>(), max, compact));
	Ok(())
}

/// The same through the types whose maximum is part of the type.
fn typed<T: Pack + 'static, L: Lim>(cx: &mut Cx) -> Res where Compact<MaxVec<T, L>>: IntoTree + FromTree {
	let n = cx.choose(L::to_u64().min(4) as usize + 1);
	let m: MaxVec<T, L> = seq::<T>(2, n).into();
	let max = L::to_u64();
	for compact in 0..2 {
		let mut db = Mem::<Dyn>::default();
		let root = er(if compact == 1 { Compact(m.clone()).into_tree(&mut Any::<Dyn>(&mut db)) } else { m.into_tree(&mut Any::<Dyn>(&mut db)) }).map_err(Fail)?;
		let data = kids::<Dyn>(&db, &root).unwrap().0.clone();
		for len in lengths(n, Some(max)) {
			let mut b = [0u8; 32];
			len.to_little_endian(&mut b);
			let bad = Dyn::hash(&data, &val(b));
			db.insert(bad.clone(), (data.clone(), val(b))).unwrap();
			let what = || format!("{} of {} elements, packed {}, with length {:?} recorded", std::any::type_name::<MaxVec<T, L>>(), n, compact, len);
			let got = guarded(|| er(if compact == 1 { Compact::<MaxVec<T, L>>::from_tree(&bad, &mut Any::<Dyn>(&mut db)).map(|x| x.0) } else { MaxVec::<T, L>::from_tree(&bad, &mut Any::<Dyn>(&mut db)) }));
			let got = match got { Ok(g) => g, Err(p) => return Err(Fail(format!("decoding {}: {}", what(), p))) };
			if len > U256::from(max) { ensure_eq!(got, Err("CorruptedDatabase".into()), "decoding {}", what()); }
			else if len == U256::from(n) { ensure_eq!(got, Ok(m.clone()), "decoding {}", what()); }
			else if let Ok(g) = &got { ensure!(U256::from(g.0.len()) == len, "decoding {} gives {:?}", what(), g); }
			cx.eval(1);
			cx.transition();
		}
	}
	cx.state(H::new().u(n as u64).s(std::any::type_name::<MaxVec<T, L>>()));
	Ok(())
}

/// Options and the unit with any tag and payload.
fn tags(cx: &mut Cx) -> Res {
	let payload = cx.pick(&[Value::default(), val({ let mut b = [0; 32]; b[0] = 5; b }), Value::leaf(3), Value::leaf(1), len_value(1), val([255; 32]), val({ let mut b = [0; 32]; b[31] = 1; b })]);
	let k = cx.choose(4 + 256 + 64 + 2);
	let tag = if k < 4 { U256::from(k) } else if k < 260 { U256::one() << (k - 4) } else if k < 324 { (U256::one() << 64) * U256::from(k - 259) + U256::from(k % 2) } else { U256::max_value() - U256::from(k - 324) };
	let mut b = [0u8; 32];
	tag.to_little_endian(&mut b);
	let mut db = Mem::<Dyn>::default();
	let root = Dyn::hash(&payload, &val(b));
	db.insert(root.clone(), (payload.clone(), val(b))).unwrap();
	cx.note(|| format!("payload {:?} tag {:?}", payload, tag));
	let bad: Result<(), String> = Err("CorruptedDatabase".into());
	fn say<T>(r: Result<T, String>) -> Result<(), String> { r.map(|_| ()) }
	let (none, some) = (tag.is_zero(), tag == U256::one());
	let u = take::<Option<Value>, Dyn>(&root, &mut db);
	if some { ensure_eq!(u, Ok(Some(payload.clone())), "option of a node value"); }
	else if none && payload == Value::default() { ensure_eq!(u, Ok(None), "option of a node value"); }
	else { ensure_eq!(say(u), bad, "option of a node value with tag {:?} and payload {:?}", tag, payload); }
	let h = take::<Option<H256>, Dyn>(&root, &mut db);
	if some { ensure_eq!(h, Ok(Some(H256::from_slice(payload.as_ref()))), "option of a hash"); }
	else if none && payload == Value::default() { ensure_eq!(h, Ok(None), "option of a hash"); }
	else { ensure_eq!(say(h), bad, "option of a hash with tag {:?} and payload {:?}", tag, payload); }
	// the unit
	let g = take::<(), Dyn>(&payload, &mut db);
	ensure_eq!(g, if payload == Value::default() { Ok(()) } else { Err("CorruptedDatabase".into()) }, "unit from {:?}", payload);
	let g = take::<Option<()>, Dyn>(&root, &mut db);
	let zero = payload == Value::default();
	ensure_eq!(g, if zero && none { Ok(None) } else if zero && some { Ok(Some(())) } else { Err("CorruptedDatabase".into()) }, "option of the unit with tag {:?} and payload {:?}", tag, payload);
	// nested
	let outer = Dyn::hash(&root, &len_value(1));
	db.insert(outer.clone(), (root.clone(), len_value(1))).unwrap();
	let g = take::<Option<Option<()>>, Dyn>(&outer, &mut db);
	ensure_eq!(g, if zero && none { Ok(Some(None)) } else if zero && some { Ok(Some(Some(()))) } else { Err("CorruptedDatabase".into()) }, "option of an option of the unit with inner tag {:?} and payload {:?}", tag, payload);
	cx.transition();
	cx.eval(5);
	cx.state(H::new().b(root.as_ref()));
	Ok(())
}

/// Lists of the handle kind attached to a root with any length recorded, then used.
fn attach(cx: &mut Cx) -> Res {
	let n = cx.choose(6);
	let max = cx.pick(&[None, Some(n as u64), Some(n as u64 + 1), Some(8), Some(1 << 40)]);
	let mut db = Mem::<Dyn>::default();
	let mut l = List::<Owned, Dyn>::create(&mut db, max).map_err(|_| Fail("create".into()));
	if max == Some(0) { ensure!(l.is_err(), "a list of maximum 0 was created"); return Ok(()) }
	let l = l.as_mut().map_err(|e| e.clone())?;
	for i in 0..n { ensure_eq!(l.push(&mut db, Value::leaf(i as u64 + 1)), Ok(()), "push"); }
	let root = Tree::root(l);
	let data = kids::<Dyn>(&db, &root).unwrap().0.clone();
	for m2 in &[None, Some(0u64), Some(1), Some(2), Some(n as u64), Some(n as u64 + 1), Some(n as u64 + 2), Some(8), Some(9), Some(1 << 40), Some(1 << 62)] {
		for len in lengths(n, *m2) {
			let mut b = [0u8; 32];
			len.to_little_endian(&mut b);
			let bad = Dyn::hash(&data, &val(b));
			let mut db = db.clone();
			db.insert(bad.clone(), (data.clone(), val(b))).unwrap();
			let over = m2.map(|m| len > U256::from(m)).unwrap_or(len > U256::from(u64::max_value()));
			for owned in 0..2 {
				let got = guarded(|| if owned == 1 { er(List::<Owned, Dyn>::reconstruct(bad.clone(), &mut db, *m2).map(|l| Sequence::len(&l))) } else { er(List::<Dangling, Dyn>::reconstruct(bad.clone(), &mut db, *m2).map(|l| Sequence::len(&l))) });
				let got = match got { Ok(g) => g, Err(p) => return Err(Fail(format!("List::reconstruct with maximum {:?} from length {:?}: {}", m2, len, p))) };
				if over { ensure_eq!(got, Err("CorruptedDatabase".into()), "List::reconstruct with maximum {:?} from length {:?}", m2, len); }
				else if len <= U256::from(1u64 << 63) { ensure_eq!(got, Ok(len.low_u64() as usize), "length after List::reconstruct with maximum {:?} from length {:?}", m2, len); }
			}
			cx.eval(2);
			cx.transition();
		}
	}
	cx.state(H::new().b(root.as_ref()).u(max.unwrap_or(77)));
	cx.note(|| format!("list of {} with maximum {:?} attached to with every length and maximum", n, max));
	// without the node of the root
	let mut none = Mem::<Dyn>::default();
	let got = er(List::<Dangling, Dyn>::reconstruct(root.clone(), &mut none, max).map(|l| Sequence::len(&l)));
	ensure_eq!(got, Err("CorruptedDatabase".into()), "List::reconstruct from an empty database");
	Ok(())
}

pub fn c14(r: &mut Runner) {
	let t: Vec<TypeFn> = types![any: bool, u8, u64, H512, (), Option<u16>, Option<()>, Option<Option<bool>>, Option<H512>, Option<Vec<u8>>, Box<H512>,
		(u8, u16), (u8, u16, u32), (bool, U256, bool, H256), (u8, bool, bool, bool, u8), (bool, bool, bool, bool, bool, bool),
		((u8, u8), (u8, u8)), (Vec<bool>, Vec<u16>), (Option<u8>, Vec<bool>, H512), ((), u8, ()),
		[u8; 1], [u16; 2], [u64; 3], [H512; 2], [(u8, bool); 2],
		GenericArray<u16, U1>, GenericArray<Vec<bool>, U2>, GenericArray<Option<u8>, U3>, VecArray<u16, U1>, VecArray<(u8, Option<bool>), U3>,
		Vec<u8>, Vec<bool>, Vec<H256>, Vec<H512>, Vec<()>, Vec<Option<bool>>, Vec<Vec<bool>>, Vec<(u8, bool)>,
		MaxVec<u8, U1>, MaxVec<u64, U2>, MaxVec<u64, U3>, MaxVec<u16, U5>, MaxVec<H256, U9>, MaxVec<H512, U4>, MaxVec<Vec<bool>, U2>, MaxVec<MaxVec<u8, U3>, U2>, MaxVec<(u8, Vec<bool>), U2>,
		Compact<GenericArray<bool, U3>>, Compact<GenericArray<u64, U3>>, Compact<GenericArray<U256, U2>>, Compact<GenericArray<u128, U3>>, Compact<VecArray<U256, U3>>,
		Compact<MaxVec<bool, U3>>, Compact<MaxVec<u8, U5>>, Compact<MaxVec<u64, U9>>, Compact<MaxVec<u128, U3>>, Compact<MaxVec<U256, U2>>, Compact<MaxVec<U256, U5>>,
		MaxVec<Compact<MaxVec<u8, U33>>, U2>, (Compact<GenericArray<u8, U2>>, Compact<MaxVec<bool, U3>>), Vec<Option<(bool, Vec<bool>)>>,
		dt::N2, dt::N3, dt::N5, dt::C1, dt::C3, dt::D2, dt::D3, dt::P3, dt::PC, dt::E2, dt::E3, dt::EN, dt::EC, dt::EL, dt::ED, dt::G3<u16, bool>, dt::GE<dt::N2, Vec<bool>>];
	r.dfs("missing nodes/every small value", 0, |cx| { let (n, f) = t[cx.choose(t.len())]; cx.note(|| n.to_string()); f(cx, 0) });
	let t: Vec<TypeFn> = types![family: Vec<u16>, Vec<U256>, Vec<H512>, Vec<Vec<u16>>, Vec<(u8, Vec<u16>)>, MaxVec<u8, U7>, MaxVec<u64, U8>, MaxVec<Vec<u64>, U16>, MaxVec<U256, U2_40>, Compact<MaxVec<u64, U2_40>>,
		[u8; 32], [u16; 31], [H256; 17], [H512; 9], [[u8; 3]; 4], GenericArray<u16, U17>, VecArray<H256, U33>, Compact<GenericArray<U256, U17>>, Compact<VecArray<u128, U33>>, Compact<VecArray<u128, U9>>,
		dt::N9, dt::N17, dt::C4, dt::C5, dt::L3, dt::D4, dt::D5, dt::P9, dt::PL, dt::EF, dt::GC<dt::Small>, dt::GC<dt::Large>];
	r.dfs("missing nodes/a family of values", 0, |cx| { let (n, f) = t[cx.choose(t.len())]; cx.note(|| n.to_string()); f(cx, 0) });
	r.dfs("missing nodes/lists by length", 0, |cx| match cx.choose(4) { 0 => lists::<u8, Dyn>(cx, 0), 1 => lists::<U256, Dyn>(cx, 0), 2 => lists::<bool, Dyn>(cx, 0), _ => on(UNI, || lists::<u64, Dyn>(cx, 0)) });
	r.dfs("missing nodes/elements of collections", 0, |cx| if cx.choose(2) == 0 { collections::<Dyn>(cx) } else { on(UNI, || collections::<Dyn>(cx)) });
	r.dfs("recorded lengths", 0, |cx| match cx.choose(7) { 0 => tampered::<u8, Dyn>(cx, 0), 1 => tampered::<u16, Dyn>(cx, 0), 2 => on(UNI, || tampered::<u64, Dyn>(cx, 0)), 3 => tampered::<u128, Dyn>(cx, 0), 4 => tampered::<U256, Dyn>(cx, 0), 5 => tampered::<u32, Dyn>(cx, 0), _ => tampered::<bool, Dyn>(cx, 0) });
	r.dfs("recorded lengths/maximum in the type", 0, |cx| {
		macro_rules! go { ($($l:ty),*) => {{ let fs: Vec<fn(&mut Cx) -> Res> = vec![$(typed::<bool, $l>, typed::<u8, $l>, typed::<u16, $l>, typed::<u64, $l>, typed::<U256, $l>),*]; let f = fs[cx.choose(fs.len())]; f(cx) }} }
		go!(U0, U1, U2, U3, U4, U5, U6, U7, U8, U9, U16, U17, U33)
	});
	r.dfs("recorded lengths/attaching", 0, attach);
	r.dfs("tags and payloads", 0, tags);
	r.dfs("positions in lists of absurd length", 0, crate::partial::lengths);
}

