//! Things done with a backend, run the same way over any backend.

use crate::coll::*;
use crate::engine::*;
use crate::hash::*;
use crate::le::*;
use crate::raw::{bits, Term};
use bm::*;
use bm_le::{ElementalFixedVec, ElementalFixedVecRef, ElementalVariableVec, ElementalVariableVecRef, FromCompactListTree, FromCompactVectorTree, FromCompositeListTree, FromCompositeVectorTree, IntoCompactListTree, IntoCompactVectorTree, IntoCompositeListTree, IntoCompositeVectorTree, Value};
use std::fmt::Debug;

/// What was seen at each step, up to and including the first failure of the backend.
pub type Obs = Vec<Result<Vec<u8>, Er>>;

pub fn see<T, E: Debug>(o: &mut Obs, r: Result<T, bm::Error<E>>, f: impl FnOnce(T) -> Vec<u8>) -> bool { push(o, r.map(f).map_err(Er::from)) }
pub fn push(o: &mut Obs, r: Result<Vec<u8>, Er>) -> bool {
	let go = match &r { Err(Er::Backend(_)) => false, _ => true };
	o.push(r);
	go
}

pub trait Script<C: Spec> {
	/// What the script starts from.
	type Start: Clone;
	fn start(&self, db: &mut Mem<C>) -> Res<Self::Start>;
	/// The tree the script works on, if there is one from the start.
	fn root(&self, s: &Self::Start) -> Option<C::V>;
	fn run(&self, s: &Self::Start, db: &mut dyn Db<C::V>) -> Obs;
	fn name(&self) -> String;
	/// Whether the tree is owned.
	fn owned(&self) -> bool { false }
	/// Whether everything is reached through the root (and not through what the handle remembers).
	fn rooted(&self) -> bool { true }
	/// Whether hashes of subtrees are written without having been read.
	fn grafts(&self) -> bool { false }
}

// ---- collections ----

#[derive(Clone, Debug, PartialEq)]
pub enum COp { Push(u64), Pop, Set(usize, u64), Get(usize), Rebuild, Close }

#[derive(Clone, Debug)]
pub struct CollScript { pub cfg: Cfg, pub init: Vec<u64>, pub ops: Vec<COp>, /** Created with a length by the script. */ pub create: Option<usize> }

impl CollScript {
	/// Operations possible after the given ones.
	pub fn next(cfg: &Cfg, len: usize) -> Vec<COp> {
		let mut v: Vec<COp> = ops(cfg, len).into_iter().map(|o| match o { Op::Push(k) => COp::Push(k), Op::Pop => COp::Pop, Op::Set(i, k) => COp::Set(i, k) }).collect();
		let mut at = if cfg.all_sets { (0..len).collect::<Vec<_>>() } else { let mut a = vec![0, len / 2, len.saturating_sub(1)]; a.retain(|i| *i < len); a.dedup(); a };
		at.push(len);
		v.extend(at.into_iter().map(COp::Get));
		v
	}
	/// `n` operations, chosen.
	pub fn choose(cx: &mut Cx, cfg: &Cfg, init: Vec<u64>, n: usize) -> Self {
		let mut len = init.len();
		let mut ops = vec![];
		for _ in 0..n {
			let o = cx.pick(&Self::next(cfg, len));
			match o { COp::Push(_) => len += 1, COp::Pop => len = len.saturating_sub(1), _ => { } }
			ops.push(o);
		}
		CollScript { cfg: cfg.clone(), init, ops, create: None }
	}
	pub fn model(&self) -> Vec<u64> {
		let mut m = self.init.clone();
		for o in &self.ops { match o { COp::Push(k) => m.push(*k), COp::Pop => { m.pop(); }, COp::Set(i, k) => m[*i] = *k, _ => { } } }
		m
	}
}

/// `reconstruct` of the real type.
pub fn rebuilt<C: Spec>(owned: bool, root: C::V, db: &mut dyn Db<C::V>, max: Option<u64>) -> Result<BoxColl<C::V>, Er> {
	Ok(if owned { Box::new(List::<Owned, C>::reconstruct(root, &mut Any::<C>(db), max)?) } else { Box::new(List::<Dangling, C>::reconstruct(root, &mut Any::<C>(db), max)?) })
}

impl<C: Spec> Script<C> for CollScript {
	type Start = Option<Meta<C::V>>;
	fn start(&self, db: &mut Mem<C>) -> Res<Self::Start> {
		if self.create.is_some() { return Ok(None) }
		let w = self.cfg.kind.width(C::V::BYTES);
		let mut c = create_as::<C>(self.cfg.kind, self.cfg.owned, db, 0, self.cfg.max).map_err(|e| Fail(format!("creating {}: {:?}", self.cfg.show(), e)))?;
		for k in &self.init { ensure_eq!(c.push(db, &elem(w, *k)), Ok(()), "push to {}", self.cfg.show()); }
		Ok(Some(c.meta()))
	}
	fn root(&self, s: &Self::Start) -> Option<C::V> { s.as_ref().map(|m| m.root.clone()) }
	fn run(&self, s: &Self::Start, db: &mut dyn Db<C::V>) -> Obs {
		let mut o = vec![];
		let w = self.cfg.kind.width(C::V::BYTES);
		let mut c: BoxColl<C::V> = match (s, self.create) {
			(Some(m), _) => leaked::<C>(self.cfg.kind, self.cfg.owned, m.clone()),
			(None, len) => match create_as::<C>(self.cfg.kind, self.cfg.owned, db, len.unwrap_or(0), self.cfg.max) {
				Ok(c) => { o.push(Ok(c.root().as_ref().to_vec())); c },
				Err(e) => { o.push(Err(e)); return o },
			},
		};
		for op in &self.ops {
			let r = match op {
				COp::Push(k) => c.push(db, &elem(w, *k)).map(|_| vec![]),
				COp::Pop => c.pop(db).map(|x| x.unwrap_or_else(|| vec![0xee; 3])),
				COp::Set(i, k) => c.set(db, *i, &elem(w, *k)).map(|_| vec![]),
				COp::Get(i) => c.get(db, *i),
				COp::Rebuild => {
					let m = c.meta();
					match c.deconstruct(db) {
						Some(Ok(root)) => match rebuilt::<C>(self.cfg.owned, root, db, self.cfg.max) { Ok(n) => { c = n; Ok(vec![1]) }, Err(e) => { o.push(Err(e)); return o } },
						Some(Err(e)) => { o.push(Err(e)); return o },
						None => { c = leaked::<C>(self.cfg.kind, self.cfg.owned, m); Ok(vec![0]) },
					}
				},
				COp::Close => { o.push(c.close(db).map(|_| vec![])); return o },
			};
			let r = r.map(|mut b| { b.extend_from_slice(c.root().as_ref()); b.extend_from_slice(&(c.len() as u64).to_le_bytes()); b });
			if !push(&mut o, r) { return o }
		}
		o
	}
	fn owned(&self) -> bool { self.cfg.owned }
	fn rooted(&self) -> bool { !self.cfg.kind.list() || (self.cfg.kind == Kind::List && self.ops.first() == Some(&COp::Rebuild)) }
	fn name(&self) -> String { format!("{} holding {:?}{}: {:?}", self.cfg.show(), self.init, self.create.map(|l| format!(", created with length {}", l)).unwrap_or_default(), self.ops) }
}

// ---- raw trees ----

#[derive(Clone, Debug)]
pub enum ROp { Set(usize, u64), Copy(usize, usize), /** Set to the hash of a subtree of the initial tree. */ Graft(usize, usize), Get(usize), Close }

#[derive(Clone, Debug)]
pub struct RawScript { pub owned: bool, pub init: Vec<(usize, u64)>, pub ops: Vec<ROp> }

impl RawScript {
	pub fn choose(cx: &mut Cx, owned: bool, init: &[(usize, u64)], at: &[usize], leaves: u64, n: usize) -> Self {
		let mut all: Vec<ROp> = vec![];
		for i in at { for k in 0..leaves { all.push(ROp::Set(*i, k)); } all.push(ROp::Get(*i)); }
		for i in at { for j in at { if i != j { all.push(ROp::Copy(*i, *j)); } } }
		let ops = (0..n).map(|_| cx.pick(&all)).collect();
		RawScript { owned, init: init.to_vec(), ops }
	}
	/// The tree before the operations.
	pub fn before<C: Spec>(&self) -> Term<C::V> {
		let mut t = Term::zero();
		for (i, k) in &self.init { t = t.set(&bits(*i), Term::Leaf(C::V::leaf(*k))); }
		t
	}
}

fn raw_run<R: RootStatus, C: Spec>(root: C::V, before: &Term<C::V>, ops: &[ROp], db: &mut dyn Db<C::V>) -> Obs {
	let db = &mut Any::<C>(db);
	let mut o = vec![];
	let mut r = Raw::<R, C>::from_leaked(root);
	let ix = |i: &usize| Index::from_one(*i).unwrap();
	for op in ops {
		let go = match op {
			ROp::Set(i, k) => { let x = r.set(db, ix(i), C::V::leaf(*k)); let root = r.root(); see(&mut o, x, |_| root.as_ref().to_vec()) },
			ROp::Get(i) => { let x = r.get(db, ix(i)); see(&mut o, x, |v| v.map(|v| v.as_ref().to_vec()).unwrap_or_default()) },
			ROp::Graft(i, j) => { let x = r.set(db, ix(i), before.get(&bits(*j)).unwrap().hash::<C>()); let root = r.root(); see(&mut o, x, |_| root.as_ref().to_vec()) },
			ROp::Copy(i, j) => match r.get(db, ix(j)) {
				Ok(Some(_)) => match r.subtree(db, ix(j)) {
					Ok(s) => { let x = r.set(db, ix(i), s.root()); let root = r.root(); see(&mut o, x, |_| root.as_ref().to_vec()) },
					Err(e) => { push(&mut o, Err(e.into())); false },
				},
				Ok(None) => see::<(), Text>(&mut o, Ok(()), |_| vec![1]),
				Err(e) => push(&mut o, Err(e.into())),
			},
			ROp::Close => { let x = r.drop(db); see(&mut o, x, |_| vec![]); return o },
		};
		if !go { return o }
	}
	o
}

impl<C: Spec> Script<C> for RawScript {
	type Start = C::V;
	fn start(&self, db: &mut Mem<C>) -> Res<C::V> {
		fn go<R: RootStatus, C: Spec>(init: &[(usize, u64)], db: &mut Mem<C>) -> Res<C::V> {
			let mut r = Raw::<R, C>::default();
			for (i, k) in init { ensure_eq!(r.set(db, Index::from_one(*i).unwrap(), C::V::leaf(*k)), Ok(()), "set({})", i); }
			Ok(r.root())
		}
		if self.owned { go::<Owned, C>(&self.init, db) } else { go::<Dangling, C>(&self.init, db) }
	}
	fn root(&self, s: &C::V) -> Option<C::V> { Some(s.clone()) }
	fn run(&self, s: &C::V, db: &mut dyn Db<C::V>) -> Obs {
		if self.owned { raw_run::<Owned, C>(s.clone(), &self.before::<C>(), &self.ops, db) } else { raw_run::<Dangling, C>(s.clone(), &self.before::<C>(), &self.ops, db) }
	}
	fn owned(&self) -> bool { self.owned }
	fn grafts(&self) -> bool { self.ops.iter().any(|o| match o { ROp::Graft(..) => true, _ => false }) }
	fn name(&self) -> String { format!("{} raw tree with {:?}: {:?}", if self.owned { "owned" } else { "dangling" }, self.init, self.ops) }
}

// ---- values ----

/// Merkleize a value and decode it again.
pub struct PutScript<'a, T> { pub v: &'a T, pub read: bool }
impl<'a, T: Le, C: LeC> Script<C> for PutScript<'a, T> {
	type Start = ();
	fn start(&self, _: &mut Mem<C>) -> Res { Ok(()) }
	fn root(&self, _: &()) -> Option<Value> { None }
	fn run(&self, _: &(), db: &mut dyn Db<C::V>) -> Obs {
		let db = &mut Any::<C>(db);
		let mut o = vec![];
		let r = self.v.into_tree(db);
		let root = r.as_ref().ok().cloned();
		if !see(&mut o, r, |r| r.as_ref().to_vec()) { return o }
		if let (Some(root), true) = (root, self.read) { let got = T::from_tree(&root, db); see(&mut o, got, |g| vec![(g == *self.v) as u8]); }
		o
	}
	fn name(&self) -> String { format!("{:?}: {}", self.v, std::any::type_name::<T>()) }
}

/// Decode a value that was merkleized before.
pub struct ReadScript<'a, T> { pub v: &'a T }
impl<'a, T: Le, C: LeC> Script<C> for ReadScript<'a, T> {
	type Start = Value;
	fn start(&self, db: &mut Mem<C>) -> Res<Value> { er(self.v.into_tree(&mut Any::<C>(db))).map_err(|e| Fail(format!("merkleizing {:?}: {}", self.v, e))) }
	fn root(&self, s: &Value) -> Option<Value> { Some(s.clone()) }
	fn run(&self, s: &Value, db: &mut dyn Db<C::V>) -> Obs {
		let db = &mut Any::<C>(db);
		let mut o = vec![];
		let got = T::from_tree(s, db);
		see(&mut o, got, |g| vec![(g == *self.v) as u8]);
		o
	}
	fn name(&self) -> String { format!("decoding {:?}: {}", self.v, std::any::type_name::<T>()) }
}

/// Lists and vectors of elements, packed or not, at run-time lengths.
pub struct SeqScript<'a, T> { pub v: &'a Vec<T>, pub max: Option<u64>, pub compact: bool, pub vector: bool }
impl<'a, T: Pack, C: LeC> Script<C> for SeqScript<'a, T> where
	for<'b> ElementalFixedVecRef<'b, T>: IntoCompactVectorTree, ElementalFixedVec<T>: FromCompactVectorTree, for<'b> ElementalVariableVecRef<'b, T>: IntoCompactListTree,
{
	type Start = ();
	fn start(&self, _: &mut Mem<C>) -> Res { Ok(()) }
	fn root(&self, _: &()) -> Option<Value> { None }
	fn run(&self, _: &(), db: &mut dyn Db<C::V>) -> Obs {
		let db = &mut Any::<C>(db);
		let (v, max, len) = (self.v, self.max, self.v.len());
		let mut o = vec![];
		let r = match (self.compact, self.vector) {
			(true, true) => ElementalFixedVecRef(&v[..]).into_compact_vector_tree(db, max),
			(true, false) => ElementalVariableVecRef(&v[..]).into_compact_list_tree(db, max),
			(false, true) => ElementalFixedVecRef(&v[..]).into_composite_vector_tree(db, max),
			(false, false) => ElementalVariableVecRef(&v[..]).into_composite_list_tree(db, max),
		};
		let root = r.as_ref().ok().cloned();
		if !see(&mut o, r, |r| r.as_ref().to_vec()) { return o }
		let root = match root { Some(r) => r, None => return o };
		let got = match (self.compact, self.vector) {
			(true, true) => ElementalFixedVec::<T>::from_compact_vector_tree(&root, db, len, max).map(|x| x.0),
			(true, false) => ElementalVariableVec::<T>::from_compact_list_tree(&root, db, max).map(|x| x.0),
			(false, true) => ElementalFixedVec::<T>::from_composite_vector_tree(&root, db, len, max).map(|x| x.0),
			(false, false) => ElementalVariableVec::<T>::from_composite_list_tree(&root, db, max).map(|x| x.0),
		};
		see(&mut o, got, |g| vec![(g == *v) as u8]);
		o
	}
	fn name(&self) -> String { format!("{:?} as {} (packed {}, maximum {:?})", self.v, if self.vector { "a vector" } else { "a list" }, self.compact, self.max) }
}

// ---- the calls themselves ----

#[derive(Clone, Debug, PartialEq)]
pub enum BOp { Insert(usize), Get(usize), Hold(usize), Release(usize) }
#[derive(Clone, Debug)]
pub struct CallScript { pub ops: Vec<BOp> }

/// Nodes of a small universe: 0..3 leaves, then pairs of earlier ones.
pub fn node<C: Spec>(k: usize) -> (C::V, Option<(C::V, C::V)>) {
	const KIDS: [(usize, usize); 3] = [(1, 2), (3, 1), (4, 0)];
	if k < 3 { return (C::V::leaf(k as u64), None) }
	let (a, b) = KIDS[k - 3];
	let (a, b) = (node::<C>(a).0, node::<C>(b).0);
	(C::hash(&a, &b), Some((a, b)))
}
impl CallScript {
	pub fn choose(cx: &mut Cx, n: usize) -> Self {
		let mut held: Vec<usize> = vec![];
		let mut ops = vec![];
		for _ in 0..n {
			let mut all: Vec<BOp> = (3..6).map(BOp::Insert).collect();
			all.extend((0..6).map(BOp::Get));
			all.extend([1, 3, 4, 5].iter().map(|k| BOp::Hold(*k)));
			let mut h = held.clone();
			h.sort(); h.dedup();
			all.extend(h.into_iter().map(BOp::Release));
			let o = cx.pick(&all);
			match &o { BOp::Hold(k) => held.push(*k), BOp::Release(k) => { let p = held.iter().position(|x| x == k).unwrap(); held.remove(p); }, _ => { } }
			ops.push(o);
		}
		CallScript { ops }
	}
}
impl<C: Spec> Script<C> for CallScript {
	type Start = ();
	fn start(&self, _: &mut Mem<C>) -> Res { Ok(()) }
	fn root(&self, _: &()) -> Option<C::V> { None }
	fn run(&self, _: &(), db: &mut dyn Db<C::V>) -> Obs {
		let db = &mut Any::<C>(db);
		let mut o = vec![];
		for op in &self.ops {
			let go = match op {
				BOp::Insert(k) => { let (key, kids) = node::<C>(*k); let r = db.insert(key, kids.unwrap()); see(&mut o, r.map_err(bm::Error::Backend), |_| vec![]) },
				BOp::Get(k) => { let r = db.get(&node::<C>(*k).0); see(&mut o, r.map_err(bm::Error::Backend), |r| r.map(|(a, b)| [a.as_ref(), b.as_ref()].concat()).unwrap_or_default()) },
				BOp::Hold(k) => { let r = db.rootify(&node::<C>(*k).0); see(&mut o, r.map_err(bm::Error::Backend), |_| vec![]) },
				BOp::Release(k) => { let r = db.unrootify(&node::<C>(*k).0); see(&mut o, r.map_err(bm::Error::Backend), |_| vec![]) },
			};
			if !go { return o }
		}
		o
	}
	fn name(&self) -> String { format!("calls {:?}", self.ops) }
}
