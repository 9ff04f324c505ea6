//! C09: the in-memory node store against a reference store.

use crate::engine::*;
use crate::hash::*;
use bm::{ReadBackend, WriteBackend};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// Names of keys; 0 is the default value.
type K = usize;

/// Which node has which children; keys without an entry are leaves.
pub struct Universe { name: &'static str, nodes: Vec<(K, (K, K))>, keys: usize, holds: usize, proofs: Vec<Vec<K>> }

fn key(k: K) -> V { V::leaf(k as u64) }
type V = bm_le::Value;

/// What the store is supposed to hold.
#[derive(Clone, Default)]
struct Model {
	/// Entries present, with children if known and whether they were recorded by an insert.
	at: BTreeMap<K, Option<((K, K), bool)>>,
	holds: BTreeMap<K, usize>,
	/// Never removed.
	fixed: BTreeSet<K>,
}

impl Model {
	fn new() -> Self { let mut m = Model::default(); m.at.insert(0, None); m.fixed.insert(0); m }
	fn refs(&self, k: K) -> usize {
		let mut n = self.holds.get(&k).cloned().unwrap_or(0);
		for e in self.at.values() { if let Some(((l, r), true)) = e { n += (*l == k) as usize + (*r == k) as usize; } }
		n
	}
	fn insert(&mut self, k: K, c: (K, K)) {
		if let Some(Some(_)) = self.at.get(&k) { return }
		self.at.entry(c.0).or_insert(None);
		self.at.entry(c.1).or_insert(None);
		self.at.insert(k, Some((c, true)));
	}
	fn hold(&mut self, k: K) { self.at.entry(k).or_insert(None); *self.holds.entry(k).or_insert(0) += 1; }
	fn release(&mut self, k: K) {
		*self.holds.get_mut(&k).unwrap() -= 1;
		self.settle(k);
	}
	fn settle(&mut self, k: K) {
		if self.fixed.contains(&k) || self.refs(k) > 0 || !self.at.contains_key(&k) { return }
		if let Some(Some((c, counted))) = self.at.remove(&k) {
			if counted { self.settle(c.0); self.settle(c.1); }
		}
	}
	fn populate(&mut self, proof: &[(K, (K, K))]) {
		// the order within a proof must not matter: entries first, then boundary nodes
		for (k, c) in proof {
			let counted = match self.at.get(k) { Some(Some((_, true))) => true, _ => false };
			self.at.insert(*k, Some((*c, counted)));
			self.fixed.insert(*k);
		}
		for (_, c) in proof { for x in &[c.0, c.1] { if !self.at.contains_key(x) { self.at.insert(*x, None); self.fixed.insert(*x); } } }
	}
	fn h(&self) -> H {
		let mut h = H::new();
		for (k, e) in &self.at { h = h.u(*k as u64 + 100).u(match e { None => 0, Some((_, false)) => 1, Some((_, true)) => 2 }); }
		for (k, n) in &self.holds { if *n > 0 { h = h.u(*k as u64 + 200).u(*n as u64); } }
		for k in &self.fixed { h = h.u(*k as u64 + 300); }
		h
	}
}

#[derive(Clone, Debug)]
enum Act { Insert(K), Hold(K), Release(K), Populate(Vec<K>) }

fn compare<C: Spec<V = V, Value = V>>(db: &mut Mem<C>, m: &Model, u: &Universe, what: &str) -> Res<u64> {
	for k in 0..u.keys {
		let want = m.at.get(&k).and_then(|e| *e).map(|(c, _)| (key(c.0), key(c.1)));
		ensure_eq!(db.get(&key(k)), Ok(want), "{}: children of node {}", what, k);
		ensure!(db.as_ref().contains_key(&key(k)) == m.at.contains_key(&k), "{}: node {} is {} the store", what, k, if m.at.contains_key(&k) { "missing from" } else { "still in" });
	}
	ensure_eq!(db.as_ref().len(), m.at.len(), "{}: number of entries", what);
	// a key nobody ever mentioned
	ensure_eq!(db.get(&key(999)), Ok(None), "{}: an unknown key", what);
	Ok(u.keys as u64 * 2 + 2)
}

fn run<C: Spec<V = V, Value = V>>(cx: &mut Cx, u: &Universe, seed: u64) -> Res {
	let mut db = Mem::<C>::default();
	let mut m = Model::new();
	let kids: BTreeMap<K, (K, K)> = u.nodes.iter().cloned().collect();
	cx.note(|| format!("{}: {:?}", u.name, u.nodes));
	if cx.transition() { let n = compare::<C>(&mut db, &m, u, "a new store")?; cx.eval(n); }
	loop {
		cx.state(db_hash::<C>(&db).u(m.h().0).u(m.h().1).u(seed));
		let mut acts = vec![];
		for (k, _) in &u.nodes { acts.push(Act::Insert(*k)); }
		for k in 0..u.keys {
			let n = m.holds.get(&k).cloned().unwrap_or(0);
			if n < u.holds { acts.push(Act::Hold(k)); }
			if n > 0 { acts.push(Act::Release(k)); }
		}
		for p in &u.proofs { acts.push(Act::Populate(p.clone())); }
		let k = match cx.step(acts.len()) { Some(k) => k, None => return Ok(()) };
		cx.note(|| format!("{:?}", acts[k]));
		let what = format!("after {:?}", acts[k]);
		match &acts[k] {
			Act::Insert(k) => {
				let c = kids[k];
				ensure_eq!(db.insert(key(*k), (key(c.0), key(c.1))), Ok(()), "insert({})", k);
				m.insert(*k, c);
			},
			Act::Hold(k) => { ensure_eq!(db.rootify(&key(*k)), Ok(()), "rootify({})", k); m.hold(*k); },
			Act::Release(k) => { ensure_eq!(db.unrootify(&key(*k)), Ok(()), "unrootify({})", k); m.release(*k); },
			Act::Populate(p) => {
				let list: Vec<(K, (K, K))> = p.iter().map(|k| (*k, kids[k])).collect();
				let map: HashMap<V, (V, V)> = list.iter().map(|(k, c)| (key(*k), (key(c.0), key(c.1)))).collect();
				db.populate(map);
				m.populate(&list);
			},
		}
		if cx.transition() {
			let mut n = compare::<C>(&mut db, &m, u, &what)?;
			// release everything held, upwards and downwards, in a copy
			let held: Vec<K> = m.holds.iter().flat_map(|(k, n)| std::iter::repeat(*k).take(*n)).collect();
			for rev in 0..2 {
				let (mut db, mut m) = (db.clone(), m.clone());
				let order: Vec<K> = if rev == 1 { held.iter().rev().cloned().collect() } else { held.clone() };
				for k in order {
					ensure_eq!(db.unrootify(&key(k)), Ok(()), "unrootify({})", k);
					m.release(k);
					n += compare::<C>(&mut db, &m, u, &format!("{}, then releasing down to {}", what, k))?;
				}
			}
			n += compare::<C>(&mut db, &m, u, &format!("{}, after working on a copy", what))?;
			cx.eval(n);
		}
	}
}

pub fn c09(r: &mut Runner) {
	let t = r.thorough;
	let d = |a: usize, b: usize| if t { b } else { a };
	// 0 default, 1.. leaves, then nodes
	let one = || vec![vec![2], vec![3], vec![4], vec![2, 3], vec![2, 3, 4]];
	let us = vec![
		Universe { name: "chain", nodes: vec![(2, (1, 0)), (3, (2, 0)), (4, (3, 0))], keys: 5, holds: 2, proofs: one() },
		Universe { name: "twins", nodes: vec![(2, (1, 1)), (3, (2, 2)), (4, (3, 3))], keys: 5, holds: 2, proofs: one() },
		Universe { name: "diamond", nodes: vec![(2, (0, 1)), (3, (1, 2)), (4, (3, 2))], keys: 5, holds: 2, proofs: one() },
		Universe { name: "zeros", nodes: vec![(2, (0, 0)), (3, (2, 2)), (4, (2, 3))], keys: 5, holds: 2, proofs: one() },
		Universe { name: "shared", nodes: vec![(2, (0, 1)), (3, (2, 1)), (4, (2, 2))], keys: 5, holds: 2, proofs: one() },
		Universe { name: "forest", nodes: vec![(3, (1, 2)), (4, (2, 1)), (5, (3, 4)), (6, (3, 3))], keys: 7, holds: 1, proofs: vec![vec![3], vec![5], vec![3, 5], vec![3, 4, 5]] },
		Universe { name: "deep", nodes: vec![(2, (0, 1)), (3, (2, 2)), (4, (2, 3)), (5, (4, 3))], keys: 6, holds: 1, proofs: vec![vec![2], vec![4], vec![5], vec![2, 3, 4, 5]] },
	];
	for (i, u) in us.iter().enumerate() {
		r.bfs(&format!("closure/{}", u.name), 200, |cx| if i % 2 == 0 { run::<Dyn>(cx, u, 0) } else { on(UNI, || run::<Dyn>(cx, u, 0)) });
	}
	// nothing merged
	let v = &us;
	r.dfs("every history", d(5, 6), |cx| { let i = cx.choose(v.len()); run::<Dyn>(cx, &v[i], 0) });
	// a wider universe, to a depth
	let w = Universe { name: "wide", nodes: vec![(3, (0, 1)), (4, (1, 1)), (5, (1, 2)), (6, (3, 4)), (7, (3, 3)), (8, (6, 5)), (9, (7, 6)), (10, (9, 8))], keys: 11, holds: 2, proofs: vec![vec![3], vec![6], vec![9], vec![3, 6, 8], vec![3, 4, 6, 7, 9], vec![8, 9, 10]] };
	r.bfs("wide", d(5, 6), |cx| run::<Dyn>(cx, &w, 0));
}
