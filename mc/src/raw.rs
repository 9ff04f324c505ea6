//! C01 raw trees, C17 generalized indices.

use crate::engine::*;
use crate::hash::*;
use bm::{Dangling, Index, IndexRoute, IndexSelection, Leak, Owned, Raw, RootStatus, Tree};
use std::rc::Rc;

/// Reference model of a tree: what it is as a term.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Term<V> { Leaf(V), Node(Rc<(Term<V>, Term<V>)>) }

pub fn bits(idx: usize) -> Vec<bool> {
	let d = (usize::BITS - 1 - idx.leading_zeros()) as usize;
	(0..d).map(|i| idx >> (d - 1 - i) & 1 == 1).collect()
}

impl<V: Hv> Term<V> {
	pub fn zero() -> Self { Term::Leaf(V::default()) }
	pub fn hash<C: Spec<V = V>>(&self) -> V {
		match self { Term::Leaf(v) => v.clone(), Term::Node(n) => C::hash(&n.0.hash::<C>(), &n.1.hash::<C>()) }
	}
	pub fn get(&self, path: &[bool]) -> Option<&Term<V>> {
		match (path.split_first(), self) {
			(None, t) => Some(t),
			(Some(_), Term::Leaf(_)) => None,
			(Some((b, rest)), Term::Node(n)) => if *b { n.1.get(rest) } else { n.0.get(rest) },
		}
	}
	pub fn set(&self, path: &[bool], t: Term<V>) -> Term<V> {
		match path.split_first() {
			None => t,
			Some((b, rest)) => {
				let (l, r) = match self { Term::Leaf(_) => (Term::zero(), Term::zero()), Term::Node(n) => (n.0.clone(), n.1.clone()) };
				Term::Node(Rc::new(if *b { (l, r.set(rest, t)) } else { (l.set(rest, t), r) }))
			},
		}
	}
	pub fn depth(&self) -> usize { match self { Term::Leaf(_) => 0, Term::Node(n) => 1 + n.0.depth().max(n.1.depth()) } }
	pub fn h(&self, h: H) -> H { match self { Term::Leaf(v) => h.u(1).b(v.as_ref()), Term::Node(n) => n.1.h(n.0.h(h.u(2))) } }
}

/// Hash of every node of a term, by generalized index.
fn walk<C: Spec>(t: &Term<C::V>, idx: usize, out: &mut Vec<(usize, C::V)>) -> C::V {
	match t {
		Term::Leaf(v) => { out.push((idx, v.clone())); v.clone() },
		Term::Node(n) => {
			let l = walk::<C>(&n.0, 2 * idx, out);
			let r = walk::<C>(&n.1, 2 * idx + 1, out);
			let v = C::hash(&l, &r);
			out.push((idx, v.clone()));
			v
		},
	}
}

/// Every index of the tree reads as in the model, and there is nothing below its leaves.
pub fn check_raw<R: RootStatus, C: Spec>(raw: &Raw<R, C>, t: &Term<C::V>, db: &mut Mem<C>) -> Res<u64> {
	let mut nodes = Vec::new();
	let root = walk::<C>(t, 1, &mut nodes);
	ensure_eq!(raw.root(), root, "root of the tree {:?}", t);
	let mut n = 1;
	for (i, v) in &nodes {
		let got = raw.get(db, Index::from_one(*i).unwrap());
		ensure_eq!(got, Ok(Some(v.clone())), "get({})", i);
		n += 1;
	}
	for (i, v) in &nodes {
		if let Some(Term::Leaf(_)) = t.get(&bits(*i)) {
			for below in &[2 * i, 2 * i + 1, 4 * i + 1] {
				let got = raw.get(db, Index::from_one(*below).unwrap());
				ensure_eq!(got, Ok(None), "get({}) below the leaf {} = {}", below, i, v.short());
				n += 1;
			}
		}
	}
	ensure_eq!(raw.root(), root, "root after reading");
	Ok(n)
}

/// Histories of writes to one raw tree.
fn histories<R: RootStatus, C: Spec>(cx: &mut Cx, indices: &[usize], leaves: u64, copies: bool, maxdepth: usize) -> Res {
	let mut db = Mem::<C>::default();
	let mut raw = Raw::<R, C>::default();
	let mut model: Term<C::V> = Term::zero();
	loop {
		let fresh = cx.fresh();
		if fresh { let n = check_raw(&raw, &model, &mut db)?; cx.eval(n); }
		cx.state(model.h(db_hash::<C>(&db)).b(raw.metadata().as_ref()));
		// operations: (index, leaf) and (index, copy of what is at index)
		let present: Vec<usize> = if copies { indices.iter().cloned().filter(|i| if let Some(Term::Node(_)) = model.get(&bits(*i)) { true } else { false }).collect() } else { vec![] };
		let per = leaves as usize + present.len();
		let k = match cx.step(indices.len() * per) { Some(k) => k, None => return Ok(()) };
		let (i, s) = (indices[k / per], k % per);
		let (value, term) = if s < leaves as usize {
			let v = C::V::leaf(s as u64);
			cx.note(|| format!("set({}, leaf {})", i, s));
			(v.clone(), Term::Leaf(v))
		} else {
			let from = present[s - leaves as usize];
			cx.note(|| format!("set({}, the subtree at {})", i, from));
			let t = model.get(&bits(from)).unwrap().clone();
			let sub = raw.subtree(&mut db, Index::from_one(from).unwrap());
			let sub = match sub { Ok(s) => s, Err(e) => return Err(Fail(format!("subtree({}): {:?}", from, e))) };
			ensure_eq!(sub.root(), t.hash::<C>(), "root of subtree({})", from);
			(sub.root(), t)
		};
		model = model.set(&bits(i), term);
		if model.depth() > maxdepth { cx.state(H(7, 7)); return Ok(()) }
		let res = raw.set(&mut db, Index::from_one(i).unwrap(), value);
		cx.transition();
		ensure_eq!(res, Ok(()), "set({})", i);
	}
}

pub fn c01(r: &mut Runner) {
	let t = r.thorough;
	let two = [1usize, 2, 3, 4, 5, 6, 7];
	let three: Vec<usize> = (1..16).collect();
	let d = |a: usize, b: usize| if t { b } else { a };
	r.bfs("raw/owned/depth2/copies", d(5, 7), |cx| histories::<Owned, Dyn>(cx, &two, 2, true, 4));
	r.bfs("raw/dangling/depth2/copies", d(4, 5), |cx| histories::<Dangling, Dyn>(cx, &two, 2, true, 4));
	r.bfs("raw/owned/depth3", d(3, 4), |cx| histories::<Owned, Dyn>(cx, &three, 3, false, 4));
	r.bfs("raw/owned/depth3/copies", d(3, 4), |cx| on(UNI, || histories::<Owned, Dyn>(cx, &three, 2, true, 5)));
	r.dfs("raw/owned/every history", d(4, 5), |cx| histories::<Owned, Dyn>(cx, &two, 3, true, 4));
	r.dfs("raw/dangling/every history", d(4, 5), |cx| on(UNI, || histories::<Dangling, Dyn>(cx, &two, 3, true, 4)));
	r.dfs("raw/sha256", 3, |cx| on(SHA, || histories::<Owned, Dyn>(cx, &two, 3, true, 4)));
	r.dfs("raw/deep and wide indices", 0, |cx| deep(cx));
}

/// Few writes at deep indices, in every order.
fn deep(cx: &mut Cx) -> Res {
	let top = if cx.thorough { 63 } else { 63 };
	let depths = [1usize, 2, 5, 8, 16, 31, 32, 33, 48, 62, top];
	let mut db = Mem::<Dyn>::default();
	let mut raw = Raw::<Owned, Dyn>::default();
	let mut model: Term<bm_le::Value> = Term::zero();
	let n = 2 + cx.choose(2);
	for k in 0..n {
		let d = cx.pick(&depths);
		let i = match cx.choose(4) {
			0 => 1usize << d,
			1 => (1usize << d) + ((1usize << d) - 1),
			2 => (1usize << d) | (0x5555555555555555usize & ((1usize << d) - 1)),
			_ => (1usize << d) | (1usize << (d - 1)),
		};
		cx.note(|| format!("set({:#x}, leaf {})", i, k + 1));
		// a leaf above may cut what is below: the model says what is left
		let v = bm_le::Value::leaf(k as u64 + 1);
		model = model.set(&bits(i), Term::Leaf(v.clone()));
		let f = cx.transition();
		ensure_eq!(raw.set(&mut db, Index::from_one(i).unwrap(), v), Ok(()), "set({})", i);
		if f {
			ensure_eq!(raw.root(), model.hash::<Dyn>(), "root");
			let mut nodes = Vec::new();
			walk::<Dyn>(&model, 1, &mut nodes);
			for (i, v) in &nodes { ensure_eq!(raw.get(&mut db, Index::from_one(*i).unwrap()), Ok(Some(v.clone())), "get({:#x})", i); }
			cx.eval(nodes.len() as u64 + 1);
			cx.state(model.h(db_hash::<Dyn>(&db)));
		}
	}
	Ok(())
}

// ---- C17 ----

fn sels(idx: usize) -> Vec<IndexSelection> { bits(idx).into_iter().map(|b| if b { IndexSelection::Right } else { IndexSelection::Left }).collect() }
fn ix(i: usize) -> Index { Index::from_one(i).unwrap() }

fn single(i: usize) -> Res {
	let x = ix(i);
	let b = bits(i);
	let want = if b.is_empty() { IndexRoute::Root } else { IndexRoute::Select(sels(i)) };
	let route = x.route();
	ensure_eq!(route, want, "route of {:#x}", i);
	ensure_eq!(route.at_depth(0), None, "selection at depth 0 of {:#x}", i);
	for d in 1..b.len() + 3 {
		let want = b.get(d - 1).map(|r| if *r { IndexSelection::Right } else { IndexSelection::Left });
		ensure_eq!(route.at_depth(d), want, "selection at depth {} of {:#x}", d, i);
	}
	ensure_eq!(route.at_depth(usize::max_value()), None, "selection far below {:#x}", i);
	ensure_eq!(x.parent(), if i == 1 { None } else { Some(ix(i / 2)) }, "parent of {:#x}", i);
	// the route leads from the root to the index
	let mut cur = Index::root();
	for s in sels(i) { cur = match s { IndexSelection::Left => cur.left(), IndexSelection::Right => cur.right() }; }
	ensure_eq!(cur, x, "following the route of {:#x}", i);
	if i >> 63 == 0 {
		ensure_eq!(x.left(), ix(2 * i), "left of {:#x}", i);
		ensure_eq!(x.right(), ix(2 * i + 1), "right of {:#x}", i);
		ensure_eq!(x.left().parent(), Some(x), "parent of left of {:#x}", i);
		ensure_eq!(x.right().parent(), Some(x), "parent of right of {:#x}", i);
		ensure!(x.has_descendant(&x.left()) && x.has_descendant(&x.right()), "children of {:#x} are descendants", i);
	}
	ensure!(!x.has_descendant(&x), "{:#x} is its own descendant", i);
	ensure_eq!(Index::root().has_descendant(&x), i != 1, "root has descendant {:#x}", i);
	ensure!(!x.has_descendant(&Index::root()), "the root below {:#x}", i);
	ensure_eq!(Index::from_zero(i - 1), x, "from_zero({:#x} - 1)", i);
	ensure_eq!(Index::from_depth(i - (1usize << b.len()), b.len()), x, "from_depth of {:#x}", i);
	ensure_eq!(x.sub(Index::root()), x, "{:#x} composed with the root", i);
	ensure_eq!(Index::root().sub(x), x, "the root composed with {:#x}", i);
	Ok(())
}

fn pair(i: usize, j: usize) -> Res {
	let (x, y) = (ix(i), ix(j));
	let (bi, bj) = (bits(i), bits(j));
	let want = bj.len() > bi.len() && bj[..bi.len()] == bi[..];
	ensure_eq!(x.has_descendant(&y), want, "has_descendant({:#x}, {:#x})", i, j);
	ensure_eq!(x == y, i == j, "equality of {:#x} and {:#x}", i, j);
	if bi.len() + bj.len() <= 63 {
		let z = x.sub(y);
		let mut all = sels(i);
		all.extend(sels(j));
		let want = if all.is_empty() { IndexRoute::Root } else { IndexRoute::Select(all) };
		ensure_eq!(z.route(), want, "route of sub({:#x}, {:#x})", i, j);
		ensure_eq!(x.has_descendant(&z), j != 1, "sub({:#x}, {:#x}) below its base", i, j);
	}
	Ok(())
}

pub fn c17(r: &mut Runner) {
	let bitsn = if r.thorough { 20 } else { 16 };
	r.dfs("every index", 0, |cx| {
		let hi = cx.choose(1 << 8);
		let per = 1usize << (bitsn - 8);
		for i in hi * per..(hi + 1) * per {
			if i == 0 { ensure_eq!(Index::from_one(0), None, "from_one(0)"); ensure_eq!(Index::from_zero(0), Index::root(), "from_zero(0)"); continue }
			single(i)?;
			cx.transition();
			cx.eval(1);
			cx.state(H::new().u(i as u64));
		}
		Ok(())
	});
	let pb = if r.thorough { 12 } else { 10 };
	r.dfs("every pair of indices", 0, |cx| {
		let i = 1 + cx.choose((1 << pb) - 1);
		for j in 1..1usize << pb { pair(i, j)?; cx.transition(); }
		cx.eval((1 << pb) - 1);
		cx.state(H::new().u(i as u64));
		Ok(())
	});
	r.dfs("every triple of small indices", 0, |cx| {
		let n = 31;
		let (i, j) = (1 + cx.choose(n), 1 + cx.choose(n));
		for k in 1..n + 1 {
			ensure_eq!(ix(i).sub(ix(j)).sub(ix(k)), ix(i).sub(ix(j).sub(ix(k))), "composing {} {} {}", i, j, k);
			cx.transition();
		}
		cx.eval(n as u64);
		cx.state(H::new().u(i as u64).u(j as u64));
		Ok(())
	});
	r.dfs("boundary indices at every depth", 0, |cx| {
		let d = cx.choose(64);
		let base = 1usize << d;
		let offs: Vec<usize> = vec![0, 1, 2, base - 1, base / 2, base / 3, base.saturating_sub(2), 0x5555555555555555 & (base - 1), 0x123456789abcdef & (base - 1)];
		let off = cx.pick(&offs);
		if off >= base { return Ok(()) }
		let i = base + off;
		cx.note(|| format!("index {:#x}", i));
		ensure_eq!(Index::from_depth(off, d), ix(i), "from_depth({}, {})", off, d);
		single(i)?;
		for d2 in 0..64usize {
			let b2 = 1usize << d2;
			for o in &[0usize, b2 - 1, b2 / 2, (i >> (d.saturating_sub(d2))) & (b2 - 1)] {
				if *o < b2 { pair(i, b2 + o)?; cx.transition(); cx.eval(1); }
			}
		}
		cx.state(H::new().u(i as u64));
		Ok(())
	});
}
