//! C07 nothing in use is lost, C08 nothing unused is kept: several trees in one database.

use crate::coll::*;
use crate::engine::*;
use crate::hash::*;
use crate::raw::{bits, check_raw, Term};
use bm::{Dangling, Index, Leak, Owned, Raw, Tree};
use std::collections::HashSet;
use std::rc::Rc;

/// The tree of a collection as a term.
pub fn term_of<C: Spec>(kind: Kind, els: &[Vec<u8>], max: Option<u64>) -> Term<C::V> {
	fn hollow<C: Spec>(d: usize) -> Term<C::V> {
		if d == 0 || C::unit() { return Term::zero() }
		let t = hollow::<C>(d - 1);
		Term::Node(Rc::new((t.clone(), t)))
	}
	fn go<C: Spec>(leaves: &[C::V], d: usize) -> Term<C::V> {
		if leaves.is_empty() { return hollow::<C>(d) }
		if d == 0 { return Term::Leaf(leaves[0].clone()) }
		let k = leaves.len().min(1 << (d - 1));
		Term::Node(Rc::new((go::<C>(&leaves[..k], d - 1), go::<C>(&leaves[k..], d - 1))))
	}
	let t = go::<C>(&chunks::<C::V>(els), tree_depth(kind, C::V::BYTES, els.len(), max));
	if kind.list() { Term::Node(Rc::new((t, Term::Leaf(len_value(els.len() as u64))))) } else { t }
}

enum Live<C: Spec> { Raw(Raw<Owned, C>, Term<C::V>), Coll(BoxColl<C::V>, Cfg, Vec<Vec<u8>>) }

#[derive(Clone, Debug)]
enum Slot { Raw, Coll(Cfg) }

struct World<C: Spec> { db: Mem<C>, slots: Vec<Option<Live<C>>>, plan: Vec<Slot> }

#[derive(Clone, Debug)]
enum Act {
	SetLeaf(usize, usize, u64),
	SetCopy(usize, usize, usize, usize),
	Op(usize, Op),
	Drop(usize),
	New(usize),
	Reown(usize),
	IntoRaw(usize),
	ViewLeaf(usize, usize, u64),
	ViewCopy(usize, usize, usize),
	ViewOp(usize, Op),
}

pub const READ: u32 = 1;
pub const KEYS: u32 = 2;
/// Operations through dangling views as well.
pub const VIEWS: u32 = 4;

struct Lim { idx: Vec<usize>, from: Vec<usize>, leaves: u64, depth: usize, into_raw: bool }

impl<C: Spec> Live<C> {
	fn term(&self) -> Term<C::V> { match self { Live::Raw(_, t) => t.clone(), Live::Coll(_, c, m) => term_of::<C>(c.kind, m, c.max) } }
	fn root(&self) -> C::V { match self { Live::Raw(r, _) => r.root(), Live::Coll(c, ..) => c.root() } }
	fn h(&self) -> H {
		match self {
			Live::Raw(r, t) => t.h(H::new()).b(r.root().as_ref()),
			Live::Coll(c, cfg, m) => { let mut h = H::new().s(&cfg.show()).b(c.root().as_ref()); for e in m { h = h.b(e); } h },
		}
	}
	fn again(&self) -> Live<C> {
		match self {
			Live::Raw(r, t) => Live::Raw(Raw::from_leaked(r.metadata()), t.clone()),
			Live::Coll(c, cfg, m) => Live::Coll(leaked::<C>(cfg.kind, true, c.meta()), cfg.clone(), m.clone()),
		}
	}
	fn drop(self, db: &mut Mem<C>) -> Res {
		match self {
			Live::Raw(r, _) => ensure_eq!(r.drop(db), Ok(()), "drop of a raw tree"),
			Live::Coll(c, ..) => ensure_eq!(c.close(db), Ok(()), "drop of a collection"),
		}
		Ok(())
	}
	/// Everything in it reads as in the model.
	fn read(&self, db: &mut Mem<C>) -> Res<u64> {
		let t = self.term();
		let n = match self {
			Live::Raw(r, _) => check_raw(r, &t, db)?,
			Live::Coll(c, cfg, m) => {
				ensure_eq!(c.len(), m.len(), "length of the {}", cfg.kind.name());
				for i in 0..m.len() { ensure_eq!(c.get(db, i), Ok(m[i].clone()), "get({}) of the {}", i, cfg.kind.name()); }
				check_raw(&Raw::<Dangling, C>::from_leaked(c.root()), &t, db)? + m.len() as u64
			},
		};
		Ok(n)
	}
}

fn keys_exact<C: Spec>(db: &Mem<C>, live: &[C::V], what: &str) -> Res {
	let want = reachable::<C>(db, live);
	for k in db.as_ref().keys() { ensure!(want.contains(k), "{}: the database still holds {}, which no live tree reaches ({} nodes held, {} reachable)", what, k.short(), db.as_ref().len(), want.len()) }
	Ok(())
}

impl<C: Spec> World<C> {
	fn new(plan: &[Slot]) -> Res<Self> {
		let mut w = World { db: Mem::<C>::default(), slots: vec![], plan: plan.to_vec() };
		for i in 0..plan.len() { let l = w.fresh(i)?; w.slots.push(Some(l)); }
		Ok(w)
	}
	fn fresh(&mut self, i: usize) -> Res<Live<C>> {
		Ok(match &self.plan[i] {
			Slot::Raw => Live::Raw(Raw::default(), Term::zero()),
			Slot::Coll(cfg) => match create_as::<C>(cfg.kind, true, &mut self.db, 0, cfg.max) {
				Ok(c) => Live::Coll(c, cfg.clone(), vec![]),
				Err(e) => return Err(Fail(format!("creating {}: {:?}", cfg.show(), e))),
			},
		})
	}
	fn h(&self) -> H {
		let mut b = Bag::default();
		for s in &self.slots { match s { Some(l) => b.add(l.h()), None => b.add(H(5, 5)) } }
		let c = b.h();
		db_hash::<C>(&self.db).u(c.0).u(c.1)
	}
	fn acts(&self, lim: &Lim, flags: u32) -> Vec<Act> {
		let mut v = vec![];
		let nodes: Vec<Vec<usize>> = self.slots.iter().map(|s| match s {
			None => vec![],
			Some(l) => { let t = l.term(); lim.from.iter().cloned().filter(|i| match t.get(&bits(*i)) { Some(Term::Node(_)) => true, _ => false }).collect() },
		}).collect();
		for (s, l) in self.slots.iter().enumerate() {
			match l {
				None => { v.push(Act::New(s)); continue },
				Some(Live::Raw(..)) => {
					for i in &lim.idx { for k in 0..lim.leaves {
						v.push(Act::SetLeaf(s, *i, k));
						if flags & VIEWS != 0 { v.push(Act::ViewLeaf(s, *i, k)); }
					} }
					for i in &lim.idx { for (t, js) in nodes.iter().enumerate() { for j in js {
						v.push(Act::SetCopy(s, *i, t, *j));
						if flags & VIEWS != 0 && t == s { v.push(Act::ViewCopy(s, *i, *j)); }
					} } }
				},
				Some(Live::Coll(_, cfg, m)) => {
					for o in ops(cfg, m.len()) {
						v.push(Act::Op(s, o.clone()));
						if flags & VIEWS != 0 { v.push(Act::ViewOp(s, o)); }
					}
					if lim.into_raw { v.push(Act::IntoRaw(s)); }
				},
			}
			v.push(Act::Drop(s));
			v.push(Act::Reown(s));
		}
		v
	}
	/// Applies an action; false if it leaves the explored space.
	fn act(&mut self, a: &Act, lim: &Lim) -> Res<bool> {
		let ix = |i: &usize| Index::from_one(*i).unwrap();
		match a {
			Act::SetLeaf(s, i, k) => {
				let v = C::V::leaf(*k);
				if let Some(Live::Raw(r, t)) = self.slots[*s].as_mut() {
					*t = t.set(&bits(*i), Term::Leaf(v.clone()));
					ensure_eq!(r.set(&mut self.db, ix(i), v), Ok(()), "{:?}", a);
				}
			},
			Act::SetCopy(s, i, t, j) => {
				let sub = self.slots[*t].as_ref().unwrap().term().get(&bits(*j)).unwrap().clone();
				let from = Raw::<Dangling, C>::from_leaked(self.slots[*t].as_ref().unwrap().root());
				let got = from.subtree(&mut self.db, ix(j)).map(|x| x.root());
				ensure_eq!(got, Ok(sub.hash::<C>()), "subtree {} of tree {}", j, t);
				if let Some(Live::Raw(r, m)) = self.slots[*s].as_mut() {
					let new = m.set(&bits(*i), sub.clone());
					if new.depth() > lim.depth { return Ok(false) }
					*m = new;
					ensure_eq!(r.set(&mut self.db, ix(i), sub.hash::<C>()), Ok(()), "{:?}", a);
				}
			},
			Act::Op(s, o) => {
				if let Some(Live::Coll(c, cfg, m)) = self.slots[*s].as_mut() { apply::<C>(c, cfg, m, &mut self.db, o)?; }
			},
			Act::Drop(s) => { let l = self.slots[*s].take().unwrap(); l.drop(&mut self.db)?; },
			Act::New(s) => { let l = self.fresh(*s)?; self.slots[*s] = Some(l); },
			Act::Reown(s) => { let l = self.slots[*s].as_ref().unwrap().again(); self.slots[*s] = Some(l); },
			Act::IntoRaw(s) => {
				if let Some(Live::Coll(c, cfg, m)) = self.slots[*s].take() {
					let t = term_of::<C>(cfg.kind, &m, cfg.max);
					self.slots[*s] = Some(Live::Raw(Raw::from_leaked(c.raw_root()), t));
				}
			},
			Act::ViewLeaf(s, i, k) => {
				let (root, t) = { let l = self.slots[*s].as_ref().unwrap(); (l.root(), l.term()) };
				let mut r = Raw::<Dangling, C>::from_leaked(root);
				let v = C::V::leaf(*k);
				ensure_eq!(r.set(&mut self.db, ix(i), v.clone()), Ok(()), "{:?}", a);
				check_raw(&r, &t.set(&bits(*i), Term::Leaf(v)), &mut self.db)?;
				ensure_eq!(r.drop(&mut self.db), Ok(()), "drop of a dangling view");
			},
			Act::ViewCopy(s, i, j) => {
				let (root, t) = { let l = self.slots[*s].as_ref().unwrap(); (l.root(), l.term()) };
				let sub = t.get(&bits(*j)).unwrap().clone();
				let mut r = Raw::<Dangling, C>::from_leaked(root);
				ensure_eq!(r.set(&mut self.db, ix(i), sub.hash::<C>()), Ok(()), "{:?}", a);
				check_raw(&r, &t.set(&bits(*i), sub), &mut self.db)?;
				ensure_eq!(r.drop(&mut self.db), Ok(()), "drop of a dangling view");
			},
			Act::ViewOp(s, o) => {
				let (cfg, mut m, meta) = match self.slots[*s].as_ref().unwrap() { Live::Coll(c, cfg, m) => (cfg.clone(), m.clone(), c.meta()), _ => return Ok(false) };
				let mut c = leaked::<C>(cfg.kind, false, meta);
				apply::<C>(&mut c, &cfg, &mut m, &mut self.db, o)?;
				for i in 0..m.len() { ensure_eq!(c.get(&mut self.db, i), Ok(m[i].clone()), "get({}) through the view", i); }
				ensure_eq!(c.close(&mut self.db), Ok(()), "drop of a dangling view");
			},
		}
		Ok(true)
	}
	fn roots(&self) -> Vec<C::V> { self.slots.iter().flatten().map(|l| l.root()).collect() }
	fn check(&mut self, flags: u32) -> Res<u64> {
		let mut n = 0;
		if flags & READ != 0 { for l in self.slots.iter().flatten() { n += l.read(&mut self.db)?; } }
		if flags & KEYS != 0 { keys_exact::<C>(&self.db, &self.roots(), "after the operation")?; n += 1; }
		// release in every order, in a copy of the database
		let live: Vec<usize> = (0..self.slots.len()).filter(|i| self.slots[*i].is_some()).collect();
		let mut todo = vec![(vec![], live.clone(), self.db.clone())];
		while let Some((done, left, db)) = todo.pop() {
			for (k, s) in left.iter().enumerate() {
				let mut db = db.clone();
				let mut done: Vec<usize> = done.clone();
				done.push(*s);
				self.slots[*s].as_ref().unwrap().again().drop(&mut db)?;
				let mut rest = left.clone();
				rest.remove(k);
				if flags & READ != 0 { for l in &rest { n += self.slots[*l].as_ref().unwrap().read(&mut db).map_err(|e| Fail(format!("after dropping trees {:?}: tree {}: {}", done, l, e.0)))?; } }
				if flags & KEYS != 0 {
					let roots: Vec<C::V> = rest.iter().map(|l| self.slots[*l].as_ref().unwrap().root()).collect();
					keys_exact::<C>(&db, &roots, &format!("after dropping trees {:?}", done))?;
					n += 1;
					if rest.is_empty() { ensure!(db.as_ref() == Mem::<C>::default().as_ref(), "after dropping trees {:?} the database holds {:?}", done, db.as_ref()); }
				}
				if rest.len() > 0 && !(rest.len() == 1 && flags & KEYS == 0) { todo.push((done, rest, db)); }
			}
		}
		Ok(n)
	}
}

fn apply<C: Spec>(c: &mut BoxColl<C::V>, cfg: &Cfg, m: &mut Vec<Vec<u8>>, db: &mut Mem<C>, o: &Op) -> Res {
	let w = cfg.kind.width(C::V::BYTES);
	match o {
		Op::Push(k) => { let e = elem(w, *k); ensure_eq!(c.push(db, &e), Ok(()), "push({}) at length {} of {}", k, m.len(), cfg.show()); m.push(e); },
		Op::Pop => { let want = m.pop(); ensure_eq!(c.pop(db), Ok(want), "pop leaving length {} of {}", m.len(), cfg.show()); },
		Op::Set(i, k) => { let e = elem(w, *k); ensure_eq!(c.set(db, *i, &e), Ok(()), "set({}, {}) at length {} of {}", i, k, m.len(), cfg.show()); m[*i] = e; },
	}
	Ok(())
}

fn explore<C: Spec>(cx: &mut Cx, plan: &[Slot], lim: &Lim, flags: u32, seed: usize) -> Res {
	let mut w = World::<C>::new(plan)?;
	cx.note(|| format!("trees over {}: {:?}", C::name(), plan.iter().map(|s| match s { Slot::Raw => "raw".to_string(), Slot::Coll(c) => c.show() }).collect::<Vec<_>>()));
	if cx.transition() { let n = w.check(flags)?; cx.eval(n); }
	loop {
		cx.state(w.h().u(seed as u64));
		let acts = w.acts(lim, flags);
		let k = match cx.step(acts.len()) { Some(k) => k, None => return Ok(()) };
		cx.note(|| format!("{:?}", acts[k]));
		if !w.act(&acts[k], lim)? { cx.state(H(9, 9)); return Ok(()) }
		if cx.transition() { let n = w.check(flags)?; cx.eval(n); }
	}
}

fn cfg(kind: Kind, max: Option<u64>, cap: usize, alpha: &[u64]) -> Slot { Slot::Coll(Cfg::new(kind, max, true, cap, alpha)) }

fn shared(r: &mut Runner, flags: u32) {
	let t = r.thorough;
	let d = |a: usize, b: usize| if t { b } else { a };
	let raws = |n: usize| vec![Slot::Raw; n];
	let lim = |idx: &[usize], from: &[usize], leaves: u64, depth: usize| Lim { idx: idx.to_vec(), from: from.to_vec(), leaves, depth, into_raw: false };
	{
		let l = lim(&[1, 2, 3, 4, 5, 6, 7], &[1, 2, 3], 2, 3);
		r.bfs("one raw tree", d(6, 7), |cx| explore::<Dyn>(cx, &raws(1), &l, flags, 0));
		r.bfs("one raw tree/unit", d(5, 7), |cx| on(UNI, || explore::<Dyn>(cx, &raws(1), &l, flags, 0)));
	}
	{
		let l = lim(&[1, 2, 3, 6], &[1, 2, 3], 2, 3);
		r.bfs("two raw trees", d(5, 6), |cx| explore::<Dyn>(cx, &raws(2), &l, flags, 0));
	}
	{
		let l = lim(&[1, 2, 3], &[1, 2, 3], 2, 3);
		r.bfs("three raw trees", d(5, 7), |cx| explore::<Dyn>(cx, &raws(3), &l, flags, 0));
	}
	// collections next to each other, with equal contents most of the time
	let mut plans: Vec<Vec<Slot>> = vec![];
	let kinds = [
		(Kind::Vector, None), (Kind::Vector, Some(4)), (Kind::Vector, Some(3)),
		(Kind::List, None), (Kind::List, Some(4)), (Kind::List, Some(3)),
		(Kind::PVec(16), None), (Kind::PVec(16), Some(8)), (Kind::PVec(48), None), (Kind::PVec(64), Some(2)),
	];
	for (i, a) in kinds.iter().enumerate() { for b in &kinds[i..] {
		let c = |k: &(Kind, Option<u64>)| cfg(k.0, k.1, if k.0.packed() { 3 } else { 4 }, &[1, 2]);
		plans.push(vec![c(a), c(b)]);
	} }
	for (ci, name) in ["inherited", "unit"].iter().enumerate() {
		let l = lim(&[], &[], 0, 0);
		let plans = &plans;
		r.bfs(&format!("two collections/{}", name), 1 + d(6, 8), |cx| {
			let k = match cx.step(plans.len()) { Some(k) => k, None => { cx.state(H(1, 1)); return Ok(()) } };
			if ci == 0 { explore::<Dyn>(cx, &plans[k], &l, flags, k) } else { on(UNI, || explore::<Dyn>(cx, &plans[k], &l, flags, k)) }
		});
	}
	// a raw tree into which parts of a collection are copied
	let firsts: Vec<Slot> = kinds.iter().map(|k| cfg(k.0, k.1, 4, &[1, 2])).collect();
	for (ci, name) in ["inherited", "unit"].iter().enumerate() {
		let mut l = lim(&[1, 2, 3], &[1, 2, 3, 4], 2, 5);
		l.into_raw = true;
		let firsts = &firsts;
		r.bfs(&format!("a collection and a raw tree/{}", name), 1 + d(5, 6), |cx| {
			let k = match cx.step(firsts.len()) { Some(k) => k, None => { cx.state(H(1, 1)); return Ok(()) } };
			let plan = vec![firsts[k].clone(), Slot::Raw];
			if ci == 0 { explore::<Dyn>(cx, &plan, &l, flags, k) } else { on(UNI, || explore::<Dyn>(cx, &plan, &l, flags, k)) }
		});
	}
	// every history, nothing merged
	let firsts2 = firsts.clone();
	r.dfs("every history", d(4, 5), |cx| {
		let a = cx.pick(&firsts2);
		let l = lim(&[2, 3], &[1, 2], 1, 5);
		let plan = vec![match a { Slot::Coll(mut c) => { c.alpha = vec![1]; Slot::Coll(c) }, s => s }, Slot::Raw];
		if cx.choose(2) == 0 { explore::<Dyn>(cx, &plan, &l, flags, 0) } else { on(UNI, || explore::<Dyn>(cx, &plan, &l, flags, 0)) }
	});
}

pub fn c07(r: &mut Runner) {
	shared(r, READ);
	let t = r.thorough;
	let d = |a: usize, b: usize| if t { b } else { a };
	let l = Lim { idx: vec![1, 2, 3, 6], from: vec![1, 2, 3], leaves: 2, depth: 3, into_raw: false };
	r.bfs("views/raw", d(5, 6), |cx| explore::<Dyn>(cx, &[Slot::Raw], &l, READ | VIEWS, 0));
	let l2 = Lim { idx: vec![1, 2, 3], from: vec![1, 2], leaves: 2, depth: 3, into_raw: false };
	r.bfs("views/two raw trees", d(4, 5), |cx| on(UNI, || explore::<Dyn>(cx, &[Slot::Raw, Slot::Raw], &l2, READ | VIEWS, 0)));
	let kinds = [(Kind::Vector, None), (Kind::Vector, Some(4)), (Kind::List, None), (Kind::List, Some(3)), (Kind::PVec(16), None), (Kind::PVec(48), Some(3)), (Kind::PList(16), None), (Kind::PList(48), Some(4))];
	for (ci, name) in ["inherited", "unit"].iter().enumerate() {
		r.bfs(&format!("views/collections/{}", name), 1 + d(5, 6), |cx| {
			let k = match cx.step(kinds.len() * 2) { Some(k) => k, None => { cx.state(H(1, 1)); return Ok(()) } };
			let c = cfg(kinds[k / 2].0, kinds[k / 2].1, 4, &[1, 2]);
			let plan = if k % 2 == 0 { vec![c] } else { vec![c.clone(), c] };
			if ci == 0 { explore::<Dyn>(cx, &plan, &l2, READ | VIEWS, k) } else { on(UNI, || explore::<Dyn>(cx, &plan, &l2, READ | VIEWS, k)) }
		});
	}
	// packed lists sharing a database
	let pl: Vec<Slot> = vec![cfg(Kind::PList(16), None, 4, &[1, 2]), cfg(Kind::PList(48), None, 3, &[1, 2]), cfg(Kind::PList(8), Some(9), 4, &[1]), cfg(Kind::PList(64), Some(3), 3, &[1])];
	r.bfs("two packed lists", 1 + d(5, 6), |cx| {
		let k = match cx.step(pl.len() * pl.len()) { Some(k) => k, None => { cx.state(H(1, 1)); return Ok(()) } };
		explore::<Dyn>(cx, &[pl[k / pl.len()].clone(), pl[k % pl.len()].clone()], &l2, READ, k)
	});
}

/// Roots of the element trees a packed list passes through during an operation.
fn transients<C: Spec>(kind: Kind, max: Option<u64>, before: &[Vec<u8>], op: &Op, out: &mut HashSet<C::V>) {
	let (host, w) = (C::V::BYTES, kind.width(C::V::BYTES));
	let hosts_max = max.map(|m| chunk_count(kind, host, m));
	let mut ch: Vec<C::V> = chunks(before);
	let mut note = |ch: &[C::V]| { out.insert(tree::<C>(ch, depth_for(hosts_max.unwrap_or(ch.len() as u64)))); };
	fn write<V: Hv>(ch: &mut Vec<V>, at: usize, e: &[u8], note: &mut dyn FnMut(&[V])) {
		let host = V::BYTES;
		let mut o = 0;
		while o < e.len() {
			let (c, p) = ((at + o) / host, (at + o) % host);
			let n = (host - p).min(e.len() - o);
			ch[c].as_mut()[p..p + n].copy_from_slice(&e[o..o + n]);
			o += n;
			note(ch);
		}
	}
	let n = before.len();
	match op {
		Op::Push(k) => {
			while (ch.len() * host) < (n + 1) * w { ch.push(C::V::default()); note(&ch); }
			write(&mut ch, n * w, &elem(w, *k), &mut note);
		},
		Op::Set(i, k) => write(&mut ch, i * w, &elem(w, *k), &mut note),
		Op::Pop => if n > 0 {
			write(&mut ch, (n - 1) * w, &vec![0; w], &mut note);
			while ch.len() as u64 > chunk_count(kind, host, n as u64 - 1) { ch.pop(); note(&ch); }
		},
	}
}

/// One owned collection: after every operation only what it reaches is stored,
/// and after dropping it nothing is.
fn single<C: Spec>(cx: &mut Cx, c: &Cfg, len: usize, seed: usize, bound: &dyn Fn(&Cfg, usize) -> Vec<Op>) -> Res {
	let mut st = St::<C>::with_len(c, len)?;
	let mut seen = HashSet::new();
	cx.note(|| format!("{} over {}, length {}", c.show(), C::name(), len));
	let mut f = cx.transition();
	loop {
		if f { gone(cx, &st, &seen)?; }
		cx.state(st.h().u(seed as u64));
		let o = bound(c, st.model.len());
		let k = match cx.step(o.len()) { Some(k) => k, None => return Ok(()) };
		cx.note(|| format!("{:?}", o[k]));
		if c.kind.list() && c.kind.packed() { transients::<C>(c.kind, c.max, &st.model, &o[k], &mut seen); }
		st.apply(&o[k])?;
		f = cx.transition();
	}
}

fn gone<C: Spec>(cx: &mut Cx, st: &St<C>, transient: &HashSet<C::V>) -> Res {
	let packed_list = st.cfg.kind.list() && st.cfg.kind.packed();
	let excuse = |cx: &mut Cx, db: &Mem<C>, live: &[C::V], what: &str| -> Res {
		let r = keys_exact::<C>(db, live, what);
		if r.is_ok() || !packed_list { return r }
		// the finding: roots of element trees passed through within an operation stay, unreferenced
		let left: Vec<C::V> = db.as_ref().iter().filter(|(k, (_, n))| n.unwrap_or(0) == 0 && transient.contains(*k)).map(|(k, _)| k.clone()).collect();
		let mut all = live.to_vec();
		all.extend(left);
		keys_exact::<C>(db, &all, what)?;
		cx.known("C08", "packed-list-transients", || r.unwrap_err().0)
	};
	let what = format!("{} with {} elements", st.cfg.show(), st.model.len());
	excuse(cx, &st.db, &[st.coll.root()], &what)?;
	let mut db = st.db.clone();
	let c = leaked::<C>(st.cfg.kind, true, st.coll.meta());
	ensure_eq!(c.close(&mut db), Ok(()), "drop");
	excuse(cx, &db, &[], &format!("{}, dropped", what))?;
	cx.eval(2);
	Ok(())
}

pub fn c08(r: &mut Runner) {
	shared(r, KEYS);
	let t = r.thorough;
	let d = |a: usize, b: usize| if t { b } else { a };
	let mut kinds = vec![Kind::Vector, Kind::List];
	for w in WIDTHS { kinds.push(Kind::PVec(*w)); kinds.push(Kind::PList(*w)); }
	let maxes = [None, Some(1u64), Some(2), Some(3), Some(4), Some(5), Some(8)];
	for (ci, name) in ["inherited", "unit"].iter().enumerate() {
		let kinds = &kinds;
		r.bfs(&format!("one collection/{}", name), 1 + d(5, 7), |cx| {
			let k = match cx.step(kinds.len() * maxes.len()) { Some(k) => k, None => { cx.state(H(1, 1)); return Ok(()) } };
			let c = Cfg::new(kinds[k / maxes.len()], maxes[k % maxes.len()], true, 8, &[1, 2]);
			if ci == 0 { single::<Dyn>(cx, &c, 0, k, &ops) } else { on(UNI, || single::<Dyn>(cx, &c, 0, k, &ops)) }
		});
	}
	let ks = kinds.clone();
	r.dfs("created with a length", 3, |cx| {
		let k = cx.pick(&ks);
		if k.list() { return Ok(()) }
		let len = cx.choose(9);
		let max = match cx.choose(3) { 0 => None, 1 => Some((len as u64).max(1)), _ => Some(len as u64 + 2) };
		let c = Cfg { all_sets: false, ..Cfg::new(k, max, true, len + 2, &[1]) };
		single::<Dyn>(cx, &c, len, 0, &ops)
	});
	let ks = kinds.clone();
	r.dfs("every length", 0, |cx| {
		let k = cx.pick(&ks);
		let per = (32 / k.width(32)).max(1);
		let n = (d(36, 70) * per).min(300);
		let max = cx.pick(&[None, Some(n as u64), Some(1 << 40)]);
		let c = Cfg::new(k, max, true, n, &[1]);
		fn go<C: Spec>(cx: &mut Cx, c: &Cfg, n: usize) -> Res {
			let mut st = St::<C>::new(c)?;
			let mut seen = HashSet::new();
			let mut path: Vec<Op> = (0..n).map(|i| Op::Push(i as u64 / 3 + 1)).collect();
			path.extend((0..n).map(|_| Op::Pop));
			for o in path {
				if c.kind.list() && c.kind.packed() { transients::<C>(c.kind, c.max, &st.model, &o, &mut seen); }
				st.apply(&o)?;
				cx.transition();
				gone(cx, &st, &seen)?;
				cx.state(st.h());
			}
			Ok(())
		}
		cx.note(|| format!("{}: push {} and pop them", c.show(), n));
		if cx.choose(2) == 0 { go::<Dyn>(cx, &c, n) } else { on(UNI, || go::<Dyn>(cx, &c, n)) }
	});
}
