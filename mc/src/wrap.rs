//! C13 the backend in use never changes results, C15 recorded proofs suffice, C16 compact proofs of histories.

use crate::coll::*;
use crate::derive as dt;
use crate::engine::*;
use crate::hash::*;
use crate::le::*;
use crate::raw::{bits, Term};
use crate::script::*;
use bm::*;
use bm_le::*;
use generic_array::GenericArray;
use primitive_types::{H256, H512, U256};
use std::collections::HashMap;
use std::fmt::Debug;
use vecarray::VecArray;

/// The script gives the same over every kind of backend.
pub fn everywhere<C: Spec, S: Script<C>>(cx: &mut Cx, s: &S) -> Res {
	let mut base = Mem::<C>::default();
	let start = s.start(&mut base)?;
	let mut plain = base.clone();
	let want = s.run(&start, &mut plain);
	let mut n = 0;
	{
		let mut same = |name: &str, got: Obs, db: &Mem<C>| -> Res {
			ensure_eq!(got, want, "{} over {}: {}", s.name(), name, "results");
			ensure!(db.as_ref() == plain.as_ref(), "{} over {}: the nodes stored differ: {:?} instead of {:?}", s.name(), name, db.as_ref(), plain.as_ref());
			n += 2;
			Ok(())
		};
		let mut m = base.clone();
		let (got, proof) = { let mut p = ProvingBackend::new(&mut m); let g = s.run(&start, &mut p); (g, Proofs::from(p)) };
		same("a proving backend", got, &m)?;
		let mut d = DynBackend(base.clone());
		let got = s.run(&start, &mut d);
		same("an error-stripped backend", got, &d.0)?;
		let mut m = base.clone();
		let got = { let mut p = DynBackend(ProvingBackend::new(&mut m)); let g = s.run(&start, &mut p); ensure_eq!(Proofs::from(p.0), proof, "proof recorded below an error-stripped backend by {}", s.name()); g };
		same("an error-stripped proving backend", got, &m)?;
		let mut d = DynBackend(base.clone());
		let got = { let mut p = ProvingBackend::new(&mut d); let g = s.run(&start, &mut p); ensure_eq!(Proofs::from(p), proof, "proof recorded over an error-stripped backend by {}", s.name()); g };
		same("a proving backend around an error-stripped one", got, &d.0)?;
		let mut m = base.clone();
		let got = { let mut p = ProvingBackend::new(&mut m); let g = { let mut q = ProvingBackend::new(&mut p); s.run(&start, &mut q) }; ensure_eq!(Proofs::from(p), proof, "proof recorded below another proving backend by {}", s.name()); g };
		same("two proving backends", got, &m)?;
	}
	// without a store: the same until something has to be read
	fn prefix(name: &str, on: &str, got: Obs, want: &Obs, text: &str) -> Res {
		for (i, g) in got.iter().enumerate() {
			match g {
				Err(Er::Backend(t)) => { ensure!(t == text, "{} over {}: {:?}", name, on, g); ensure!(i + 1 == got.len(), "harness: went on after a failure"); },
				g => ensure!(Some(g) == want.get(i), "{} over {}: step {} gives {:?}, expected {:?} or its unsupported error", name, on, i, g, want.get(i)),
			}
		}
		ensure!(got.len() == want.len() || got.last().map(|g| g.is_err()).unwrap_or(false), "{} over {}: stopped early", name, on);
		Ok(())
	}
	prefix(&s.name(), "a discarding backend", s.run(&start, &mut NoopBackend::<C>::default()), &want, "NotSupported")?;
	prefix(&s.name(), "an error-stripped discarding backend", s.run(&start, &mut DynBackend(NoopBackend::<C>::default())), &want, "()")?;
	{
		let mut noop = NoopBackend::<C>::default();
		let mut p = ProvingBackend::new(&mut noop);
		let got = s.run(&start, &mut p);
		prefix(&s.name(), "a proving discarding backend", got, &want, "NotSupported")?;
		ensure!(Proofs::from(p).is_empty(), "{}: something was proved of a discarding backend", s.name());
	}
	cx.note(|| s.name());
	cx.transition();
	cx.eval(n + 4);
	let mut h = db_hash::<C>(&plain);
	for w in &want { h = match w { Ok(b) => h.b(b), Err(e) => h.s(&format!("{:?}", e)) }; }
	cx.state(h);
	Ok(())
}

/// Merkleizing without a store gives the root.
pub fn rootless<C: LeC>(cx: &mut Cx, name: &dyn Fn() -> String, want: Value, put: &dyn Fn(&mut NoopBackend<C>) -> Result<Value, String>) -> Res {
	let got = put(&mut NoopBackend::default());
	ensure_eq!(got, Ok(want), "root of {} over a discarding backend", name());
	cx.eval(1);
	Ok(())
}

pub fn value<T: Le, C: LeC>(cx: &mut Cx, v: &T) -> Res {
	rootless::<C>(cx, &|| format!("{:?}", v), v.spec::<C>(), &|db| put::<T, C>(v, db))?;
	everywhere::<C, _>(cx, &PutScript { v, read: true })?;
	everywhere::<C, _>(cx, &ReadScript { v })
}

/// Initial contents of collections, by length.
fn contents(cx: &mut Cx, lens: &[usize]) -> Vec<u64> {
	let n = cx.pick(lens);
	match if n < 2 { 0 } else { cx.choose(3) } { 0 => (0..n).map(|i| i as u64 + 1).collect(), 1 => vec![1; n], _ => vec![0; n] }
}

const KINDS: [Kind; 9] = [Kind::Vector, Kind::List, Kind::PVec(16), Kind::PVec(32), Kind::PVec(48), Kind::PVec(8), Kind::PList(16), Kind::PList(48), Kind::PList(64)];

/// A collection script, chosen.
fn coll_script(cx: &mut Cx, n: usize, lens: &[usize], maxes: &[Option<u64>]) -> CollScript {
	let kind = cx.pick(&KINDS);
	let max = cx.pick(maxes);
	let mut cfg = Cfg::new(kind, max, cx.choose(2) == 0, 12, &[1]);
	cfg.all_sets = false;
	let mut lens = lens.to_vec();
	if let Some(m) = max { lens.retain(|l| *l as u64 <= m); }
	let init = contents(cx, &lens);
	let k = cx.choose(n + 1);
	CollScript::choose(cx, &cfg, init, k)
}

const SMALL: [(usize, u64); 4] = [(2, 1), (6, 2), (7, 2), (15, 3)];
const TWINS: [(usize, u64); 6] = [(4, 1), (5, 2), (6, 1), (7, 2), (10, 3), (14, 3)];
const FULL: [(usize, u64); 4] = [(4, 1), (5, 2), (6, 3), (7, 4)];

fn raw_script(cx: &mut Cx, n: usize) -> RawScript {
	let init: &[(usize, u64)] = match cx.choose(4) { 0 => &[], 1 => &SMALL, 2 => &TWINS, _ => &FULL };
	let owned = cx.choose(2) == 0;
	let k = cx.choose(n + 1);
	RawScript::choose(cx, owned, init, &[1, 2, 3, 5, 6, 14], 2, k)
}

pub fn c13(r: &mut Runner) {
	grid(r, WRAP);
	dt::values(r, WRAP);
	let t = r.thorough;
	let d = |a: usize, b: usize| if t { b } else { a };
	r.dfs("histories of collections", 0, |cx| {
		let s = coll_script(cx, d(3, 4), &[0, 1, 3, 4, 7], &[None, Some(8), Some(5)]);
		if cx.choose(2) == 0 { everywhere::<Dyn, _>(cx, &s) } else { on(UNI, || everywhere::<Dyn, _>(cx, &s)) }
	});
	r.dfs("collections created by the history", 0, |cx| {
		let kind = cx.pick(&KINDS);
		let len = if kind.list() { 0 } else { cx.choose(6) };
		let max = cx.pick(&[None, Some(len as u64 + 1), Some(9), Some(1 << 33)]);
		let cfg = Cfg { all_sets: false, ..Cfg::new(kind, max, cx.choose(2) == 0, 12, &[1]) };
		let n = cx.choose(4);
		let mut s = CollScript::choose(cx, &cfg, vec![0; len], n);
		s.create = Some(len);
		if cx.choose(2) == 0 { s.ops.push(COp::Rebuild); }
		s.ops.push(COp::Close);
		everywhere::<Dyn, _>(cx, &s)
	});
	r.dfs("histories of raw trees", 0, |cx| {
		let mut s = raw_script(cx, d(3, 4));
		if cx.choose(2) == 0 { s.ops.push(ROp::Close); }
		if cx.choose(2) == 0 { everywhere::<Dyn, _>(cx, &s) } else { on(UNI, || everywhere::<Dyn, _>(cx, &s)) }
	});
	r.dfs("histories of backend calls", 0, |cx| {
		let n = cx.choose(d(4, 5)) + 1;
		let s = CallScript::choose(cx, n);
		everywhere::<Dyn, _>(cx, &s)
	});
	crate::partial::backends(r, d(3, 4) as u32);
	r.dfs("small chunks and sha256", 0, |cx| {
		let kind = cx.pick(&[Kind::Vector, Kind::List, Kind::PVec(4), Kind::PList(4), Kind::PVec(12)]);
		let kind = if kind == Kind::PVec(12) { Kind::PVec(16) } else { kind };
		let cfg = Cfg { all_sets: false, ..Cfg::new(kind, cx.pick(&[None, Some(7)]), cx.choose(2) == 0, 12, &[1]) };
		let init = contents(cx, &[0, 2, 5]);
		let n = cx.choose(3);
		let s = CollScript::choose(cx, &cfg, init, n);
		match cx.choose(3) { 0 => on(UNI, || everywhere::<Dyn8, _>(cx, &s)), 1 => everywhere::<Dyn8, _>(cx, &s), _ => on(SHA, || everywhere::<Dyn, _>(cx, &s)) }
	});
}

// ---- C15 ----

/// What is recorded while the script runs suffices to run it again without the database
/// (and, with `compact`, survives being turned into compact form and back).
pub fn proves<C: Spec, S: Script<C>>(cx: &mut Cx, s: &S, compact: bool) -> Res {
	let mut base = Mem::<C>::default();
	let start = s.start(&mut base)?;
	let mut m = base.clone();
	let mut p = ProvingBackend::new(&mut m);
	let want = s.run(&start, &mut p);
	let proof = Proofs::from(p);
	verify::<C, S>(cx, s, &start, &base, &want, &proof, compact)
}

pub fn verify<C: Spec, S: Script<C>>(cx: &mut Cx, s: &S, start: &S::Start, base: &Mem<C>, want: &Obs, proof: &Proofs<C::V>, compact: bool) -> Res {
	// every entry is a node of the old tree
	let root = s.root(start);
	let old = reachable::<C>(base, &root.iter().cloned().collect::<Vec<_>>());
	for (k, (l, r)) in proof.iter() {
		ensure_eq!(C::hash(l, r), *k, "{}: hash of a proof entry", s.name());
		ensure!(old.contains(k) && kids::<C>(base, k) == Some(&(l.clone(), r.clone())), "{}: the proof entry {} is not a node of the tree as it was", s.name(), k.short());
	}
	// replay from the proof alone
	let replay = |proof: HashMap<C::V, (C::V, C::V)>, what: &str| -> Res {
		let mut fresh = Mem::<C>::default();
		fresh.populate(proof);
		// an owned tree holds its root
		if let (true, Some(r)) = (s.owned(), &root) { fresh.rootify(r).unwrap(); }
		let got = guarded(|| s.run(start, &mut fresh)).map_err(|e| Fail(format!("{}: replayed from {}: {}", s.name(), what, e)))?;
		ensure!(got == *want, "{}: replayed from {} gives {:?}, expected {:?}", s.name(), what, got, want);
		Ok(())
	};
	replay(proof.clone().into(), "its proof")?;
	let mut n = proof.len() as u64 + 1;
	if let (true, Some(root)) = (compact && s.rooted(), root.clone()) {
		let c = proof.into_compact(root.clone());
		ensure_eq!(c.clone().root::<C>(), root, "{}: root of the compact proof", s.name());
		let (back, r) = Proofs::from_compact::<C>(c);
		ensure_eq!(r, root, "{}: root of the proof taken from its compact form", s.name());
		let lost = proof.keys().filter(|k| !back.contains_key(*k)).count();
		if lost == 0 { ensure_eq!(back, *proof, "{}: the proof, taken from its compact form", s.name()); }
		else if s.grafts() {
			// the finding: a node made by the history before being met in the old tree is in no proof, nor what is below it in the compact form
			cx.known("C16", "compact-graft", || format!("{}: the compact form loses {} entries", s.name(), lost))?;
		} else { return Err(Fail(format!("{}: the compact form loses {} entries of the proof", s.name(), lost))) }
		if lost == 0 { replay(back.into(), "the compact form of its proof")?; }
		n += 3;
	}
	cx.note(|| format!("{} ({} nodes in the proof)", s.name(), proof.len()));
	cx.transition();
	cx.eval(n);
	let mut b = Bag::default();
	for k in proof.keys() { b.add(k.h()); }
	let mut h = b.h();
	for w in want { h = match w { Ok(b) => h.b(b), Err(e) => h.s(&format!("{:?}", e)) }; }
	cx.state(h);
	Ok(())
}

/// The history is interrupted everywhere, keeping the state of the proving backend.
fn interrupted<C: Spec>(cx: &mut Cx, s: &CollScript) -> Res {
	let mut base = Mem::<C>::default();
	let start: Option<Meta<C::V>> = Script::<C>::start(s, &mut base)?;
	let mut whole = base.clone();
	let proof = { let mut p = ProvingBackend::new(&mut whole); Script::<C>::run(s, &start, &mut p); Proofs::from(p) };
	let mut m = base.clone();
	let mut state = ProvingState::default();
	let mut c = leaked::<C>(s.cfg.kind, s.cfg.owned, start.clone().unwrap());
	for o in &s.ops {
		let meta = c.meta();
		let mut p = ProvingBackend::from_state(state, &mut m);
		let mut d = leaked::<C>(s.cfg.kind, s.cfg.owned, meta);
		let w = s.cfg.kind.width(C::V::BYTES);
		let _ = match o { COp::Push(k) => d.push(&mut p, &elem(w, *k)).is_ok(), COp::Pop => d.pop(&mut p).is_ok(), COp::Set(i, k) => d.set(&mut p, *i, &elem(w, *k)).is_ok(), COp::Get(i) => d.get(&mut p, *i).is_ok(), _ => true };
		let meta = d.meta();
		drop(d);
		state = p.into_state();
		c = leaked::<C>(s.cfg.kind, s.cfg.owned, meta);
	}
	let got = Proofs::from(state);
	ensure_eq!(got, proof, "{}: proof of the interrupted recording", s.name_of());
	ensure!(m.as_ref() == whole.as_ref(), "{}: nodes stored by the interrupted recording", s.name_of());
	cx.transition();
	cx.eval(2);
	Ok(())
}
impl CollScript { fn name_of(&self) -> String { Script::<Dyn>::name(self) } }

pub fn read<T: Le, C: LeC>(cx: &mut Cx, v: &T, compact: bool) -> Res { proves::<C, _>(cx, &ReadScript { v }, compact) }
fn reads_any<T: Le>(cx: &mut Cx, f: u32) -> Res { let v = T::any(cx); match cx.choose(3) { 0 => read::<T, Dyn>(cx, &v, f > 0), 1 => on(UNI, || read::<T, Dyn>(cx, &v, f > 0)), _ => on(SHA, || read::<T, Dyn>(cx, &v, f > 0)) } }
fn reads_nth<T: Le>(cx: &mut Cx, f: u32) -> Res { let v = T::nth(cx.choose(12) as u64); if cx.choose(2) == 0 { read::<T, Dyn>(cx, &v, f > 0) } else { on(UNI, || read::<T, Dyn>(cx, &v, f > 0)) } }

pub fn c15(r: &mut Runner) {
	let t = r.thorough;
	histories(r, false, if t { 4 } else { 3 });
}

/// Histories and what is proved of them.
pub fn histories(r: &mut Runner, compact: bool, depth: usize) {
	r.dfs("histories of collections", 0, |cx| {
		let s = coll_script(cx, depth, &[0, 1, 2, 4, 7], &[None, Some(8), Some(5)]);
		if cx.choose(2) == 0 { proves::<Dyn, _>(cx, &s, compact) } else { on(UNI, || proves::<Dyn, _>(cx, &s, compact)) }
	});
	r.dfs("longer histories", 0, |cx| {
		let kind = cx.pick(&[Kind::Vector, Kind::List, Kind::PVec(16), Kind::PList(48)]);
		let mut cfg = Cfg::new(kind, cx.pick(&[None, Some(6)]), cx.choose(2) == 0, 12, &[1]);
		cfg.all_sets = false;
		let init = contents(cx, &[0, 3, 4]);
		let s = CollScript::choose(cx, &cfg, init, depth + 1);
		proves::<Dyn, _>(cx, &s, compact)
	});
	r.dfs("histories with two values", 0, |cx| {
		let kind = cx.pick(&[Kind::Vector, Kind::List, Kind::PVec(16), Kind::PVec(48), Kind::PList(16), Kind::PList(48)]);
		let max = cx.pick(&[None, Some(5u64)]);
		let cfg = Cfg::new(kind, max, cx.choose(2) == 0, 6, &[1, 0]);
		let init = contents(cx, &[0, 3, 4]);
		let n = cx.choose(depth + 1);
		let s = CollScript::choose(cx, &cfg, init, n);
		proves::<Dyn, _>(cx, &s, compact)
	});
	r.dfs("large collections", 0, |cx| {
		let kind = cx.pick(&KINDS);
		let per = (32 / kind.width(32)).max(1);
		let len = cx.pick(&[8, 15, 16, 17, 31, 32, 33, 64]) * per + cx.choose(2);
		let max = cx.pick(&[None, Some(len as u64), Some(len as u64 + 1), Some(1 << 33)]);
		let cfg = Cfg { all_sets: false, ..Cfg::new(kind, max, cx.choose(2) == 0, len + 9, &[1]) };
		let init: Vec<u64> = match cx.choose(2) { 0 => (0..len).map(|i| i as u64 + 1).collect(), _ => vec![1; len] };
		let n = cx.choose(3);
		let s = CollScript::choose(cx, &cfg, init, n);
		proves::<Dyn, _>(cx, &s, compact && max != Some(1 << 33))
	});
	r.dfs("leaked and rebuilt within the history", 0, |cx| {
		let mut s = coll_script(cx, depth, &[0, 1, 4, 5], &[None, Some(6)]);
		let at = cx.choose(s.ops.len() + 1);
		s.ops.insert(at, COp::Rebuild);
		if cx.choose(2) == 0 { s.ops.push(COp::Close); }
		proves::<Dyn, _>(cx, &s, compact)
	});
	if !compact { r.dfs("interrupted recordings", 0, |cx| {
		let s = coll_script(cx, depth, &[0, 1, 4, 7], &[None, Some(8)]);
		if cx.choose(2) == 0 { interrupted::<Dyn>(cx, &s) } else { on(UNI, || interrupted::<Dyn>(cx, &s)) }
	}); }
	r.dfs("histories of raw trees", 0, |cx| {
		let mut s = raw_script(cx, depth);
		if cx.choose(2) == 0 { s.ops.push(ROp::Close); }
		if cx.choose(2) == 0 { proves::<Dyn, _>(cx, &s, compact) } else { on(UNI, || proves::<Dyn, _>(cx, &s, compact)) }
	});
	r.dfs("subtrees written by their hash", 0, |cx| {
		let init: &[(usize, u64)] = match cx.choose(3) { 0 => &TWINS, 1 => &FULL, _ => &[(8, 1), (9, 2), (5, 3), (6, 4), (7, 5)] };
		let t = RawScript { owned: true, init: init.to_vec(), ops: vec![] }.before::<Dyn>();
		let inner: Vec<usize> = (2..8).filter(|i| t.get(&bits(*i)).is_some()).collect();
		fn nodes(t: &Term<Value>, out: &mut Vec<Value>) { out.push(t.hash::<Dyn>()); if let Term::Node(n) = t { nodes(&n.0, out); nodes(&n.1, out); } }
		let owned = cx.choose(2) == 0;
		let n = cx.choose(depth + 1);
		let mut now = t.clone();
		let mut ops = vec![];
		for _ in 0..n {
			let mut all: Vec<ROp> = vec![ROp::Get(4), ROp::Get(8), ROp::Get(10), ROp::Get(14)];
			// a subtree that is no longer held may be gone
			let mut live = vec![];
			nodes(&now, &mut live);
			for j in &inner { if !owned || live.contains(&t.get(&bits(*j)).unwrap().hash::<Dyn>()) { for i in &[2usize, 3, 6, 7, 5] { all.push(ROp::Graft(*i, *j)); } } }
			let o = cx.pick(&all);
			if let ROp::Graft(i, j) = &o { now = now.set(&bits(*i), t.get(&bits(*j)).unwrap().clone()); }
			ops.push(o);
		}
		proves::<Dyn, _>(cx, &RawScript { owned, init: init.to_vec(), ops }, compact)
	});
	r.dfs("histories of raw trees over sha256", 0, |cx| {
		let s = raw_script(cx, 2);
		if cx.choose(2) == 0 { on(SHA, || proves::<Dyn, _>(cx, &s, compact)) } else { on(SHAUNI, || proves::<Dyn, _>(cx, &s, compact)) }
	});
	crate::partial::proofs(r, depth as u32 + !compact as u32, compact);
	if !compact { crate::partial::equal(r, depth as u32); }
	r.dfs("decoding", 0, |cx| {
		use typenum::*;
		let mut t: Vec<TypeFn> = types![reads_any:
			u8, u64, primitive_types::U256, bool, H256, H512, (), Option<u16>, Option<Option<H512>>, (u8, u64), (u8, H512, Option<u8>), Vec<u8>, Vec<H512>, Vec<Vec<u16>>, [u8; 3], [H512; 3],
			GenericArray<u16, U5>, VecArray<u16, U3>, MaxVec<u32, U3>, MaxVec<Vec<u8>, U4>, Compact<MaxVec<u8, U33>>, Compact<MaxVec<bool, U9>>, Compact<GenericArray<u64, U9>>, Box<H512>,
			dt::N0, dt::N1, dt::N5, dt::P0, dt::P1, dt::C1, dt::C2, dt::E1, dt::E2];
		t.extend::<Vec<TypeFn>>(types![reads_nth: Vec<u8>, Vec<H512>, MaxVec<u64, U1024>, Compact<MaxVec<u8, U257>>, Compact<MaxVec<primitive_types::U256, U9>>, [u64; 32], [u16; 17], Compact<GenericArray<u8, U100>>, VecArray<H512, U9>, dt::N9, dt::N17, dt::L3]);
		let (_, f) = t[cx.choose(t.len())];
		f(cx, compact as u32)
	});
}

