//! C19: every backend access fails in turn.

use crate::coll::*;
use crate::derive as dt;
use crate::engine::*;
use crate::hash::*;
use crate::le::*;
use crate::partial as pt;
use crate::raw::{bits, check_raw, Term};
use crate::script::*;
use bm::*;
use bm_le::*;
use generic_array::GenericArray;
use primitive_types::{H256, H512, U256};
use std::collections::HashMap;
use std::fmt::Debug;
use vecarray::VecArray;

/// A backend of which one access fails, without having any effect.
pub struct Faulty<DB> { pub db: DB, pub calls: u64, pub at: Option<u64> }
#[derive(Debug, Clone, PartialEq)]
pub enum Broken { Injected, Inner(String) }
const INJECTED: &str = "Injected";

impl<DB: Backend> Faulty<DB> {
	pub fn new(db: DB, at: Option<u64>) -> Self { Faulty { db, calls: 0, at } }
	/// The next accesses, counted from now.
	pub fn arm(&mut self, at: Option<u64>) { self.calls = 0; self.at = at; }
	fn call(&mut self) -> Result<(), Broken> {
		self.calls += 1;
		if self.at == Some(self.calls - 1) { Err(Broken::Injected) } else { Ok(()) }
	}
}
impl<DB: Backend> Backend for Faulty<DB> { type Construct = DB::Construct; type Error = Broken; }
impl<DB: ReadBackend> ReadBackend for Faulty<DB> where DB::Error: Debug {
	fn get(&mut self, key: &<DB::Construct as Construct>::Value) -> Result<Option<(<DB::Construct as Construct>::Value, <DB::Construct as Construct>::Value)>, Broken> { self.call()?; self.db.get(key).map_err(|e| Broken::Inner(format!("{:?}", e))) }
}
impl<DB: WriteBackend> WriteBackend for Faulty<DB> where DB::Error: Debug {
	fn rootify(&mut self, key: &<DB::Construct as Construct>::Value) -> Result<(), Broken> { self.call()?; self.db.rootify(key).map_err(|e| Broken::Inner(format!("{:?}", e))) }
	fn unrootify(&mut self, key: &<DB::Construct as Construct>::Value) -> Result<(), Broken> { self.call()?; self.db.unrootify(key).map_err(|e| Broken::Inner(format!("{:?}", e))) }
	fn insert(&mut self, key: <DB::Construct as Construct>::Value, value: (<DB::Construct as Construct>::Value, <DB::Construct as Construct>::Value)) -> Result<(), Broken> { self.call()?; self.db.insert(key, value).map_err(|e| Broken::Inner(format!("{:?}", e))) }
}

/// What is readable from some roots.
fn below<C: Spec>(db: &Mem<C>, roots: &[C::V]) -> HashMap<C::V, Option<(C::V, C::V)>> {
	reachable::<C>(db, roots).into_iter().map(|k| { let v = kids::<C>(db, &k).cloned(); (k, v) }).collect()
}
fn intact<C: Spec>(db: &Mem<C>, was: &HashMap<C::V, Option<(C::V, C::V)>>, name: &dyn Fn() -> String) -> Res<u64> {
	for (k, v) in was { if v.is_some() { ensure!(kids::<C>(db, k) == v.as_ref(), "{}: {} of another live tree is no longer readable", name(), k.short()); } }
	Ok(was.len() as u64)
}
/// Node values occurring in what was seen.
fn mentioned<C: Spec>(o: &Obs, db: &Mem<C>) -> Vec<C::V> {
	let mut out = vec![];
	for r in o { if let Ok(b) = r { for w in b.windows(C::V::BYTES) { let v = C::V::of(w); if kids::<C>(db, &v).is_some() && !out.contains(&v) { out.push(v); } } } }
	out
}

/// Every access of a script fails in turn.
pub fn failing<C: Spec, S: Script<C>>(cx: &mut Cx, s: &S, twin: bool) -> Res {
	let mut base = Mem::<C>::default();
	let mut held = vec![];
	if twin {
		// someone did the same before, and holds all that came of it
		let st = s.start(&mut base)?;
		let o = s.run(&st, &mut base);
		held = mentioned::<C>(&o, &base);
	}
	let start = s.start(&mut base)?;
	held.extend(s.root(&start));
	for k in &held { base.rootify(k).unwrap(); }
	let was = below::<C>(&base, &held);
	let mut f = Faulty::new(base.clone(), None);
	let want = s.run(&start, &mut f);
	let n = f.calls;
	intact::<C>(&f.db, &was, &|| s.name())?;
	let judge = |got: Result<Obs, String>, k: u64, on: &str, text: &str| -> Res {
		let got = got.map_err(|e| Fail(format!("{}: access {} of {} failing{}: {}", s.name(), k, n, on, e)))?;
		let ok = match got.split_last() { Some((Err(Er::Backend(t)), rest)) => t == text && want.starts_with(rest) && rest.len() < want.len(), _ => false };
		ensure!(ok, "{}: access {} of {} failing{} is not reported: {:?}, without failure {:?}", s.name(), k, n, on, got, want);
		Ok(())
	};
	let mut evals = 0;
	for k in 0..n {
		let mut f = Faulty::new(base.clone(), Some(k));
		judge(guarded(|| s.run(&start, &mut f)), k, "", INJECTED)?;
		evals += 1 + intact::<C>(&f.db, &was, &|| format!("{}, access {} of {} failing", s.name(), k, n))?;
		let mut f = Faulty::new(base.clone(), Some(k));
		judge(guarded(|| { let mut p = ProvingBackend::new(&mut f); s.run(&start, &mut p) }), k, " below a proving backend", INJECTED)?;
		let f = Faulty::new(base.clone(), Some(k));
		judge(guarded(|| { let mut d = DynBackend(f); s.run(&start, &mut d) }), k, " below an error-stripped backend", "()")?;
		evals += 2;
		cx.transition();
		cx.state(H::new().s(&s.name()).u(k).u(C::unit() as u64));
	}
	cx.note(|| format!("{}: {} accesses", s.name(), n));
	cx.eval(evals);
	Ok(())
}

const KINDS: [Kind; 9] = [Kind::Vector, Kind::List, Kind::PVec(16), Kind::PVec(32), Kind::PVec(48), Kind::PVec(8), Kind::PList(16), Kind::PList(48), Kind::PList(64)];

/// The last operation fails; then the collection is read or dropped, and other trees are as before.
fn collection<C: Spec>(cx: &mut Cx, depth: usize) -> Res {
	let kind = cx.pick(&KINDS);
	let max = cx.pick(&[None, Some(5u64)]);
	let cfg = Cfg { all_sets: false, ..Cfg::new(kind, max, true, 12, &[1]) };
	let n = cx.pick(&[0usize, 1, 2, 3, 4, 5]);
	let init: Vec<u64> = if n > 1 && cx.choose(2) == 0 { vec![1; n] } else { (0..n).map(|i| i as u64 + 1).collect() };
	let steps = 1 + cx.choose(depth);
	let s = CollScript::choose(cx, &cfg, init, steps);
	let w = kind.width(C::V::BYTES);
	let mut base = Mem::<C>::default();
	// another collection with the same contents, before or after
	let start = Script::<C>::start(&s, &mut base)?.unwrap();
	let other = CollScript { ops: vec![], ..s.clone() };
	let o = Script::<C>::start(&other, &mut base)?.unwrap();
	let mut after = other.clone();
	after.init = s.model();
	let mut held = vec![o.root.clone()];
	if cx.choose(2) == 0 { held.push(Script::<C>::start(&after, &mut base)?.unwrap().root); }
	let was = below::<C>(&base, &held);
	let model = |n: usize| -> Vec<u64> { let mut t = s.clone(); t.ops.truncate(n); t.model() };
	let run = |at: Option<u64>| -> Res<(Result<Vec<u8>, Er>, Faulty<Mem<C>>, BoxColl<C::V>)> {
		let mut f = Faulty::new(base.clone(), None);
		let mut c = leaked::<C>(kind, true, start.clone());
		let mut last = Ok(vec![]);
		for (i, op) in s.ops.iter().enumerate() {
			f.arm(if i + 1 == s.ops.len() { at } else { None });
			last = guarded(|| match op {
				COp::Push(k) => c.push(&mut f, &elem(w, *k)).map(|_| vec![]),
				COp::Pop => c.pop(&mut f).map(|x| x.unwrap_or_default()),
				COp::Set(i, k) => c.set(&mut f, *i, &elem(w, *k)).map(|_| vec![]),
				COp::Get(i) => c.get(&mut f, *i),
				_ => unreachable!(),
			}).map_err(|e| Fail(format!("{:?}, access {:?} failing: {}", s, at, e)))?;
		}
		Ok((last, f, c))
	};
	let (want, f, _) = run(None)?;
	let n = f.calls;
	let mut evals = 0;
	for k in 0..n {
		let what = || format!("{:?}: access {} of {} of the last operation failing", s, k, n);
		let (got, mut f, mut c) = run(Some(k))?;
		ensure_eq!(got, Err(Er::Backend(INJECTED.into())), "{}", what());
		f.arm(None);
		intact::<C>(&f.db, &was, &what)?;
		if let Some(COp::Get(i)) = s.ops.last() {
			// reading has no effect
			ensure_eq!(c.get(&mut f, *i), want, "{}: reading again", what());
			ensure_eq!(c.len(), model(steps).len(), "{}: length", what());
		} else if !kind.packed() && !kind.list() {
			// the tree of a vector is a raw tree: whatever its root is, it is all there
			let all = reachable::<C>(&f.db, &[c.root()]);
			let depth = |db: &Mem<C>| { let mut d = 0; let mut v = c.root(); while let Some((l, _)) = kids::<C>(db, &v) { v = l.clone(); d += 1; } d };
			ensure!(all.len() > 0 && (c.len() < 2 || C::unit() || depth(&f.db) > 0), "{}: the vector's own tree is gone", what());
		}
		let d = guarded(|| c.close(&mut f)).map_err(|e| Fail(format!("{}, then dropped: {}", what(), e)))?;
		let _ = d;
		intact::<C>(&f.db, &was, &|| format!("{}, then dropped", what()))?;
		evals += 3 + 2 * was.len() as u64;
		cx.transition();
		cx.state(H::new().s(&format!("{:?}", s)).u(k).u(held.len() as u64).u(C::unit() as u64));
	}
	cx.note(|| format!("{:?}: {} accesses", s, n));
	cx.eval(evals);
	Ok(())
}

/// A failed write leaves a raw tree as it was; it can be tried again.
fn raw<C: Spec, R: RootStatus>(cx: &mut Cx, depth: usize) -> Res {
	let at = [1usize, 2, 3, 5, 6, 7, 14];
	let mut db = Mem::<C>::default();
	let mut t = Term::zero();
	let mut raw = Raw::<R, C>::default();
	let e = |e| Fail(format!("{:?}", e));
	let n = cx.choose(depth + 1);
	let mut told = vec![];
	for _ in 0..n {
		let (i, k) = (cx.pick(&at), cx.choose(2) as u64);
		raw.set(&mut db, Index::from_one(i).unwrap(), C::V::leaf(k)).map_err(e)?;
		t = t.set(&bits(i), Term::Leaf(C::V::leaf(k)));
		told.push((i, k));
	}
	let other = Raw::<Owned, C>::from_leaked(raw.root());
	db.rootify(&other.root()).unwrap();
	let root = raw.root();
	let (i, k) = (cx.pick(&at), cx.choose(3) as u64);
	let ix = Index::from_one(i).unwrap();
	let to = t.set(&bits(i), Term::Leaf(C::V::leaf(k)));
	cx.note(|| format!("{:?} written, then {} at {}", told, k, i));
	let mut f = Faulty::new(db.clone(), None);
	let mut r = Raw::<R, C>::from_leaked(root.clone());
	r.set(&mut f, ix, C::V::leaf(k)).map_err(|e| Fail(format!("{:?}", e)))?;
	let calls = f.calls;
	let mut evals = 0;
	for c in 0..calls {
		let what = || format!("{:?} written, then {} at {} with access {} of {} failing", told, k, i, c, calls);
		let mut f = Faulty::new(db.clone(), Some(c));
		let mut r = Raw::<R, C>::from_leaked(root.clone());
		let got = guarded(|| r.set(&mut f, ix, C::V::leaf(k))).map_err(|e| Fail(format!("{}: {}", what(), e)))?;
		ensure_eq!(got, Err(Error::Backend(Broken::Injected)), "{}", what());
		ensure_eq!(r.root(), root, "{}: root", what());
		evals += check_raw::<R, C>(&r, &t, &mut f.db)?;
		evals += check_raw::<Owned, C>(&other, &t, &mut f.db)?;
		// a failing read, and reading on
		f.arm(None);
		let _ = r.get(&mut f, ix);
		let reads = f.calls;
		for d in 0..reads { f.arm(Some(d)); ensure_eq!(r.get(&mut f, ix), Err(Error::Backend(Broken::Injected)), "{}: reading with access {} failing", what(), d); }
		f.arm(None);
		// again
		ensure_eq!(r.set(&mut f, ix, C::V::leaf(k)), Ok(()), "{}: trying again", what());
		evals += check_raw::<R, C>(&r, &to, &mut f.db)?;
		evals += check_raw::<Owned, C>(&other, &t, &mut f.db)?;
		ensure_eq!(r.drop(&mut f.db), Ok(()), "{}: dropping", what());
		evals += check_raw::<Owned, C>(&other, &t, &mut f.db)?;
		// dropping fails
		if R::is_owned() {
			let mut f = Faulty::new(db.clone(), Some(0));
			let r = Raw::<R, C>::from_leaked(root.clone());
			ensure_eq!(r.drop(&mut f), Err(Error::Backend(Broken::Injected)), "{}: dropping with a failure", what());
			evals += check_raw::<Owned, C>(&other, &t, &mut f.db)?;
		}
		cx.transition();
		cx.state(H::new().b(root.as_ref()).u(i as u64).u(k).u(c).u(C::unit() as u64).u(R::is_owned() as u64));
	}
	cx.eval(evals);
	Ok(())
}

fn put<T: Le>(cx: &mut Cx, v: &T) -> Res {
	let twin = cx.choose(2) == 0;
	match cx.choose(2) {
		0 => { failing::<Dyn, _>(cx, &PutScript { v, read: true }, twin)?; failing::<Dyn, _>(cx, &ReadScript { v }, false) },
		_ => { on(UNI, || failing::<Dyn, _>(cx, &PutScript { v, read: true }, twin))?; on(UNI, || failing::<Dyn, _>(cx, &ReadScript { v }, false)) },
	}
}
fn any<T: Le>(cx: &mut Cx, _: u32) -> Res { let v = T::any(cx); put(cx, &v) }
fn nth<T: Le>(cx: &mut Cx, f: u32) -> Res { let v = T::nth(cx.choose(f as usize) as u64); put(cx, &v) }
fn listing<T: Pack>(cx: &mut Cx, n: u32) -> Res where for<'b> ElementalFixedVecRef<'b, T>: IntoCompactVectorTree, ElementalFixedVec<T>: FromCompactVectorTree, for<'b> ElementalVariableVecRef<'b, T>: IntoCompactListTree {
	let len = cx.choose(n as usize + 1);
	let v = seq::<T>(2, len);
	let max = match cx.choose(4) { 0 => None, 1 => Some(len as u64), 2 => Some(len as u64 + 1), _ => Some(1 << 20) };
	let max = if max == Some(0) { Some(1) } else { max };
	let s = SeqScript { v: &v, max, compact: cx.choose(2) == 0, vector: cx.choose(2) == 0 };
	let twin = cx.choose(2) == 0;
	failing::<Dyn, _>(cx, &s, twin)
}
fn view<T: pt::Part>(cx: &mut Cx, n: u32) -> Res where T::Value: PartialItem {
	let v = T::nth(cx.pick(&[0u64, 2]));
	let owned = cx.choose(2) == 0;
	let twin = cx.choose(2) == 0;
	let n = cx.choose(n as usize + 1);
	let mut s = pt::PartScript::choose(cx, v, owned, n);
	s.acts.push(pt::Act::Flush);
	failing::<Dyn, _>(cx, &s, twin)
}

pub fn c19(r: &mut Runner) {
	let t = r.thorough;
	let d = |a: usize, b: usize| if t { b } else { a };
	r.dfs("raw trees", 0, |cx| match cx.choose(3) { 0 => raw::<Dyn, Owned>(cx, d(2, 3)), 1 => on(UNI, || raw::<Dyn, Owned>(cx, d(2, 3))), _ => raw::<Dyn, Dangling>(cx, d(2, 3)) });
	r.dfs("histories of raw trees", 0, |cx| {
		let init: &[(usize, u64)] = match cx.choose(3) { 0 => &[], 1 => &[(4, 1), (5, 2), (6, 1), (7, 2)], _ => &[(2, 1), (6, 2), (15, 3)] };
		let owned = cx.choose(2) == 0;
		let n = cx.choose(d(2, 3) + 1);
		let mut s = RawScript::choose(cx, owned, init, &[1, 2, 3, 6, 14], 2, n);
		if cx.choose(2) == 0 { s.ops.push(ROp::Close); }
		let twin = cx.choose(2) == 0;
		if cx.choose(2) == 0 { failing::<Dyn, _>(cx, &s, twin) } else { on(UNI, || failing::<Dyn, _>(cx, &s, twin)) }
	});
	r.dfs("histories of collections", 0, |cx| {
		let kind = cx.pick(&KINDS);
		let max = cx.pick(&[None, Some(5u64)]);
		let cfg = Cfg { all_sets: false, ..Cfg::new(kind, max, cx.choose(2) == 0, 12, &[1]) };
		let n = cx.pick(&[0usize, 1, 2, 4]);
		let init: Vec<u64> = if n > 1 && cx.choose(2) == 0 { vec![1; n] } else { (0..n).map(|i| i as u64 + 1).collect() };
		let n = cx.choose(d(2, 3) + 1);
		let mut s = CollScript::choose(cx, &cfg, init, n);
		match cx.choose(3) { 0 => s.ops.push(COp::Rebuild), 1 => s.ops.push(COp::Close), _ => { } }
		let twin = cx.choose(2) == 0;
		if cx.choose(2) == 0 { failing::<Dyn, _>(cx, &s, twin) } else { on(UNI, || failing::<Dyn, _>(cx, &s, twin)) }
	});
	r.dfs("collections created", 0, |cx| {
		let kind = cx.pick(&KINDS);
		let len = if kind.list() { 0 } else { cx.choose(6) };
		let max = cx.pick(&[None, Some(len as u64 + 1), Some(9), Some(1 << if t { 33 } else { 12 })]);
		let cfg = Cfg { all_sets: false, ..Cfg::new(kind, max, cx.choose(2) == 0, 12, &[1]) };
		let n = cx.choose(3);
		let mut s = CollScript::choose(cx, &cfg, vec![0; len], n);
		s.create = Some(len);
		s.ops.push(COp::Close);
		let twin = cx.choose(2) == 0;
		if cx.choose(2) == 0 { failing::<Dyn, _>(cx, &s, twin) } else { on(UNI, || failing::<Dyn, _>(cx, &s, twin)) }
	});
	r.dfs("collections with others sharing their contents", 0, |cx| if cx.choose(2) == 0 { collection::<Dyn>(cx, d(2, 3)) } else { on(UNI, || collection::<Dyn>(cx, d(2, 3))) });
	use typenum::*;
	let mut small: Vec<TypeFn> = types![any: u8, u128, primitive_types::U256, bool, H256, H512, (), Option<u16>, Option<Option<H512>>, (u8, u64), (u8, H512, Option<u8>), Vec<u8>, Vec<H512>, [u8; 3], [H512; 3],
		GenericArray<u16, U5>, VecArray<u16, U3>, MaxVec<u32, U3>, Compact<MaxVec<u8, U33>>, Compact<MaxVec<bool, U9>>, Compact<GenericArray<u64, U9>>, Compact<VecArray<bool, U9>>, Box<H512>,
		dt::N0, dt::N1, dt::N5, dt::P0, dt::P1, dt::C1, dt::C2, dt::C3, dt::E1, dt::E2, dt::E3, dt::EC, dt::D2];
	if t { small.extend(types![any: Vec<Vec<u16>>, MaxVec<Vec<u8>, U4>]); }
	r.dfs("small values", 0, |cx| { let (_, f) = small[cx.choose(small.len())]; f(cx, 0) });
	let some: Vec<TypeFn> = types![nth: Vec<u8>, Vec<H512>, Vec<Vec<u16>>, MaxVec<Vec<u8>, U4>, MaxVec<u64, U1024>, Compact<MaxVec<u8, U257>>, Compact<MaxVec<primitive_types::U256, U9>>, [u64; 32], [u16; 17], Compact<GenericArray<u8, U100>>, VecArray<H512, U9>,
		dt::N9, dt::N17, dt::L3, dt::D3, dt::D4, dt::D5, dt::P11, dt::PC, dt::PL, dt::EF, dt::EN, dt::EL, dt::ED, dt::GC<dt::Small>];
	r.dfs("a family of values", 0, |cx| { let (_, f) = some[cx.choose(some.len())]; f(cx, d(12, 40) as u32) });
	let lists: Vec<TypeFn> = types![listing: u8, bool, u64, primitive_types::U256];
	r.dfs("lists and vectors by length", 0, |cx| { let (_, f) = lists[cx.choose(lists.len())]; f(cx, d(9, 35) as u32) });
	let views: Vec<TypeFn> = types![view: pt::K1, pt::K3, pt::M2, pt::L1, pt::L2, pt::L3, pt::LVec<u8>, pt::LVec<pt::K2>, pt::Q2, pt::Q3];
	r.dfs("partial views", 0, |cx| { let (_, f) = views[cx.choose(views.len())]; f(cx, d(2, 3) as u32) });
	r.dfs("backend calls", 0, |cx| { let n = 1 + cx.choose(d(3, 4)); let s = CallScript::choose(cx, n); let twin = cx.choose(2) == 0; failing::<Dyn, _>(cx, &s, twin) });
}
