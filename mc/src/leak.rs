//! C20: trees are leaked and rebuilt, beside a twin that is not.

use crate::coll::*;
use crate::engine::*;
use crate::hash::*;
use crate::raw::{bits, check_raw, Term};
use crate::script::rebuilt;
use crate::with_width;
use bm::*;
use generic_array::GenericArray;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Way {
	/// Through the metadata.
	Meta,
	/// Through the raw tree it converts to.
	Raw,
	/// Through the deconstructed root.
	Deconstruct,
	/// From the root, without deconstructing.
	Root,
	/// As a bare mixed-length tree, from the root.
	Mixed,
	/// A second, dangling handle is made, used for reading and dropped.
	View,
}
fn ways(kind: Kind) -> &'static [Way] {
	match kind {
		Kind::Vector | Kind::PVec(_) => &[Way::Meta, Way::Raw, Way::View],
		Kind::List => &[Way::Meta, Way::Deconstruct, Way::Root, Way::Mixed, Way::View],
		Kind::PList(_) => &[Way::Meta, Way::Mixed, Way::View],
	}
}

/// A mixed-length tree used for itself.
struct Mix<R: RootStatus, C: Spec, S: Sequence<Construct = C, RootStatus = Dangling>>(LengthMixed<R, C, S>, Option<u64>);
type Packed<R, C, W> = PackedVector<R, C, GenericArray<u8, W>, ArrLen<<C as Spec>::V>, W>;

macro_rules! mixed { ($s:ty, $inner:ident, $arg:expr, $ret:expr $(, $w:ident)?) => {
	impl<R: RootStatus, C: Spec $(, $w: generic_array::ArrayLength<u8> + 'static)?> Coll<C::V> for Mix<R, C, $s> {
		fn push(&mut self, db: &mut dyn Db<C::V>, e: &[u8]) -> Result<(), Er> { Ok(self.0.with_mut(&mut Any::<C>(db), |s, db| s.push(db, $arg(e)))?) }
		fn pop(&mut self, db: &mut dyn Db<C::V>) -> Result<Option<Vec<u8>>, Er> { Ok(self.0.with_mut(&mut Any::<C>(db), |s, db| s.pop(db))?.map($ret)) }
		fn get(&self, db: &mut dyn Db<C::V>, i: usize) -> Result<Vec<u8>, Er> { Ok(self.0.with(&mut Any::<C>(db), |s, db| s.get(db, i)).map($ret)?) }
		fn set(&mut self, db: &mut dyn Db<C::V>, i: usize, e: &[u8]) -> Result<(), Er> { Ok(self.0.with_mut(&mut Any::<C>(db), |s, db| s.set(db, i, $arg(e)))?) }
		fn len(&self) -> usize { Sequence::len(&self.0) }
		fn root(&self) -> C::V { Tree::root(&self.0) }
		fn close(self: Box<Self>, db: &mut dyn Db<C::V>) -> Result<(), Er> { Tree::drop(self.0, &mut Any::<C>(db)).map_err(Er::from) }
		fn raw_root(self: Box<Self>) -> C::V { Tree::into_raw(self.0).root() }
		fn meta(&self) -> Meta<C::V> { let (root, (inner, len, max)) = self.0.metadata(); Meta { inner, root, len, max } }
		fn deconstruct(self: Box<Self>, db: &mut dyn Db<C::V>) -> Option<Result<C::V, Er>> { Some(self.0.deconstruct(&mut Any::<C>(db)).map_err(Er::from)) }
	}
} }
fn arr<W: generic_array::ArrayLength<u8>>(e: &[u8]) -> GenericArray<u8, W> { GenericArray::clone_from_slice(e) }
mixed!(Vector<Dangling, C>, Vector, C::V::of, |v| v.as_ref().to_vec());
mixed!(Packed<Dangling, C, W>, PackedVector, arr, |v| v.to_vec(), W);

fn mixed<R: RootStatus + 'static, C: Spec>(kind: Kind, root: C::V, db: &mut dyn Db<C::V>, max: Option<u64>) -> Result<BoxColl<C::V>, Er> {
	Ok(match kind {
		Kind::List => Box::new(Mix(LengthMixed::<R, C, Vector<Dangling, C>>::reconstruct(root, &mut Any::<C>(db), |raw, _, n| Ok(raw.into_vector(n, max)))?, max)),
		Kind::PList(w) => with_width!(w, W, Box::new(Mix(LengthMixed::<R, C, Packed<Dangling, C, W>>::reconstruct(root, &mut Any::<C>(db), |raw, _, n| Ok(PackedVector::from_raw(raw, n, max)))?, max))),
		_ => unreachable!(),
	})
}
fn from_raw<R: RootStatus + 'static, C: Spec>(kind: Kind, root: C::V, len: usize, max: Option<u64>) -> BoxColl<C::V> {
	let raw = Raw::<R, C>::from_leaked(root);
	match kind {
		Kind::Vector => Box::new(raw.into_vector(len, max)),
		Kind::PVec(w) => with_width!(w, W, Box::new(Packed::<R, C, W>::from_raw(raw, len, max))),
		Kind::List => Box::new(raw.into_list(len, max)),
		_ => unreachable!(),
	}
}

/// Leaks and rebuilds.
fn again<C: Spec>(kind: Kind, owned: bool, max: Option<u64>, mut c: BoxColl<C::V>, db: &mut dyn Db<C::V>, way: Way, between: &mut dyn FnMut(&mut dyn Db<C::V>) -> Res) -> Res<BoxColl<C::V>> {
	let e = |e: Er| Fail(format!("{} leaked and rebuilt ({:?}): {:?}", kind.name(), way, e));
	let (len, root) = (c.len(), c.root());
	let max = match way { Way::Meta | Way::View => c.meta().max, _ => max };
	let mut go = |db: &mut dyn Db<C::V>| -> Res<()> { between(db) };
	Ok(match way {
		Way::Meta => { let m = c.meta(); drop(c); go(db)?; leaked::<C>(kind, owned, m) },
		Way::Raw => { let r = c.raw_root(); ensure_eq!(r, root, "root of the raw tree of a {}", kind.name()); go(db)?; if owned { from_raw::<Owned, C>(kind, r, len, max) } else { from_raw::<Dangling, C>(kind, r, len, max) } },
		Way::Deconstruct => {
			let r = c.deconstruct(db).unwrap().map_err(e)?;
			ensure_eq!(r, root, "root left by deconstructing a {}", kind.name());
			go(db)?;
			rebuilt::<C>(owned, r, db, max).map_err(e)?
		},
		Way::Root => { drop(c); go(db)?; rebuilt::<C>(owned, root, db, max).map_err(e)? },
		Way::Mixed => { drop(c); go(db)?; if owned { mixed::<Owned, C>(kind, root, db, max).map_err(e)? } else { mixed::<Dangling, C>(kind, root, db, max).map_err(e)? } },
		Way::View => {
			let v = leaked::<C>(kind, false, c.meta());
			for i in 0..len { ensure_eq!(v.get(db, i), c.get(db, i), "get({}) of a view", i); }
			v.close(db).map_err(e)?;
			go(db)?;
			// the handle itself is used on
			std::mem::replace(&mut c, leaked::<C>(kind, false, Meta { root: C::V::default(), inner: C::V::default(), len: 0, max: None }))
		},
	})
}

/// Two databases and two handles; the second is leaked and rebuilt.
struct Twins<C: Spec> { cfg: Cfg, a: St<C>, b: St<C> }
impl<C: Spec> Twins<C> {
	fn new(cfg: &Cfg, created: usize) -> Res<Self> { Ok(Twins { cfg: cfg.clone(), a: St::with_len(cfg, created)?, b: St::with_len(cfg, created)? }) }
	fn apply(&mut self, op: &Op) -> Res { self.a.apply(op)?; self.b.apply(op) }
	fn same(&mut self, what: &dyn Fn() -> String) -> Res<u64> {
		ensure!(self.a.coll.root() == self.b.coll.root(), "{}: another root than without", what());
		ensure_eq!(self.b.coll.meta(), self.a.coll.meta(), "{}: metadata", what());
		ensure_eq!(self.b.coll.len(), self.a.model.len(), "{}: length", what());
		ensure!(self.a.db.as_ref() == self.b.db.as_ref(), "{}: another database than without", what());
		Ok(4)
	}
	/// Someone else has the same contents for a while.
	fn other(cfg: &Cfg, model: &[Vec<u8>], db: &mut dyn Db<C::V>) -> Res {
		let mut o = create::<C>(cfg.kind, db, 0, cfg.max).map_err(|e| Fail(format!("{:?}", e)))?;
		for e in model { ensure_eq!(o.push(db, e), Ok(()), "push of another {}", cfg.show()); }
		ensure_eq!(o.close(db), Ok(()), "dropping another {}", cfg.show());
		Ok(())
	}
	fn rebuild(&mut self, way: Way, disturbed: bool) -> Res<u64> {
		let (cfg, model) = (self.cfg.clone(), self.a.model.clone());
		if disturbed { Self::other(&cfg, &model, &mut self.a.db)?; }
		let c = std::mem::replace(&mut self.b.coll, leaked::<C>(Kind::Vector, false, Meta { root: C::V::default(), inner: C::V::default(), len: 0, max: None }));
		self.b.coll = again::<C>(cfg.kind, cfg.owned, cfg.max, c, &mut self.b.db, way, &mut |db| if disturbed { Self::other(&cfg, &model, db) } else { Ok(()) })?;
		self.same(&|| format!("{:?} with {} elements leaked and rebuilt ({:?})", cfg.show(), model.len(), way))
	}
	fn check(&mut self, unit_created: bool) -> Res<u64> {
		let cfg = self.cfg.show();
		let n = self.same(&|| format!("{} with another handle", cfg))?;
		// what the twin reads, which the other checks compare with an array
		for i in 0..self.a.model.len() {
			let (x, y) = (self.a.coll.get(&mut self.a.db, i), self.b.coll.get(&mut self.b.db, i));
			ensure_eq!(y, x, "get({}) of {} with {} elements", i, cfg, self.a.model.len());
			ensure!(unit_created || x == Ok(self.a.model[i].clone()), "get({}) of {} without leaking: {:?}", i, cfg, x);
		}
		let e = elem(self.a.width(), 9);
		for i in &[self.a.model.len(), self.a.model.len() + 1, 1 << 30] {
			ensure_eq!(self.b.coll.get(&mut self.b.db, *i), self.a.coll.get(&mut self.a.db, *i), "get({}) of {}", i, cfg);
			ensure_eq!(self.b.coll.set(&mut self.b.db, *i, &e), Err(Er::Overflow), "set({}) of {}", i, cfg);
		}
		if self.cfg.full(self.a.model.len()) { ensure_eq!(self.b.coll.push(&mut self.b.db, &e), Err(Er::Overflow), "push to the full {}", cfg); }
		Ok(n + self.a.model.len() as u64 + 4 + self.same(&|| "after reading".into())?)
	}
	fn close(self) -> Res {
		let Twins { mut a, mut b, cfg } = self;
		let root = a.coll.root();
		let live = reachable::<C>(&a.db, &[root]).len();
		ensure_eq!(a.coll.close(&mut a.db), Ok(()), "dropping {}", cfg.show());
		ensure_eq!(b.coll.close(&mut b.db), Ok(()), "dropping a rebuilt {}", cfg.show());
		ensure!(a.db.as_ref() == b.db.as_ref(), "a rebuilt {} leaves another database when dropped", cfg.show());
		if cfg.owned && !(cfg.kind.list() && cfg.kind.packed()) { ensure!(b.db.as_ref().len() <= 1 || live <= 2, "a rebuilt {} is not collected when dropped: {} entries", cfg.show(), b.db.as_ref().len()); }
		Ok(())
	}
}

/// Histories with up to `rebuilds` leaks.
fn history<C: Spec>(cx: &mut Cx, kinds: &[Kind], starts: &[usize], depth: usize, rebuilds: usize) -> Res {
	let kind = cx.pick(kinds);
	let max = cx.pick(&[None, Some(3u64), Some(5)]);
	let owned = cx.choose(2) == 0;
	let cfg = Cfg { all_sets: false, ..Cfg::new(kind, max, owned, 9, &[1, 2]) };
	let n = cx.pick(starts);
	let created = !kind.list() && !C::unit() && n > 0 && cx.choose(2) == 1;
	let n = max.map(|m| n.min(m as usize)).unwrap_or(n);
	let mut t = Twins::<C>::new(&cfg, if created { n } else { 0 })?;
	cx.note(|| format!("{} over {}, {} elements {}", cfg.show(), C::name(), n, if created { "created" } else { "pushed" }));
	if !created { for i in 0..n { t.apply(&Op::Push(i as u64 + 3))?; } }
	let mut left = rebuilds;
	let mut evals = 0;
	for step in 0..depth + 1 {
		if left > 0 {
			let w = ways(kind);
			let c = cx.choose(if owned { 2 * w.len() } else { w.len() } + 1);
			if c > 0 {
				let (way, disturbed) = if owned { (w[(c - 1) / 2], c % 2 == 0) } else { (w[c - 1], false) };
				cx.note(|| format!("leaked and rebuilt: {:?}{}", way, if disturbed { ", meanwhile another with the same contents was made and dropped" } else { "" }));
				evals += t.rebuild(way, disturbed)?;
				left -= 1;
			}
		}
		if cx.transition() {
			evals += t.check(false)?;
			cx.state(t.b.h().u(left as u64).u(C::unit() as u64));
		}
		if step == depth { break }
		let o = ops(&cfg, t.a.model.len());
		let k = cx.choose(o.len() + 1);
		if k == 0 { break }
		cx.note(|| format!("{:?}", o[k - 1]));
		t.apply(&o[k - 1])?;
		let what = format!("{} after {:?}", cfg.show(), o[k - 1]);
		evals += t.same(&|| what.clone())?;
	}
	t.close()?;
	cx.eval(evals);
	Ok(())
}

/// The maximum given when rebuilding from the root.
fn maxima<C: Spec>(cx: &mut Cx, kind: Kind, n: usize) -> Res {
	let len = cx.choose(n + 1);
	let mut maxes = vec![None];
	maxes.extend((len.max(1)..len + 4).map(|m| Some(m as u64)));
	maxes.push(Some(1 << 20));
	let max = cx.pick(&maxes);
	let owned = cx.choose(2) == 0;
	let cfg = Cfg::new(kind, max, owned, len, &[]);
	let mut st = St::<C>::new(&cfg)?;
	for i in 0..len { st.apply(&Op::Push(i as u64 + 1))?; }
	cx.note(|| format!("{} of length {}", cfg.show(), len));
	let e = |e: Er| Fail(format!("{} of length {} rebuilt: {:?}", cfg.show(), len, e));
	let root = st.coll.root();
	let before = st.db.clone();
	let depth = tree_depth(kind, C::V::BYTES, len, max);
	let mut others: Vec<Option<u64>> = (0..2 * len as u64 + 4).map(Some).collect();
	others.extend(vec![None, Some(1 << 20), Some(1 << 32), Some(1 << 63), Some(u64::max_value())]);
	let mut evals = 0;
	for m in others {
		let got = guarded(|| rebuilt::<C>(owned, root.clone(), &mut st.db, m)).map_err(|p| Fail(format!("{} of length {} rebuilt with maximum {:?}: {}", cfg.show(), len, m, p)))?;
		if m.map(|m| (len as u64) > m).unwrap_or(false) {
			ensure!(got.as_ref().err() == Some(&Er::Corrupt), "{} of length {} rebuilt with maximum {:?}: {}", cfg.show(), len, m, if got.is_ok() { "accepted" } else { "another error" });
			ensure!(st.db.as_ref() == before.as_ref(), "{} refused to be rebuilt, but the database changed", cfg.show());
			evals += 2;
			continue
		}
		if m == Some(0) || m.map(|m| m > 1 << 40).unwrap_or(false) || tree_depth(kind, C::V::BYTES, len, m) != depth { continue }
		let mut c = got.map_err(e)?;
		// the same tree, with another maximum
		let mut db = st.db.clone();
		ensure!(c.root() == root && c.len() == len && c.meta().max == m, "{} of length {} rebuilt with maximum {:?}", cfg.show(), len, m);
		for i in 0..len { ensure_eq!(c.get(&mut db, i), Ok(st.model[i].clone()), "get({}) of {} rebuilt with maximum {:?}", i, cfg.show(), m); }
		let mut model = st.model.clone();
		for k in 0..3 {
			if m == Some(model.len() as u64) { ensure_eq!(c.push(&mut db, &elem(32, 7)), Err(Er::Overflow), "push to {} rebuilt with maximum {:?} at length {}", cfg.show(), m, model.len()); break }
			let x = elem(kind.width(C::V::BYTES), 50 + k);
			ensure_eq!(c.push(&mut db, &x), Ok(()), "push to {} rebuilt with maximum {:?} at length {}", cfg.show(), m, model.len());
			model.push(x);
			ensure_eq!(c.root(), spec_root::<C>(kind, &model, m), "root of {} rebuilt with maximum {:?} after a push", cfg.show(), m);
		}
		while let Some(x) = model.pop() { ensure_eq!(c.pop(&mut db), Ok(Some(x)), "pop from {} rebuilt with maximum {:?}", cfg.show(), m); }
		evals += 2 * len as u64 + 6;
		cx.transition();
	}
	cx.state(st.h());
	cx.eval(evals);
	Ok(())
}

/// Converting to a raw tree and back, with what the type itself tells.
fn converted<C: Spec>(cx: &mut Cx, n: usize) -> Res {
	let len = cx.choose(n + 1);
	let mut maxes = vec![None];
	maxes.extend((len.max(1)..len + 3).map(|m| Some(m as u64)));
	maxes.extend(vec![Some(1 << 20), Some(1 << 40), Some(1 << 62), Some(1 << 63)]);
	let max = cx.pick(&maxes);
	let list = cx.choose(2) == 1;
	let mut db = Mem::<C>::default();
	let e = |e| Fail(format!("{:?}", e));
	let w = C::V::BYTES;
	cx.note(|| format!("{} of length {}, maximum {:?}", if list { "list" } else { "vector" }, len, max));
	if !list {
		let mut v = OwnedVector::<C>::create(&mut db, 0, max).map_err(e)?;
		for i in 0..len { Vector::push(&mut v, &mut db, C::V::of(&elem(w, i as u64))).map_err(e)?; }
		let (root, depth, cur) = (Tree::root(&v), v.depth(), v.current_max_len());
		ensure_eq!(v.metadata(), (root.clone(), len, max), "metadata");
		let raw = v.into_raw();
		ensure_eq!((raw.root(), raw.metadata()), (root.clone(), root.clone()), "the raw tree of a vector");
		for v in vec![Raw::<Owned, C>::new(raw.metadata()).into_vector(len, max), Vector::from_raw(Raw::from_leaked(raw.metadata()), len, max), Vector::from_leaked((root.clone(), len, max)), raw.into_raw().into_vector(len, max)] {
			ensure_eq!((Tree::root(&v), Sequence::len(&v), v.max_len(), v.depth(), v.current_max_len()), (root.clone(), len, max, depth, cur), "a vector of length {} and maximum {:?} rebuilt", len, max);
			for i in 0..len { ensure_eq!(Vector::get(&v, &mut db, i), Ok(C::V::of(&elem(w, i as u64))), "get({}) of a vector rebuilt", i); }
			cx.transition();
		}
		cx.eval(4 * len as u64 + 22);
	} else {
		let mut l = OwnedList::<C>::create(&mut db, max).map_err(e)?;
		for i in 0..len { List::push(&mut l, &mut db, C::V::of(&elem(w, i as u64))).map_err(e)?; }
		let root = Tree::root(&l);
		let (_, (inner, _, _)) = l.metadata();
		let raw = l.into_raw();
		ensure_eq!(raw.root(), root, "the raw tree of a list");
		ensure_eq!(raw.get(&mut db, Index::root().left()), Ok(Some(inner.clone())), "elements below the raw tree of a list");
		ensure_eq!(raw.get(&mut db, Index::root().right()), Ok(Some(len_value::<C::V>(len as u64))), "length below the raw tree of a list");
		let l = List::from_raw(raw, len, max);
		ensure_eq!((Tree::root(&l), Sequence::len(&l)), (root.clone(), len), "a list of length {} and maximum {:?} made from its raw tree", len, max);
		let want = (root.clone(), (inner, len, max));
		if l.metadata() != want {
			// only this: the whole list is taken for its elements
			ensure_eq!(l.metadata(), (root.clone(), (root.clone(), len, max)), "metadata of a list made from its raw tree");
			cx.known("C20", "list-from-raw", || format!("a list of length {} and maximum {:?} made from its raw tree has other elements", len, max))?;
		} else {
			for i in 0..len { ensure_eq!(List::get(&l, &mut db, i), Ok(C::V::of(&elem(w, i as u64))), "get({}) of a list made from its raw tree", i); }
		}
		cx.transition();
		cx.eval(len as u64 + 5);
	}
	cx.state(db_hash::<C>(&db));
	Ok(())
}

/// Raw trees leaked and rebuilt between writes.
fn raws<C: Spec>(cx: &mut Cx, depth: usize) -> Res {
	let owned = cx.choose(2) == 0;
	fn go<R: RootStatus, C: Spec>(cx: &mut Cx, depth: usize) -> Res {
		let (mut a, mut b) = (Mem::<C>::default(), Mem::<C>::default());
		let (mut x, mut y) = (Raw::<R, C>::default(), Raw::<R, C>::default());
		let mut t = Term::zero();
		let mut evals = 0;
		for _ in 0..depth {
			let (i, k) = (cx.pick(&[1usize, 2, 3, 5, 6, 14]), cx.choose(3) as u64);
			let ix = Index::from_one(i).unwrap();
			for (raw, db) in vec![(&mut x, &mut a), (&mut y, &mut b)] { ensure_eq!(raw.set(db, ix, C::V::leaf(k)), Ok(()), "set({})", i); }
			t = t.set(&bits(i), Term::Leaf(C::V::leaf(k)));
			let way = cx.choose(5);
			cx.note(|| format!("leaf {} at {}, {}", k, i, ["kept", "leaked and rebuilt", "made anew from the root", "converted", "viewed"][way]));
			y = match way {
				0 => y,
				1 => { let m = y.metadata(); drop(y); Raw::from_leaked(m) },
				2 => { let m = y.root(); drop(y); Raw::new(m) },
				3 => y.into_raw(),
				_ => { let v = Raw::<Dangling, C>::from_leaked(y.metadata()); evals += check_raw(&v, &t, &mut b)?; ensure_eq!(v.drop(&mut b), Ok(()), "dropping a view"); y },
			};
			ensure_eq!((y.root(), y.metadata()), (x.root(), x.metadata()), "a raw tree leaked and rebuilt");
			ensure!(a.as_ref() == b.as_ref(), "leaking a raw tree changed the database");
			if cx.transition() { evals += check_raw(&y, &t, &mut b)?; cx.state(t.h(db_hash::<C>(&b))); }
		}
		ensure_eq!(x.drop(&mut a), Ok(()), "drop");
		ensure_eq!(y.drop(&mut b), Ok(()), "dropping a rebuilt raw tree");
		ensure!(a.as_ref() == b.as_ref(), "a rebuilt raw tree leaves another database when dropped");
		ensure!(!R::is_owned() || b.as_ref().len() <= 1, "a rebuilt raw tree is not collected when dropped");
		cx.eval(evals);
		Ok(())
	}
	if owned { go::<Owned, C>(cx, depth) } else { go::<Dangling, C>(cx, depth) }
}

const KINDS: [Kind; 10] = [Kind::Vector, Kind::List, Kind::PVec(16), Kind::PVec(32), Kind::PVec(48), Kind::PVec(8), Kind::PList(8), Kind::PList(16), Kind::PList(48), Kind::PList(64)];

pub fn c20(r: &mut Runner) {
	let t = r.thorough;
	let d = |a: usize, b: usize| if t { b } else { a };
	for (ci, name) in ["inherited", "unit"].iter().enumerate() {
		let m = if ci == 0 { 0 } else { UNI };
		r.dfs(&format!("one leak in a history/{}", name), 0, |cx| on(m, || history::<Dyn>(cx, &KINDS, &[0, 1, 2, 3, 4, 5], d(2, 3), 1)));
		r.dfs(&format!("leaks at every step/{}", name), 0, |cx| on(m, || history::<Dyn>(cx, if t { &KINDS } else { &[Kind::Vector, Kind::List, Kind::PVec(16), Kind::PList(48)] }, &[0, 2, 4], 2, 3)));
		r.dfs(&format!("8-byte nodes/{}", name), 0, |cx| on(m, || history::<Dyn8>(cx, &[Kind::Vector, Kind::List, Kind::PVec(3), Kind::PVec(16), Kind::PList(1), Kind::PList(5)], &[0, 3, 8, 9], d(1, 2), 2)));
		r.dfs(&format!("maxima given to rebuild/{}", name), 0, |cx| on(m, || maxima::<Dyn>(cx, Kind::List, d(17, 40))));
		r.dfs(&format!("converted to raw trees/{}", name), 0, |cx| on(m, || converted::<Dyn>(cx, d(17, 70))));
		r.dfs(&format!("raw trees/{}", name), 0, |cx| on(m, || raws::<Dyn>(cx, d(3, 4))));
	}
}
