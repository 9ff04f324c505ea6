//! The four collections behind one interface, their reference model (a plain
//! array) and the independent merkleization of that array.

use crate::engine::*;
use crate::hash::*;
use bm::*;
use generic_array::GenericArray;
use std::fmt::Debug;
use typenum::*;

pub type ArrLen<V> = <V as Hv>::N;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Er { Corrupt, Overflow, Invalid, Backend(String) }
impl<E: Debug> From<Error<E>> for Er {
	fn from(e: Error<E>) -> Self {
		match e { Error::CorruptedDatabase => Er::Corrupt, Error::AccessOverflowed => Er::Overflow, Error::InvalidParameter => Er::Invalid, Error::Backend(e) => Er::Backend(format!("{:?}", e)) }
	}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Vector, List, PVec(usize), PList(usize) }
impl Kind {
	pub fn list(&self) -> bool { match self { Kind::List | Kind::PList(_) => true, _ => false } }
	pub fn packed(&self) -> bool { match self { Kind::PVec(_) | Kind::PList(_) => true, _ => false } }
	/// Element width in bytes.
	pub fn width(&self, host: usize) -> usize { match self { Kind::PVec(w) | Kind::PList(w) => *w, _ => host } }
	pub fn name(&self) -> String { match self { Kind::Vector => "vector".into(), Kind::List => "list".into(), Kind::PVec(w) => format!("packed vector/{}", w), Kind::PList(w) => format!("packed list/{}", w) } }
}

/// What is needed to rebuild a collection.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Meta<V> { pub root: V, pub inner: V, pub len: usize, pub max: Option<u64> }

/// A real collection over a backend.
pub trait Coll<V> {
	fn push(&mut self, db: &mut dyn Db<V>, e: &[u8]) -> Result<(), Er>;
	fn pop(&mut self, db: &mut dyn Db<V>) -> Result<Option<Vec<u8>>, Er>;
	fn get(&self, db: &mut dyn Db<V>, i: usize) -> Result<Vec<u8>, Er>;
	fn set(&mut self, db: &mut dyn Db<V>, i: usize, e: &[u8]) -> Result<(), Er>;
	fn len(&self) -> usize;
	fn root(&self) -> V;
	fn meta(&self) -> Meta<V>;
	fn close(self: Box<Self>, db: &mut dyn Db<V>) -> Result<(), Er>;
	/// Root of the raw tree this converts to.
	fn raw_root(self: Box<Self>) -> V;
	/// Root that `deconstruct` leaves, for lists.
	fn deconstruct(self: Box<Self>, db: &mut dyn Db<V>) -> Option<Result<V, Er>>;
}

fn ga<N: generic_array::ArrayLength<u8>>(e: &[u8]) -> GenericArray<u8, N> { GenericArray::clone_from_slice(e) }

macro_rules! common { () => {
	fn len(&self) -> usize { Sequence::len(self) }
	fn root(&self) -> C::V { Tree::root(self) }
	fn close(self: Box<Self>, db: &mut dyn Db<C::V>) -> Result<(), Er> { Tree::drop(*self, &mut Any::<C>(db)).map_err(Er::from) }
	fn raw_root(self: Box<Self>) -> C::V { Tree::into_raw(*self).root() }
} }

impl<R: RootStatus, C: Spec> Coll<C::V> for Vector<R, C> {
	fn push(&mut self, db: &mut dyn Db<C::V>, e: &[u8]) -> Result<(), Er> { Ok(Vector::push(self, &mut Any::<C>(db), C::V::of(e))?) }
	fn pop(&mut self, db: &mut dyn Db<C::V>) -> Result<Option<Vec<u8>>, Er> { Ok(Vector::pop(self, &mut Any::<C>(db))?.map(|v| v.as_ref().to_vec())) }
	fn get(&self, db: &mut dyn Db<C::V>, i: usize) -> Result<Vec<u8>, Er> { Ok(Vector::get(self, &mut Any::<C>(db), i)?.as_ref().to_vec()) }
	fn set(&mut self, db: &mut dyn Db<C::V>, i: usize, e: &[u8]) -> Result<(), Er> { Ok(Vector::set(self, &mut Any::<C>(db), i, C::V::of(e))?) }
	fn meta(&self) -> Meta<C::V> { let (root, len, max) = self.metadata(); Meta { inner: root.clone(), root, len, max } }
	fn deconstruct(self: Box<Self>, _: &mut dyn Db<C::V>) -> Option<Result<C::V, Er>> { None }
	common!();
}
impl<R: RootStatus, C: Spec> Coll<C::V> for List<R, C> {
	fn push(&mut self, db: &mut dyn Db<C::V>, e: &[u8]) -> Result<(), Er> { Ok(List::push(self, &mut Any::<C>(db), C::V::of(e))?) }
	fn pop(&mut self, db: &mut dyn Db<C::V>) -> Result<Option<Vec<u8>>, Er> { Ok(List::pop(self, &mut Any::<C>(db))?.map(|v| v.as_ref().to_vec())) }
	fn get(&self, db: &mut dyn Db<C::V>, i: usize) -> Result<Vec<u8>, Er> { Ok(List::get(self, &mut Any::<C>(db), i)?.as_ref().to_vec()) }
	fn set(&mut self, db: &mut dyn Db<C::V>, i: usize, e: &[u8]) -> Result<(), Er> { Ok(List::set(self, &mut Any::<C>(db), i, C::V::of(e))?) }
	fn meta(&self) -> Meta<C::V> { let (root, (inner, len, max)) = self.metadata(); Meta { inner, root, len, max } }
	fn deconstruct(self: Box<Self>, db: &mut dyn Db<C::V>) -> Option<Result<C::V, Er>> { Some(List::deconstruct(*self, &mut Any::<C>(db)).map_err(Er::from)) }
	common!();
}
impl<R: RootStatus, C: Spec, W: generic_array::ArrayLength<u8> + 'static> Coll<C::V> for PackedVector<R, C, GenericArray<u8, W>, ArrLen<C::V>, W> {
	fn push(&mut self, db: &mut dyn Db<C::V>, e: &[u8]) -> Result<(), Er> { Ok(PackedVector::push(self, &mut Any::<C>(db), ga(e))?) }
	fn pop(&mut self, db: &mut dyn Db<C::V>) -> Result<Option<Vec<u8>>, Er> { Ok(PackedVector::pop(self, &mut Any::<C>(db))?.map(|v| v.to_vec())) }
	fn get(&self, db: &mut dyn Db<C::V>, i: usize) -> Result<Vec<u8>, Er> { Ok(PackedVector::get(self, &mut Any::<C>(db), i)?.to_vec()) }
	fn set(&mut self, db: &mut dyn Db<C::V>, i: usize, e: &[u8]) -> Result<(), Er> { Ok(PackedVector::set(self, &mut Any::<C>(db), i, ga(e))?) }
	fn meta(&self) -> Meta<C::V> { let (root, len, max) = self.metadata(); Meta { inner: root.clone(), root, len, max } }
	fn deconstruct(self: Box<Self>, _: &mut dyn Db<C::V>) -> Option<Result<C::V, Er>> { None }
	common!();
}
impl<R: RootStatus, C: Spec, W: generic_array::ArrayLength<u8> + 'static> Coll<C::V> for PackedList<R, C, GenericArray<u8, W>, ArrLen<C::V>, W> {
	fn push(&mut self, db: &mut dyn Db<C::V>, e: &[u8]) -> Result<(), Er> { Ok(PackedList::push(self, &mut Any::<C>(db), ga(e))?) }
	fn pop(&mut self, db: &mut dyn Db<C::V>) -> Result<Option<Vec<u8>>, Er> { Ok(PackedList::pop(self, &mut Any::<C>(db))?.map(|v| v.to_vec())) }
	fn get(&self, db: &mut dyn Db<C::V>, i: usize) -> Result<Vec<u8>, Er> { Ok(PackedList::get(self, &mut Any::<C>(db), i)?.to_vec()) }
	fn set(&mut self, db: &mut dyn Db<C::V>, i: usize, e: &[u8]) -> Result<(), Er> { Ok(PackedList::set(self, &mut Any::<C>(db), i, ga(e))?) }
	fn meta(&self) -> Meta<C::V> { let (root, (inner, len, max)) = self.metadata(); Meta { inner, root, len, max } }
	fn deconstruct(self: Box<Self>, _: &mut dyn Db<C::V>) -> Option<Result<C::V, Er>> { None }
	common!();
}

pub type BoxColl<V> = Box<dyn Coll<V>>;
pub const WIDTHS: &[usize] = &[1, 2, 3, 4, 5, 8, 16, 24, 31, 32, 33, 40, 48, 64, 80, 96];
pub const WIDTHS8: &[usize] = &[1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 24, 31, 33];

#[macro_export]
macro_rules! with_width { ($w:expr, $t:ident, $e:expr) => { { use typenum::*; match $w {
	1 => { type $t = U1; $e }, 2 => { type $t = U2; $e }, 3 => { type $t = U3; $e }, 4 => { type $t = U4; $e }, 5 => { type $t = U5; $e },
	8 => { type $t = U8; $e }, 16 => { type $t = U16; $e }, 24 => { type $t = U24; $e }, 32 => { type $t = U32; $e }, 33 => { type $t = U33; $e },
	40 => { type $t = U40; $e }, 48 => { type $t = U48; $e }, 7 => { type $t = U7; $e }, 12 => { type $t = U12; $e }, 20 => { type $t = U20; $e },
	31 => { type $t = U31; $e }, 80 => { type $t = U80; $e }, 64 => { type $t = U64; $e }, 96 => { type $t = U96; $e },
	w => panic!("harness: width {}", w),
} } } }

/// `create` of the real type; `len` only counts for vectors.
pub fn create<C: Spec>(kind: Kind, db: &mut dyn Db<C::V>, len: usize, max: Option<u64>) -> Result<BoxColl<C::V>, Er> {
	Ok(match kind {
		Kind::Vector => Box::new(OwnedVector::<C>::create(&mut Any::<C>(db), len, max)?),
		Kind::List => Box::new(OwnedList::<C>::create(&mut Any::<C>(db), max)?),
		Kind::PVec(w) => with_width!(w, W, Box::new(PackedVector::<Owned, C, GenericArray<u8, W>, ArrLen<C::V>, W>::create(&mut Any::<C>(db), len, max)?)),
		Kind::PList(w) => with_width!(w, W, Box::new(PackedList::<Owned, C, GenericArray<u8, W>, ArrLen<C::V>, W>::create(&mut Any::<C>(db), max)?)),
	})
}

/// `from_leaked` of the real type.
pub fn leaked<C: Spec>(kind: Kind, owned: bool, m: Meta<C::V>) -> BoxColl<C::V> {
	fn go<R: RootStatus + 'static, C: Spec>(kind: Kind, m: Meta<C::V>) -> BoxColl<C::V> {
		match kind {
			Kind::Vector => Box::new(Vector::<R, C>::from_leaked((m.root, m.len, m.max))),
			Kind::List => Box::new(List::<R, C>::from_leaked((m.root, (m.inner, m.len, m.max)))),
			Kind::PVec(w) => with_width!(w, W, Box::new(PackedVector::<R, C, GenericArray<u8, W>, ArrLen<C::V>, W>::from_leaked((m.root, m.len, m.max)))),
			Kind::PList(w) => with_width!(w, W, Box::new(PackedList::<R, C, GenericArray<u8, W>, ArrLen<C::V>, W>::from_leaked((m.root, (m.inner, m.len, m.max))))),
		}
	}
	if owned { go::<Owned, C>(kind, m) } else { go::<Dangling, C>(kind, m) }
}

/// A new collection with the given root status.
pub fn create_as<C: Spec>(kind: Kind, owned: bool, db: &mut dyn Db<C::V>, len: usize, max: Option<u64>) -> Result<BoxColl<C::V>, Er> {
	let c = create::<C>(kind, db, len, max)?;
	Ok(if owned { c } else { leaked::<C>(kind, false, c.meta()) })
}

/// Element number `k` of a width; 0 is all zero, the others have no zero byte.
pub fn elem(w: usize, k: u64) -> Vec<u8> {
	if k == 0 { return vec![0; w] }
	let mut v: Vec<u8> = (0..w).map(|i| (k as u8).wrapping_mul(29).wrapping_add((i as u8).wrapping_mul(7)) | 1).collect();
	for (i, b) in k.to_le_bytes().iter().enumerate() { if i < 3 && i < w.saturating_sub(1) { v[w - 1 - i] = v[w - 1 - i].wrapping_add(b.wrapping_mul(2)) | 1; v[w - 1 - i] ^= b & 0xfe; if v[w - 1 - i] == 0 { v[w - 1 - i] = 3 } } }
	v
}

/// The chunks (leaf values) of a sequence of elements.
pub fn chunks<V: Hv>(els: &[Vec<u8>]) -> Vec<V> {
	let bytes: Vec<u8> = els.concat();
	bytes.chunks(V::BYTES).map(|c| V::of(c)).collect()
}
/// Number of chunks for a number of elements.
pub fn chunk_count(kind: Kind, host: usize, n: u64) -> u64 {
	let b = n as u128 * kind.width(host) as u128;
	((b + host as u128 - 1) / host as u128) as u64
}
pub fn tree_depth(kind: Kind, host: usize, len: usize, max: Option<u64>) -> usize { depth_for(chunk_count(kind, host, max.unwrap_or(len as u64))) }
/// Root of the element tree.
pub fn inner_root<C: Spec>(kind: Kind, els: &[Vec<u8>], max: Option<u64>) -> C::V {
	tree::<C>(&chunks::<C::V>(els), tree_depth(kind, C::V::BYTES, els.len(), max))
}
pub fn spec_root<C: Spec>(kind: Kind, els: &[Vec<u8>], max: Option<u64>) -> C::V {
	let r = inner_root::<C>(kind, els, max);
	if kind.list() { C::hash(&r, &len_value(els.len() as u64)) } else { r }
}

/// Reads chunk `i` of the element tree below `root` straight from the database.
pub fn chunk_at<C: Spec>(db: &Mem<C>, root: &C::V, depth: usize, i: u64) -> Option<C::V> {
	let mut cur = root.clone();
	for d in (0..depth).rev() {
		let (l, r) = kids::<C>(db, &cur)?;
		cur = if i >> d & 1 == 0 { l.clone() } else { r.clone() };
	}
	Some(cur)
}

/// How a collection is configured in a search.
#[derive(Clone, Debug)]
pub struct Cfg { pub kind: Kind, pub max: Option<u64>, pub owned: bool, pub cap: usize, pub alpha: Vec<u64>, pub all_sets: bool }
impl Cfg {
	pub fn new(kind: Kind, max: Option<u64>, owned: bool, cap: usize, alpha: &[u64]) -> Self { Cfg { kind, max, owned, cap, alpha: alpha.to_vec(), all_sets: true } }
	pub fn show(&self) -> String { format!("{} max={:?} {}", self.kind.name(), self.max, if self.owned { "owned" } else { "dangling" }) }
	pub fn full(&self, len: usize) -> bool { self.max.map(|m| len as u64 >= m).unwrap_or(false) }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Push(u64), Pop, Set(usize, u64) }

/// Operations at a length.
pub fn ops(cfg: &Cfg, len: usize) -> Vec<Op> {
	let mut v = vec![];
	if len < cfg.cap && !cfg.full(len) { for k in &cfg.alpha { v.push(Op::Push(*k)); } }
	v.push(Op::Pop);
	let mut at: Vec<usize> = if cfg.all_sets { (0..len).collect() } else {
		let mut a = vec![0, len / 2, len.saturating_sub(2), len.saturating_sub(1)]; a.retain(|i| *i < len); a.sort(); a.dedup(); a };
	at.reverse();
	for i in at { for k in &cfg.alpha { v.push(Op::Set(i, *k)); } }
	v
}

/// A real collection with its model.
pub struct St<C: Spec> { pub db: Mem<C>, pub coll: BoxColl<C::V>, pub model: Vec<Vec<u8>>, pub cfg: Cfg }

impl<C: Spec> St<C> {
	pub fn new(cfg: &Cfg) -> Res<Self> { Self::with_len(cfg, 0) }
	pub fn with_len(cfg: &Cfg, len: usize) -> Res<Self> {
		let mut db = Mem::<C>::default();
		let coll = create_as::<C>(cfg.kind, cfg.owned, &mut db, len, cfg.max);
		let coll = match coll { Ok(c) => c, Err(e) => return Err(Fail(format!("creating {} of length {}: {:?}", cfg.show(), len, e))) };
		let w = cfg.kind.width(C::V::BYTES);
		Ok(St { db, coll, model: vec![vec![0; w]; len], cfg: cfg.clone() })
	}
	pub fn width(&self) -> usize { self.cfg.kind.width(C::V::BYTES) }
	pub fn h(&self) -> H {
		let m = self.coll.meta();
		let mut h = db_hash::<C>(&self.db).b(m.root.as_ref()).b(m.inner.as_ref()).u(m.len as u64).u(m.max.unwrap_or(u64::max_value()));
		for e in &self.model { h = h.b(e); }
		h
	}
	pub fn apply(&mut self, op: &Op) -> Res {
		let w = self.width();
		match op {
			Op::Push(k) => {
				let e = elem(w, *k);
				ensure_eq!(self.coll.push(&mut self.db, &e), Ok(()), "push({}) at length {}", k, self.model.len());
				self.model.push(e);
			},
			Op::Pop => {
				let want = self.model.pop();
				ensure_eq!(self.coll.pop(&mut self.db), Ok(want), "pop from length {}", self.model.len() + 1);
			},
			Op::Set(i, k) => {
				let e = elem(w, *k);
				ensure_eq!(self.coll.set(&mut self.db, *i, &e), Ok(()), "set({}, {}) at length {}", i, k, self.model.len());
				self.model[*i] = e;
			},
		}
		Ok(())
	}
	/// Length and every element agree with the array.
	pub fn contents(&mut self) -> Res<u64> {
		ensure_eq!(self.coll.len(), self.model.len(), "length");
		let root = self.coll.root();
		for i in 0..self.model.len() {
			let got = self.coll.get(&mut self.db, i);
			ensure_eq!(got, Ok(self.model[i].clone()), "get({}) at length {}", i, self.model.len());
		}
		ensure_eq!(self.coll.root(), root, "root after reading");
		Ok(self.model.len() as u64 + 1)
	}
	/// The root is the one of the contents.
	pub fn root(&mut self) -> Res<u64> {
		let want = spec_root::<C>(self.cfg.kind, &self.model, self.cfg.max);
		ensure_eq!(self.coll.root(), want, "root of {} with {} elements", self.cfg.show(), self.model.len());
		Ok(1)
	}
	/// The tree below the root alone holds length and elements, in ssz layout.
	pub fn layout(&mut self) -> Res<u64> {
		let kind = self.cfg.kind;
		let root = self.coll.root();
		let mut at = root.clone();
		if kind.list() {
			let raw = Raw::<Dangling, C>::from_leaked(root.clone());
			let len: C::V = len_value(self.model.len() as u64);
			ensure_eq!(raw.get(&mut self.db, Index::root().right()), Ok(Some(len)), "length in the tree");
			at = match raw.get(&mut self.db, Index::root().left()) { Ok(Some(v)) => v, x => return Err(Fail(format!("element tree: {:?}", x))) };
			ensure_eq!(self.coll.meta().inner, at, "root of the element tree known to the handle");
		}
		let ch = chunks::<C::V>(&self.model);
		let depth = tree_depth(kind, C::V::BYTES, self.model.len(), self.cfg.max);
		for (i, c) in ch.iter().enumerate() {
			let got = chunk_at::<C>(&self.db, &at, depth, i as u64);
			ensure_eq!(got, Some(c.clone()), "chunk {} of the tree below the root, length {}", i, self.model.len());
		}
		Ok(ch.len() as u64 + 1)
	}
	/// Out-of-range accesses are refused and change nothing.
	pub fn refused(&mut self) -> Res<u64> {
		let len = self.model.len();
		let host = C::V::BYTES;
		let w = self.width();
		let root = self.coll.root();
		let hosts = chunk_count(self.cfg.kind, host, len as u64);
		let depth = tree_depth(self.cfg.kind, host, len, self.cfg.max);
		let capacity = if depth < 40 { ((1u64 << depth) as usize * host) / w } else { 1 << 40 };
		let mut at = vec![len, len + 1, len + 2, (hosts as usize * host) / w, capacity.saturating_sub(1), capacity, capacity + 1, self.cfg.max.unwrap_or(0) as usize, 1 << 20, usize::max_value() / 2, usize::max_value()];
		at.retain(|i| *i >= len);
		at.sort(); at.dedup();
		let e = elem(w, 9);
		for i in &at {
			ensure_eq!(self.coll.get(&mut self.db, *i), Err(Er::Overflow), "get({}) at length {}", i, len);
			ensure_eq!(self.coll.set(&mut self.db, *i, &e), Err(Er::Overflow), "set({}) at length {}", i, len);
			ensure!(self.coll.root() == root && self.coll.len() == len, "set({}) at length {} was refused but changed the collection", i, len);
		}
		if self.cfg.full(len) {
			ensure_eq!(self.coll.push(&mut self.db, &e), Err(Er::Overflow), "push to the full {} of length {}", self.cfg.show(), len);
			ensure!(self.coll.root() == root && self.coll.len() == len, "push at length {} was refused but changed the collection", len);
		}
		if len == 0 {
			ensure_eq!(self.coll.pop(&mut self.db), Ok(None), "pop from empty");
			ensure!(self.coll.root() == root && self.coll.len() == len, "pop from empty changed the collection");
		}
		Ok(2 * at.len() as u64 + 1)
	}
}

pub const CONTENTS: u32 = 1;
pub const ROOT: u32 = 2;
pub const LAYOUT: u32 = 4;
pub const BOUNDS: u32 = 8;

pub fn check<C: Spec>(st: &mut St<C>, cx: &mut Cx, flags: u32, fresh: bool) -> Res {
	let mut n = 0;
	if flags & BOUNDS != 0 { let k = st.refused()?; if fresh { n += k + st.contents()?; } }
	if fresh {
		if flags & CONTENTS != 0 { n += st.contents()?; }
		if flags & ROOT != 0 { n += st.root()?; }
		if flags & LAYOUT != 0 { n += st.layout()?; }
		cx.eval(n);
	}
	Ok(())
}

/// Histories of operations from `start` pushed elements.
pub fn history<C: Spec>(cx: &mut Cx, cfg: &Cfg, flags: u32, start: usize) -> Res {
	let mut st = St::<C>::new(cfg)?;
	cx.note(|| format!("{} over {}, {} elements pushed", cfg.show(), C::name(), start));
	for i in 0..start { st.apply(&Op::Push(i as u64 + 3))?; }
	let f = cx.fresh();
	check(&mut st, cx, flags, f)?;
	loop {
		let l = st.model.len();
		cx.state(st.h());
		let o = ops(cfg, l);
		let k = match cx.step(o.len()) { Some(k) => k, None => return Ok(()) };
		cx.note(|| format!("{:?}", o[k]));
		st.apply(&o[k])?;
		let f = cx.transition();
		check(&mut st, cx, flags, f)?;
	}
}

/// Push to every length up to `n`, at chosen lengths pop, push and set around, then pop to nothing.
pub fn walk<C: Spec>(cx: &mut Cx, cfg: &Cfg, flags: u32, n: usize, dense: usize) -> Res {
	let mut st = St::<C>::new(cfg)?;
	let near = |l: usize| l <= dense || { let c = chunk_count(cfg.kind, C::V::BYTES, l as u64) as usize; (c & c.wrapping_sub(1)) == 0 || (c.wrapping_sub(1) & c.wrapping_sub(2)) == 0 || (l & l.wrapping_sub(1)) == 0 || l == n };
	cx.note(|| format!("{} over {}: push up to {}, pop down", cfg.show(), C::name(), n));
	for i in 0..n {
		if cfg.full(i) { break }
		st.apply(&Op::Push(i as u64 + 1))?;
		cx.transition();
		if near(i + 1) {
			check(&mut st, cx, flags, true)?;
			for op in &[Op::Pop, Op::Push(7), Op::Set(0, 2), Op::Set(i, 5), Op::Set(i / 2, 6), Op::Pop, Op::Push(i as u64 + 1)] {
				st.apply(op)?;
				cx.transition();
				check(&mut st, cx, flags, true)?;
			}
			cx.state(st.h());
		}
		cx.beat();
	}
	while st.model.len() > 0 {
		let l = st.model.len();
		st.apply(&Op::Pop)?;
		cx.transition();
		if near(l - 1) { check(&mut st, cx, flags, true)?; cx.state(st.h()); }
		cx.beat();
	}
	st.apply(&Op::Pop)?;
	check(&mut st, cx, flags, true)
}

/// Standard searches over a list of kinds with the given checks.
pub fn standard(r: &mut Runner, kinds: &[Kind], flags: u32, heavy: bool) {
	let t = r.thorough;
	let d = |a: usize, b: usize| if t { b } else { a };
	let ab = [1u64, 2];
	let abc = [1u64, 2, 0];
	// closure of the reachable states of small collections
	let maxes: Vec<Option<u64>> = vec![Some(1), Some(2), Some(3), Some(4), Some(5), Some(7), Some(8), None];
	let (ks, ms) = (kinds.to_vec(), maxes.clone());
	// packed lists leave transient nodes behind in the database (see the known finding), so their states never close
	let cks: Vec<Kind> = kinds.iter().cloned().filter(|k| !(k.list() && k.packed())).collect();
	let cap = d(if heavy { 7 } else { 6 }, if heavy { 9 } else { 8 });
	for (ci, name) in ["inherited", "unit"].iter().enumerate() {
		r.bfs(&format!("closure/owned/{}", name), 64, |cx| {
			let k = match cx.step(cks.len() * ms.len()) { Some(k) => k, None => { cx.state(H(1, 1)); return Ok(()) } };
			let (kind, max) = (cks[k / ms.len()], ms[k % ms.len()]);
			let cfg = Cfg::new(kind, max, true, cap, if max.map(|m| m <= 5).unwrap_or(false) { &abc } else { &ab });
			if ci == 0 { seeded::<Dyn>(cx, &cfg, flags, k) } else { on(UNI, || seeded::<Dyn>(cx, &cfg, flags, k)) }
		});
	}
	// dangling roots: what they leave behind in the database makes states differ, so bound the depth
	let ms2: Vec<Option<u64>> = vec![None, Some(3), Some(8)];
	for (ci, name) in ["inherited", "unit"].iter().enumerate() {
		r.bfs(&format!("depth/{}", name), 1 + d(5, 6), |cx| {
			let k = match cx.step(2 * ks.len() * ms2.len()) { Some(k) => k, None => { cx.state(H(1, 1)); return Ok(()) } };
			let (kind, max, owned) = (ks[k / 2 / ms2.len()], ms2[k / 2 % ms2.len()], k % 2 == 1);
			let cfg = Cfg::new(kind, max, owned, 9, &ab);
			if ci == 0 { seeded::<Dyn>(cx, &cfg, flags, k) } else { on(UNI, || seeded::<Dyn>(cx, &cfg, flags, k)) }
		});
	}
	// every history, nothing merged
	let big: Vec<Option<u64>> = if t || heavy { vec![None, Some(6), Some(1 << 40), Some(1 << 63)] } else { vec![None, Some(6), Some(1 << 63)] };
	// of the many widths, those which divide, straddle, fill or exceed a chunk
	let core = |k: &Kind| t || heavy || matches!(*k, Kind::PVec(w) | Kind::PList(w) if [1, 3, 5, 8, 16, 31, 32, 33, 48, 64].contains(&w)) || !k.packed();
	let ks: Vec<Kind> = kinds.iter().cloned().filter(|k| core(k)).collect();
	r.dfs("every history", d(if heavy { 6 } else { 5 }, if heavy { 7 } else { 6 }), |cx| {
		let kind = cx.pick(&ks);
		let max = cx.pick(&big);
		let max = if max == Some(1 << 63) && kind.width(32) > 32 { Some(1 << 60) } else { max };
		let mut cfg = Cfg::new(kind, max, cx.choose(2) == 0, 9, &ab);
		cfg.all_sets = false;
		if cx.choose(2) == 0 { history::<Dyn>(cx, &cfg, flags, 0) } else { on(UNI, || history::<Dyn>(cx, &cfg, flags, 0)) }
	});
	let at: Vec<usize> = if heavy || t { vec![2, 3, 4, 5, 8, 9, 16, 17, 32, 33] } else { vec![2, 3, 4, 5, 9, 17] };
	r.dfs("every history from a boundary", if heavy { d(3, 4) } else { d(2, 3) }, |cx| {
		let kind = cx.pick(&ks);
		let w = kind.width(32);
		let chunks_at = cx.pick(&at);
		let start = (chunks_at * 32 / w).saturating_sub(1) + cx.choose(3);
		let start = start.saturating_sub(1);
		let max = cx.pick(&[None, Some(0u64), Some(1), Some(1 << 33)]);
		let max = match max { Some(x) if x < 2 => Some(start as u64 + x + (start == 0) as u64), m => m };
		let mut cfg = Cfg::new(kind, max, cx.choose(2) == 0, start + 9, &[1]);
		cfg.all_sets = false;
		if cx.choose(2) == 0 { history::<Dyn>(cx, &cfg, flags, start) } else { on(UNI, || history::<Dyn>(cx, &cfg, flags, start)) }
	});
	r.dfs("sha256", 4, |cx| {
		let kind = cx.pick(&ks);
		let max = cx.pick(&[None, Some(5u64)]);
		let mut cfg = Cfg::new(kind, max, true, 9, &[1]);
		cfg.all_sets = false;
		if cx.choose(2) == 0 { on(SHA, || history::<Dyn>(cx, &cfg, flags, 0)) } else { on(SHAUNI, || history::<Dyn>(cx, &cfg, flags, 0)) }
	});
	let ks = kinds.to_vec();
	r.dfs("every length", 0, |cx| {
		let kind = cx.pick(&ks);
		let per = (32 / kind.width(32)).max(1);
		let n = (d(if heavy { 280 } else { 70 }, if heavy { 1100 } else { 280 }) * per).min(d(530, 2200));
		let max = cx.pick(&[None, Some(0u64), Some(1 << 40)]);
		let max = if max == Some(0) { Some(n as u64) } else { max };
		let cfg = Cfg::new(kind, max, cx.choose(2) == 0, n, &[1]);
		let dense = if heavy { n } else { d(70, 280) };
		if cx.choose(2) == 0 { walk::<Dyn>(cx, &cfg, flags, n, dense) } else { on(UNI, || walk::<Dyn>(cx, &cfg, flags, n, dense)) }
	});
}

/// `history`, with the state hash made distinct per configuration.
fn seeded<C: Spec>(cx: &mut Cx, cfg: &Cfg, flags: u32, seed: usize) -> Res {
	let mut st = St::<C>::new(cfg)?;
	cx.note(|| format!("{} over {}", cfg.show(), C::name()));
	let f = cx.transition();
	check(&mut st, cx, flags, f)?;
	loop {
		cx.state(st.h().u(seed as u64));
		let o = ops(cfg, st.model.len());
		let k = match cx.step(o.len()) { Some(k) => k, None => return Ok(()) };
		cx.note(|| format!("{:?}", o[k]));
		st.apply(&o[k])?;
		let f = cx.transition();
		check(&mut st, cx, flags, f)?;
	}
}

/// Sparse vectors created with a length: contents are a map of the written elements.
fn sparse_root(map: &std::collections::BTreeMap<u64, bm_le::Value>, lo: u64, depth: usize) -> bm_le::Value {
	let hi = lo as u128 + (1u128 << depth);
	if !map.range(lo..).next().map(|(k, _)| (*k as u128) < hi).unwrap_or(false) { return empty::<Dyn>(depth) }
	if depth == 0 { return map[&lo].clone() }
	Dyn::hash(&sparse_root(map, lo, depth - 1), &sparse_root(map, lo + (1u64 << (depth - 1)), depth - 1))
}

/// A collection of zero elements of any length, made in one go.
pub fn zeros<C: Spec>(kind: Kind, owned: bool, rebuild: bool, db: &mut Mem<C>, len: usize, max: Option<u64>) -> Res<BoxColl<C::V>> {
	let e = |e: Er| Fail(format!("{} of {} zero elements, maximum {:?}: {:?}", kind.name(), len, max, e));
	let inner = match kind { Kind::List => Kind::Vector, Kind::PList(w) => Kind::PVec(w), k => return create_as::<C>(k, owned, db, len, max).map_err(e) };
	let v = create::<C>(inner, db, len, max).map_err(e)?;
	let (elements, n) = (v.root(), len_value::<C::V>(len as u64));
	let root = C::hash(&elements, &n);
	db.store(root.clone(), (elements.clone(), n)).map_err(|e| Fail(format!("{:?}", e)))?;
	db.hold(&root).map_err(|e| Fail(format!("{:?}", e)))?;
	v.close(db).map_err(e)?;
	if rebuild && kind == Kind::List { return crate::script::rebuilt::<C>(owned, root, db, max).map_err(e) }
	Ok(leaked::<C>(kind, owned, Meta { root, inner: elements, len, max }))
}

/// Histories on collections of lengths around powers of two, with what was written as the model.
pub fn sparse(r: &mut Runner, flags: u32, kinds: &[Kind], depth: usize) {
	let t = r.thorough;
	r.dfs("zeros of a length around a power of two", if t { depth + 1 } else { depth }, |cx| {
		let kind = cx.pick(kinds);
		let k = if cx.thorough { cx.choose(42) } else if kind.packed() { cx.pick(&[1usize, 5, 8, 9, 16, 17, 32, 40]) } else { cx.pick(&[0usize, 1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 40]) };
		let delta = cx.choose(4);
		let len0 = ((1usize << k) + delta).saturating_sub(2);
		let max = match cx.choose(4) { 0 => None, 1 => Some((len0 as u64).max(1)), 2 => Some(len0 as u64 + 1), _ => Some(len0 as u64 * 3 + 1) };
		let owned = cx.choose(2) == 0;
		let rebuild = kind == Kind::List && cx.choose(2) == 0;
		let mut db = Mem::<Dyn>::default();
		let mut c = zeros::<Dyn>(kind, owned, rebuild, &mut db, len0, max)?;
		let w = kind.width(32);
		cx.note(|| format!("{} of {} zero elements, maximum {:?} {}{}", kind.name(), len0, max, if owned { "owned" } else { "dangling" }, if rebuild { ", reconstructed" } else { "" }));
		let mut map: std::collections::BTreeMap<u64, Vec<u8>> = Default::default();
		let mut len = len0 as u64;
		let mut n = 0u64;
		loop {
			if cx.fresh() {
				ensure_eq!(c.len() as u64, len, "length");
				let mut at: Vec<u64> = vec![0, 1, len / 2, len.wrapping_sub(2), len.wrapping_sub(1), len / 3];
				at.extend(map.keys().cloned());
				for i in at {
					if i >= len { continue }
					let want = map.get(&i).cloned().unwrap_or_else(|| vec![0; w]);
					ensure_eq!(c.get(&mut db, i as usize), Ok(want), "get({}) at length {}", i, len);
				}
				if flags & BOUNDS != 0 { for i in vec![len, len + 1, len + 31, 2 * len] { if i >= len {
					ensure_eq!(c.get(&mut db, i as usize), Err(Er::Overflow), "get({}) at length {}", i, len);
					ensure_eq!(c.set(&mut db, i as usize, &elem(w, 9)), Err(Er::Overflow), "set({}) at length {}", i, len);
				} } }
				if flags & (ROOT | LAYOUT) != 0 {
					let mut leaves: std::collections::BTreeMap<u64, bm_le::Value> = Default::default();
					for (i, e) in &map { for (j, b) in e.iter().enumerate() { let at = *i as u128 * w as u128 + j as u128; leaves.entry((at / 32) as u64).or_default().as_mut()[(at % 32) as usize] = *b; } }
					let mut want = sparse_root(&leaves, 0, tree_depth(kind, 32, len as usize, max));
					if kind.list() { ensure_eq!(c.meta().inner, want, "root of the elements at length {} with {} written", len, map.len()); want = Dyn::hash(&want, &len_value(len)); }
					ensure_eq!(c.root(), want, "root at length {} with {} written", len, map.len());
					if kind.list() { ensure_eq!(kids::<Dyn>(&db, &want).map(|x| x.1.clone()), Some(len_value(len)), "recorded length at length {}", len); }
				}
				cx.eval(8);
			}
			cx.state(db_hash::<Dyn>(&db).b(c.root().as_ref()).u(len).u(w as u64));
			let full = max.map(|m| len >= m).unwrap_or(false);
			let mut o: Vec<(u8, u64)> = vec![(0, 0), (1, 0), (2, 0), (2, len / 2), (2, len.saturating_sub(1))];
			o.retain(|(k, i)| match k { 0 => !full || flags & BOUNDS != 0, 2 => *i < len, _ => true });
			o.dedup();
			let s = match cx.step(o.len()) { Some(s) => s, None => break };
			n += 1;
			let v = elem(w, n);
			cx.note(|| match o[s] { (0, _) => "push".to_string(), (1, _) => "pop".to_string(), (_, i) => format!("set({})", i) });
			match o[s] {
				(0, _) if full => ensure_eq!(c.push(&mut db, &v), Err(Er::Overflow), "push at the maximum length {}", len),
				(0, _) => { ensure_eq!(c.push(&mut db, &v), Ok(()), "push at length {}", len); map.insert(len, v); len += 1; },
				(1, _) => {
					let want = if len == 0 { None } else { len -= 1; Some(map.remove(&len).unwrap_or_else(|| vec![0; w])) };
					ensure_eq!(c.pop(&mut db), Ok(want), "pop leaving length {}", len);
				},
				(_, i) => { ensure_eq!(c.set(&mut db, i as usize, &v), Ok(()), "set({}) at length {}", i, len); map.insert(i, v); },
			}
			cx.transition();
		}
		ensure_eq!(c.close(&mut db), Ok(()), "dropping a {} of length {}", kind.name(), len);
		Ok(())
	});
}

// ---- C02 .. C06 ----

/// Known finding: over unit empty values, elements of a vector created with a
/// length of two or more chunks cannot be read before they are written.
fn unit_created(r: &mut Runner, property: &'static str, kinds: Vec<Kind>) {
	r.dfs("created with a length over unit empty values", 3, |cx| {
		choose_construct(UNI);
		let kind = cx.pick(&kinds);
		let len = 1 + cx.choose(7);
		let max = match cx.choose(3) { 0 => None, 1 => Some(len as u64), _ => Some(len as u64 + 3) };
		let cfg = Cfg::new(kind, max, true, len + 2, &[1]);
		let mut st = St::<Dyn>::with_len(&cfg, len)?;
		cx.note(|| format!("{} over unit, created with length {}", cfg.show(), len));
		let w = st.width();
		let mut written = vec![false; len];
		loop {
			let fresh = cx.fresh();
			ensure_eq!(st.coll.len(), st.model.len(), "length");
			for i in 0..st.model.len() {
				match st.coll.get(&mut st.db, i) {
					Err(Er::Corrupt) if !written.get(i).cloned().unwrap_or(true) && st.model[i] == vec![0; w] =>
						cx.known(property, "unit-created-unwritten", || format!("get({}) of a never written element: CorruptedDatabase", i))?,
					x => ensure_eq!(x, Ok(st.model[i].clone()), "get({})", i),
				}
			}
			if fresh { cx.eval(st.model.len() as u64); cx.state(st.h()); }
			let o = ops(&cfg, st.model.len());
			let k = match cx.step(o.len()) { Some(k) => k, None => return Ok(()) };
			cx.note(|| format!("{:?}", o[k]));
			let before = (st.coll.root(), st.coll.len());
			let e = elem(w, 1);
			let got = match &o[k] {
				Op::Push(_) => st.coll.push(&mut st.db, &e).map(|_| None),
				Op::Pop => st.coll.pop(&mut st.db),
				Op::Set(i, _) => st.coll.set(&mut st.db, *i, &e).map(|_| None),
			};
			cx.transition();
			if got == Err(Er::Corrupt) {
				// only if a chunk it has to read is among those never written
				let per: Vec<usize> = match &o[k] { Op::Push(_) => vec![st.model.len().saturating_sub(1)], Op::Pop => vec![st.model.len() - 1], Op::Set(i, _) => vec![*i] };
				let excuse = per.iter().any(|i| !written.get(*i).cloned().unwrap_or(true)) && (kind.packed() || o[k] == Op::Pop);
				ensure!(excuse, "{:?} reports a corrupted database", o[k]);
				cx.known(property, "unit-created-unwritten", || format!("{:?} needs a never written element: CorruptedDatabase", o[k]))?;
				ensure_eq!((st.coll.len(), o[k] == Op::Pop || st.coll.root() == before.0 || kind.packed()), (before.1, true), "length after the failure");
				return Ok(())
			}
			match &o[k] {
				Op::Push(_) => { ensure_eq!(got, Ok(None), "push"); st.model.push(e); written.push(true); },
				Op::Pop => { let m = st.model.pop(); written.pop(); ensure_eq!(got, Ok(m), "pop"); },
				Op::Set(i, _) => { ensure_eq!(got, Ok(None), "set({})", i); st.model[*i] = e; written[*i] = true; },
			}
		}
	});
}

pub fn c02(r: &mut Runner) {
	standard(r, &[Kind::Vector], CONTENTS, true);
	sparse(r, CONTENTS, &[Kind::Vector], 4);
	r.dfs("created with a length", if r.thorough { 5 } else { 4 }, |cx| {
		let len = cx.choose(10);
		let max = match cx.choose(3) { 0 => None, 1 => Some((len as u64).max(1)), _ => Some(len as u64 + 2) };
		let mut cfg = Cfg::new(Kind::Vector, max, cx.choose(2) == 0, len + 3, &[1]);
		cfg.all_sets = false;
		created::<Dyn>(cx, &cfg, CONTENTS, len)
	});
	unit_created(r, "C02", vec![Kind::Vector]);
	if r.thorough { huge_walk(r, Kind::Vector, CONTENTS); }
}

pub fn created<C: Spec>(cx: &mut Cx, cfg: &Cfg, flags: u32, len: usize) -> Res {
	let mut st = St::<C>::with_len(cfg, len)?;
	cx.note(|| format!("{} over {}, created with length {}", cfg.show(), C::name(), len));
	let f = cx.fresh();
	check(&mut st, cx, flags, f)?;
	loop {
		cx.state(st.h());
		let o = ops(cfg, st.model.len());
		let k = match cx.step(o.len()) { Some(k) => k, None => return Ok(()) };
		cx.note(|| format!("{:?}", o[k]));
		st.apply(&o[k])?;
		let f = cx.transition();
		check(&mut st, cx, flags, f)?;
	}
}

fn huge_walk(r: &mut Runner, kind: Kind, flags: u32) {
	r.dfs("up to 70000 elements", 0, |cx| {
		let max = cx.pick(&[None, Some(1u64 << 40), Some(70000)]);
		let cfg = Cfg::new(kind, max, true, 70000, &[1]);
		if cx.choose(2) == 0 { walk::<Dyn>(cx, &cfg, flags, 70000, 4) } else { on(UNI, || walk::<Dyn>(cx, &cfg, flags, 70000, 4)) }
	});
}

pub fn c03(r: &mut Runner) {
	standard(r, &[Kind::List], CONTENTS | LAYOUT, true);
	sparse(r, CONTENTS | LAYOUT, &[Kind::List], 4);
	if r.thorough { huge_walk(r, Kind::List, CONTENTS | LAYOUT); }
}

fn packed_kinds(ws: &[usize]) -> Vec<Kind> { ws.iter().map(|w| Kind::PVec(*w)).chain(ws.iter().map(|w| Kind::PList(*w))).collect() }

/// Packed collections over hosts of 8 bytes.
fn small_hosts(r: &mut Runner, flags: u32) {
	let ks = packed_kinds(WIDTHS8);
	let t = r.thorough;
	r.dfs("8 byte chunks, every history", if t { 5 } else { 4 }, |cx| {
		let kind = cx.pick(&ks);
		let max = cx.pick(&[None, Some(5u64)]);
		let mut cfg = Cfg::new(kind, max, cx.choose(2) == 0, 9, &[1, 2]);
		cfg.all_sets = false;
		if cx.choose(2) == 0 { history::<Dyn8>(cx, &cfg, flags, 0) } else { on(UNI, || history::<Dyn8>(cx, &cfg, flags, 0)) }
	});
	r.dfs("8 byte chunks, every length", 0, |cx| {
		let kind = cx.pick(&ks);
		let n = if cx.thorough { 300 } else { 70 };
		let max = cx.pick(&[None, Some(n as u64)]);
		let cfg = Cfg::new(kind, max, cx.choose(2) == 0, n, &[1]);
		if cx.choose(2) == 0 { walk::<Dyn8>(cx, &cfg, flags, n, n) } else { on(UNI, || walk::<Dyn8>(cx, &cfg, flags, n, n)) }
	});
}

pub fn c04(r: &mut Runner) {
	standard(r, &packed_kinds(WIDTHS), CONTENTS | LAYOUT, false);
	small_hosts(r, CONTENTS | LAYOUT);
	sparse(r, CONTENTS | LAYOUT, &[Kind::PVec(1), Kind::PVec(3), Kind::PVec(16), Kind::PVec(48), Kind::PList(1), Kind::PList(5), Kind::PList(32), Kind::PList(33)], 3);
	let ks: Vec<Kind> = WIDTHS.iter().map(|w| Kind::PVec(*w)).collect();
	r.dfs("created with a length", 3, |cx| {
		let kind = cx.pick(&ks);
		let per = (32 / kind.width(32)).max(1);
		let len = cx.pick(&[0, 1, 2, per - 1, per, per + 1, 2 * per, 2 * per + 1, 3 * per, 4 * per + 1]);
		let max = match cx.choose(3) { 0 => None, 1 => Some((len as u64).max(1)), _ => Some(len as u64 + 2) };
		let mut cfg = Cfg::new(kind, max, cx.choose(2) == 0, len + 3, &[1]);
		cfg.all_sets = false;
		created::<Dyn>(cx, &cfg, CONTENTS | LAYOUT, len)
	});
	unit_created(r, "C04", vec![Kind::PVec(16), Kind::PVec(32), Kind::PVec(48)]);
}

fn all_kinds() -> Vec<Kind> { vec![Kind::Vector, Kind::List, Kind::PVec(3), Kind::PVec(8), Kind::PVec(16), Kind::PVec(48), Kind::PVec(64), Kind::PList(1), Kind::PList(5), Kind::PList(16), Kind::PList(33), Kind::PList(64)] }

pub fn c05(r: &mut Runner) {
	standard(r, &all_kinds(), BOUNDS, false);
	sparse(r, BOUNDS, &[Kind::Vector, Kind::List, Kind::PVec(1), Kind::PVec(24), Kind::PList(8), Kind::PList(64)], 3);
	let mut ks = packed_kinds(WIDTHS);
	ks.push(Kind::Vector);
	ks.push(Kind::List);
	// creation grid, then fill to the brim
	r.dfs("every length and maximum at creation", 0, |cx| {
		let kind = cx.pick(&ks);
		let len = if kind.list() { 0 } else { cx.choose(20) };
		let m = cx.choose(25);
		let max = match m { 0 => None, 21 => Some(1 << 20), 22 => Some((1 << 40) - 1), 23 => Some((1 << 40) + 1), 24 => Some(1 << 56), m => Some(m as u64 - 1) };
		cx.note(|| format!("create({:?}, {}, {:?})", kind, len, max));
		let mut db = Mem::<Dyn>::default();
		let got = create::<Dyn>(kind, &mut db, len, max);
		let ok = max.map(|m| m > 0 && len as u64 <= m).unwrap_or(true);
		cx.transition();
		cx.eval(1);
		let c = match got {
			Err(e) => { ensure!(!ok, "create({:?}, {}, {:?}) refused: {:?}", kind, len, max, e); ensure_eq!(e, Er::Invalid, "create({:?}, {}, {:?})", kind, len, max); return Ok(()) },
			Ok(c) => { ensure!(ok, "create({:?}, {}, {:?}) accepted", kind, len, max); c },
		};
		let cfg = Cfg::new(kind, max, true, 24, &[1]);
		let w = kind.width(32);
		let mut st = St::<Dyn> { db, coll: c, model: vec![vec![0; w]; len], cfg };
		check(&mut st, cx, BOUNDS | ROOT, true)?;
		while !st.cfg.full(st.model.len()) && st.model.len() < 24 {
			let k = st.model.len() as u64 + 1;
			st.apply(&Op::Push(k))?;
			cx.transition();
			check(&mut st, cx, BOUNDS, true)?;
		}
		cx.state(st.h());
		while st.model.len() > 0 { st.apply(&Op::Pop)?; cx.transition(); check(&mut st, cx, BOUNDS, true)?; }
		Ok(())
	});
	r.dfs("creation and filling over sha256", 0, |cx| {
		let kind = cx.pick(&[Kind::Vector, Kind::PVec(8), Kind::PVec(48), Kind::List, Kind::PList(24)]);
		let unit = cx.choose(2) == 0;
		// over unit empty values, unwritten elements are a known finding of C02 and C04
		let len = if kind.list() || unit { 0 } else { cx.choose(3) };
		let max = 1 + cx.choose(12) as u64;
		let cfg = Cfg::new(kind, Some(max), cx.choose(2) == 0, 24, &[1]);
		if len as u64 > max { return Ok(()) }
		cx.note(|| format!("{} created with length {}, unit {}", cfg.show(), len, unit));
		fn go<C: Spec>(cx: &mut Cx, cfg: &Cfg, len: usize) -> Res {
			let mut st = St::<C>::with_len(cfg, len)?;
			check(&mut st, cx, BOUNDS, true)?;
			while !st.cfg.full(st.model.len()) { let k = st.model.len() as u64 + 1; st.apply(&Op::Push(k))?; cx.transition(); check(&mut st, cx, BOUNDS, true)?; }
			cx.state(st.h());
			while st.model.len() > 0 { st.apply(&Op::Pop)?; cx.transition(); check(&mut st, cx, BOUNDS, true)?; }
			Ok(())
		}
		if unit { on(SHAUNI, || go::<Dyn>(cx, &cfg, 0)) } else { on(SHA, || go::<Dyn>(cx, &cfg, len)) }
	});
}

pub fn c06(r: &mut Runner) {
	standard(r, &all_kinds(), ROOT, false);
	sparse(r, ROOT, &[Kind::Vector, Kind::List], 3);
	small_hosts(r, ROOT);
	let ks: Vec<Kind> = vec![Kind::Vector, Kind::PVec(1), Kind::PVec(8), Kind::PVec(24), Kind::PVec(48), Kind::PVec(64)];
	r.dfs("created with a length", 3, |cx| {
		let kind = cx.pick(&ks);
		let per = (32 / kind.width(32)).max(1);
		let len = cx.pick(&[0, 1, 2, 3, 4, 5, per, per + 1, 2 * per + 1, 4 * per, 5 * per]);
		let max = match cx.choose(3) { 0 => None, 1 => Some((len as u64).max(1)), _ => Some(len as u64 + 2) };
		let mut cfg = Cfg::new(kind, max, cx.choose(2) == 0, len + 3, &[1]);
		cfg.all_sets = false;
		created::<Dyn>(cx, &cfg, ROOT, len)
	});
	// the same contents merkleized in one go
	r.dfs("one-shot merkleization", 0, |cx| {
		let len = cx.choose(70);
		let max = match cx.choose(6) { 0 => None, 1 => Some(len as u64), 2 => Some(len as u64 + 1), 3 => Some((len as u64).next_power_of_two()), 4 => Some((len as u64).next_power_of_two() + 1), _ => Some(1 << 40) };
		let inh = cx.choose(2) == 0;
		cx.note(|| format!("{} values, max {:?}, inherited {}", len, max, inh));
		fn go<C: Spec<V = bm_le::Value, Value = bm_le::Value>>(len: usize, max: Option<u64>) -> Res<H> {
			let els: Vec<Vec<u8>> = (0..len).map(|i| elem(32, i as u64 + 1)).collect();
			let vals: Vec<bm_le::Value> = chunks(&els);
			let mut db = Mem::<C>::default();
			let got = bm::utils::vector_tree::<Mem<C>>(&vals, &mut db, max);
			let want = spec_root::<C>(Kind::Vector, &els, max);
			ensure_eq!(got, Ok(want.clone()), "vector_tree of {} values, max {:?}", len, max);
			if max != Some(0) {
				let mut c = match create::<C>(Kind::Vector, &mut db, 0, max) { Ok(c) => c, Err(e) => return Err(Fail(format!("create: {:?}", e))) };
				for e in &els { ensure_eq!(c.push(&mut db, e), Ok(()), "push"); }
				ensure_eq!(c.root(), want, "root of the vector pushed one by one");
			}
			Ok(db_hash::<C>(&db))
		}
		let h = if inh { go::<Dyn>(len, max)? } else { on(UNI, || go::<Dyn>(len, max))? };
		cx.transition();
		cx.eval(2);
		cx.state(h);
		Ok(())
	});
	r.dfs("created over unit empty values", 0, |cx| {
		choose_construct(UNI);
		let kind = cx.pick(&[Kind::Vector, Kind::PVec(32), Kind::PVec(64)]);
		let len = 2 + cx.choose(6);
		let cfg = Cfg::new(kind, None, true, 9, &[0]);
		let a = St::<Dyn>::with_len(&cfg, len)?;
		let mut b = St::<Dyn>::new(&cfg)?;
		for _ in 0..len { b.apply(&Op::Push(0))?; }
		cx.transition();
		cx.eval(1);
		if a.coll.root() != b.coll.root() { cx.known("C06", "unit-created-root", || format!("{} zero elements created and pushed have different roots", len))?; }
		Ok(())
	});
}
