//! C18: partial views.

use crate::engine::*;
use crate::hash::*;
use crate::le::*;
use crate::raw::bits;
use crate::script::*;
use crate::wrap::{everywhere, proves};
use bm::{Error, Index, Raw, ReadBackend, RootStatus, Tree, WriteBackend, Owned, Dangling, Leak};
use bm_le::*;
use bm_le_derive::{FromTree, IntoTree, Partialable};
use primitive_types::{H256, H512, U256};
use std::fmt::Debug;
use typenum::U5;

/// A position that can be read or written: a part, or a list of some length.
#[derive(Clone, Debug, PartialEq)]
pub struct Spot { pub at: Vec<usize>, pub list: Option<usize> }

/// Parts by position, through the view and in the plain value.
pub trait Part: Le + Partialable where Self::Value: PartialItem {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>);
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct;
	fn put(v: &mut Self::Value, p: &[usize], k: u64);
	fn add(v: &mut Self::Value, p: &[usize], k: u64);
	fn m_look(&self, p: &[usize]) -> Option<String>;
	fn m_put(&mut self, p: &[usize], k: u64);
	fn m_add(&mut self, p: &[usize], k: u64);
}

macro_rules! leaf_part { ($($t:ty $(, $g:ident)?;)*) => { $(
	impl$(<$g: Le>)? Part for $t {
		fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { out.push(Spot { at: at.to_vec(), list: None }); }
		fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, _: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct {
			if fetch { v.fetch(raw, db)?; }
			v.get(raw, db).map(|x| format!("{:?}", x))
		}
		fn put(v: &mut Self::Value, _: &[usize], k: u64) { v.set(Self::nth(k)); }
		fn add(_: &mut Self::Value, _: &[usize], _: u64) { unreachable!() }
		fn m_look(&self, _: &[usize]) -> Option<String> { Some(format!("{:?}", self)) }
		fn m_put(&mut self, _: &[usize], k: u64) { *self = Self::nth(k); }
		fn m_add(&mut self, _: &[usize], _: u64) { unreachable!() }
	}
)* } }
leaf_part! { u8; u16; u32; u64; u128; U256; H256; Whole<T>, T; }

/// A part that is only replaced as a whole.
#[derive(Clone, PartialEq, Debug)]
pub struct Whole<T>(pub T);
impl<T: Le> Partialable for Whole<T> { type Value = PartialValue<Whole<T>>; }
impl<T: IntoTree> IntoTree for Whole<T> {
	fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<<DB::Construct as bm::Construct>::Value, Error<DB::Error>> where DB::Construct: CompatibleConstruct { self.0.into_tree(db) }
}
impl<T: FromTree> FromTree for Whole<T> {
	fn from_tree<DB: ReadBackend>(root: &<DB::Construct as bm::Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where DB::Construct: CompatibleConstruct { T::from_tree(root, db).map(Whole) }
}
impl<T: Le> Le for Whole<T> {
	fn spec<C: LeC>(&self) -> Value { self.0.spec::<C>() }
	fn nth(k: u64) -> Self { Whole(T::nth(k)) }
	fn any(cx: &mut Cx) -> Self { Whole(T::any(cx)) }
}

/// A list of parts.
#[derive(Clone, PartialEq, Debug)]
pub struct LVec<T>(pub Vec<T>);
impl<T: Part> Partialable for LVec<T> where T::Value: PartialItem { type Value = PartialVec<T>; }
impl<T> IntoTree for LVec<T> where for<'a> ElementalVariableVecRef<'a, T>: IntoCompositeListTree {
	fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<<DB::Construct as bm::Construct>::Value, Error<DB::Error>> where DB::Construct: CompatibleConstruct { ElementalVariableVecRef(&self.0).into_composite_list_tree(db, None) }
}
impl<T> FromTree for LVec<T> where ElementalVariableVec<T>: FromCompositeListTree {
	fn from_tree<DB: ReadBackend>(root: &<DB::Construct as bm::Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where DB::Construct: CompatibleConstruct { ElementalVariableVec::<T>::from_composite_list_tree(root, db, None).map(|v| LVec(v.0)) }
}
impl<T: Le> Le for LVec<T> {
	fn spec<C: LeC>(&self) -> Value { self.0.spec::<C>() }
	fn nth(k: u64) -> Self { LVec(seq(k, (k as usize * 2) % 5)) }
	fn any(cx: &mut Cx) -> Self { let n = cx.choose(4); let k = cx.choose(3) as u64; LVec(seq(k, n)) }
}
impl<T: Part> Part for LVec<T> where T::Value: PartialItem {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) {
		out.push(Spot { at: at.to_vec(), list: Some(self.0.len()) });
		for (i, x) in self.0.iter().enumerate() { x.spots(&[at, &[i]].concat(), out); }
	}
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { T::look(v.at(p[0]), &p[1..], fetch, raw, db) }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { T::put(v.at(p[0]), &p[1..], k) }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { if p.is_empty() { v.push(T::nth(k)) } else { T::add(v.at(p[0]), &p[1..], k) } }
	fn m_look(&self, p: &[usize]) -> Option<String> { self.0.get(p[0]).and_then(|x| x.m_look(&p[1..])) }
	fn m_put(&mut self, p: &[usize], k: u64) { self.0[p[0]].m_put(&p[1..], k) }
	fn m_add(&mut self, p: &[usize], k: u64) { if p.is_empty() { self.0.push(T::nth(k)) } else { self.0[p[0]].m_add(&p[1..], k) } }
}
include!("parts.rs");

#[derive(Clone, Debug, PartialEq)]
pub enum Act { Get(Vec<usize>), Fetch(Vec<usize>), Put(Vec<usize>, u64), Add(Vec<usize>, u64), Flush, /** A new view. */ Again, /** The tree is changed by other means, the view holding nothing. */ Outside(Vec<usize>, u64) }

/// A merkleized value, its view, and what both should be.
pub struct Viewed<T: Part, C: LeC, R: RootStatus> where T::Value: PartialItem {
	pub db: Mem<C>,
	pub raw: Raw<R, C>,
	pub view: T::Value,
	/// What the tree holds.
	pub is: T,
	/// What the view shows.
	pub shown: T,
	pub added: Vec<(Vec<usize>, u64)>,
	/// Another value in the database.
	other: (Value, T),
}

/// What can be done to a view of a value.
pub fn acts_of<T: Part>(v: &T, values: &[u64], reads: bool) -> Vec<Act> where T::Value: PartialItem {
	let mut s = vec![];
	v.spots(&[], &mut s);
	let mut out = vec![Act::Flush];
	for s in s {
		match s.list {
			None => { if reads { out.push(Act::Get(s.at.clone())); out.push(Act::Fetch(s.at.clone())); } for k in values { out.push(Act::Put(s.at.clone(), *k)); } },
			Some(_) => for k in values { out.push(Act::Add(s.at.clone(), *k)); },
		}
	}
	if reads { out.push(Act::Again); }
	out
}

fn list_of(spots: &[Spot], p: &[usize]) -> bool { spots.iter().any(|s| s.list.is_some() && s.at == p) }

impl<T: Part, C: LeC, R: RootStatus> Viewed<T, C, R> where T::Value: PartialItem {
	pub fn new(v: &T) -> Res<Self> {
		let mut db = Mem::<C>::default();
		let o = T::nth(2);
		let other = (put::<_, C>(&o, &mut db).map_err(Fail)?, o);
		db.rootify(&other.0).unwrap();
		let root = put::<_, C>(v, &mut db).map_err(Fail)?;
		ensure_eq!(root, v.spec::<C>(), "root of {:?}", v);
		if R::is_owned() { db.rootify(&root).unwrap(); }
		Ok(Viewed { db, raw: Raw::from_leaked(root), view: PartialItem::new(PartialIndex::root()), is: v.clone(), shown: v.clone(), added: vec![], other })
	}
	pub fn acts(&self, values: &[u64], reads: bool) -> Vec<Act> { acts_of(&self.is, values, reads) }
	fn whole(&mut self, what: &str) -> Res {
		ensure_eq!(self.raw.root(), self.is.spec::<C>(), "root after {} (holding {:?})", what, self.is);
		let got = take::<T, C>(&self.raw.root(), &mut self.db);
		ensure_eq!(got, Ok(self.is.clone()), "value in the tree after {}", what);
		let got = take::<T, C>(&self.other.0, &mut self.db);
		ensure_eq!(got, Ok(self.other.1.clone()), "another value after {}", what);
		Ok(())
	}
	pub fn apply(&mut self, a: &Act) -> Res<u64> {
		let before = self.raw.root();
		match a {
			Act::Get(p) | Act::Fetch(p) => {
				let fetch = match a { Act::Fetch(_) => true, _ => false };
				let got = T::look(&mut self.view, p, fetch, &self.raw, &mut Any::<C>(&mut self.db)).map_err(|e| format!("{:?}", e));
				let want = if fetch { &self.is } else { &self.shown };
				let want = want.m_look(p).ok_or("AccessOverflowed".to_string());
				ensure_eq!(got, want, "{:?} of {:?}", a, self.shown);
				if fetch { self.refresh(p); }
				ensure_eq!(self.raw.root(), before, "root after {:?}", a);
			},
			Act::Put(p, k) => { T::put(&mut self.view, p, *k); self.shown.m_put(p, *k); },
			Act::Add(p, k) => { T::add(&mut self.view, p, *k); self.added.push((p.clone(), *k)); },
			Act::Outside(p, k) => {
				let mut m = self.is.clone();
				let mut s = vec![];
				m.spots(&[], &mut s);
				if list_of(&s, p) { m.m_add(p, *k) } else { m.m_put(p, *k) }
				let root = put::<_, C>(&m, &mut self.db).map_err(Fail)?;
				ensure_eq!(self.raw.set(&mut self.db, Index::root(), root), Ok(()), "{:?}", a);
				self.is = m.clone();
				self.shown = m;
			},
			Act::Again => { self.view = PartialItem::new(PartialIndex::root()); self.shown = self.is.clone(); self.added.clear(); },
			Act::Flush => {
				let r = self.view.flush(&mut self.raw, &mut Any::<C>(&mut self.db));
				ensure_eq!(r, Ok(()), "flushing {:?} and {:?} to {:?}", self.shown, self.added, self.is);
				let quiet = self.shown == self.is && self.added.is_empty();
				for (p, k) in std::mem::replace(&mut self.added, vec![]) { self.shown.m_add(&p, k); }
				self.is = self.shown.clone();
				if quiet { ensure_eq!(self.raw.root(), before, "root after a flush without changes"); }
				self.whole("a flush")?;
				return Ok(5)
			},
		}
		Ok(2)
	}
	/// A fetch shows what is in the tree.
	fn refresh(&mut self, p: &[usize]) {
		// all values under test come from `nth`; find the one there
		let want = self.is.m_look(p);
		for k in 0..32 { self.shown.m_put(p, k); if self.shown.m_look(p) == want { return } }
		panic!("harness: unknown value")
	}
	pub fn h(&self) -> H { H::new().b(self.raw.root().as_ref()).s(&format!("{:?}{:?}", self.shown, self.added)).u(R::is_owned() as u64).u(C::unit() as u64) }
}

fn go<T: Part, C: LeC, R: RootStatus>(cx: &mut Cx, v: &T, n: usize, values: &[u64], reads: bool) -> Res where T::Value: PartialItem {
	let mut w = Viewed::<T, C, R>::new(v)?;
	cx.note(|| format!("{:?}, {}", v, if R::is_owned() { "owned" } else { "dangling" }));
	for _ in 0..n {
		let a = { let all = w.acts(values, reads); match cx.step(all.len()) { Some(i) => all[i].clone(), None => break } };
		cx.note(|| format!("{:?}", a));
		let e = w.apply(&a)?;
		if cx.transition() { cx.eval(e); cx.state(w.h()); }
	}
	// whatever is pending arrives
	w.apply(&Act::Flush)?;
	w.apply(&Act::Flush)?;
	let mut s = vec![];
	w.is.spots(&[], &mut s);
	for s in s { if s.list.is_none() { w.apply(&Act::Get(s.at))?; } }
	Ok(())
}
fn either<T: Part>(cx: &mut Cx, v: &T, n: usize, values: &[u64], reads: bool) -> Res where T::Value: PartialItem {
	match cx.choose(2) { 0 => go::<T, Dyn, Owned>(cx, v, n, values, reads), _ => on(UNI, || go::<T, Dyn, Dangling>(cx, v, n, values, reads)) }
}

/// Histories of a given length; flags: steps, and whether everything is read too.
fn history<T: Part>(cx: &mut Cx, f: u32) -> Res where T::Value: PartialItem {
	let v = T::nth(cx.pick(&[0u64, 2, 4]));
	either(cx, &v, (f & 15) as usize, if f & 32 > 0 { &[1, 3] } else { &[3] }, f & 16 > 0)
}

/// Every part left, read, set, or read and set.
fn each<T: Part>(cx: &mut Cx, _: u32) -> Res where T::Value: PartialItem {
	let v = T::nth(cx.pick(&[2u64, 1]));
	let mut w = Viewed::<T, Dyn, Owned>::new(&v)?;
	let mut s = vec![];
	v.spots(&[], &mut s);
	for s in &s {
		match (cx.choose(3), s.list) {
			(0, _) => { },
			(1, None) => { w.apply(&Act::Get(s.at.clone()))?; },
			(1, Some(_)) => { w.apply(&Act::Add(s.at.clone(), 3))?; },
			(_, None) => { w.apply(&Act::Put(s.at.clone(), 5))?; },
			(_, Some(_)) => { w.apply(&Act::Add(s.at.clone(), 3))?; w.apply(&Act::Add(s.at.clone(), 4))?; },
		}
	}
	cx.note(|| format!("{:?} to {:?} and {:?}", v, w.shown, w.added));
	let e = w.apply(&Act::Flush)?;
	w.apply(&Act::Flush)?;
	cx.transition();
	cx.eval(e);
	cx.state(w.h());
	Ok(())
}

/// The tree is changed by other means after a flush: the view has nothing left to write over it.
fn outside<T: Part>(cx: &mut Cx, f: u32) -> Res where T::Value: PartialItem {
	let v = T::nth(cx.pick(&[2u64, 4]));
	if cx.choose(2) == 1 { return on(UNI, || outside_of::<T, Dangling>(cx, &v, f)) }
	outside_of::<T, Owned>(cx, &v, f)
}
fn outside_of<T: Part, R: RootStatus>(cx: &mut Cx, v: &T, f: u32) -> Res where T::Value: PartialItem {
	let mut w = Viewed::<T, Dyn, R>::new(v)?;
	for _ in 0..f {
		let a = { let mut all = w.acts(&[3], true); all.retain(|a| *a != Act::Again); cx.pick(&all) };
		cx.note(|| format!("{:?} of {:?}", a, v));
		w.apply(&a)?;
	}
	w.apply(&Act::Flush)?;
	let changes: Vec<Act> = w.acts(&[6], false).into_iter().filter_map(|a| match a { Act::Put(p, k) | Act::Add(p, k) => Some(Act::Outside(p, k)), _ => None }).collect();
	let a = cx.pick(&changes);
	cx.note(|| format!("{:?}", a));
	w.apply(&a)?;
	let mut e = 5;
	for _ in 0..2 {
		let mut s = vec![];
		w.is.spots(&[], &mut s);
		e += w.apply(&Act::Flush)?;
		for s in s { if s.list.is_none() { e += w.apply(&Act::Fetch(s.at))?; } }
	}
	let a = { let all = w.acts(&[5], false); cx.pick(&all) };
	cx.note(|| format!("{:?}", a));
	w.apply(&a)?;
	e += w.apply(&Act::Flush)?;
	cx.transition();
	cx.eval(e);
	cx.state(w.h());
	Ok(())
}

/// Lists of every length: a number of additions, elements set, flushed in between or not.
fn growth<T: Part>(cx: &mut Cx, f: u32) -> Res where T::Value: PartialItem, LVec<T>: Part, <LVec<T> as Partialable>::Value: PartialItem {
	let n = cx.choose(f as usize + 1);
	let more = cx.choose(6);
	let v = LVec(seq::<T>(2, n));
	let mut w = Viewed::<LVec<T>, Dyn, Owned>::new(&v)?;
	let set = cx.choose(n + 1);
	let early = cx.choose(2);
	let mut inner = vec![];
	T::nth(2).spots(&[], &mut inner);
	let leaf = inner.iter().find(|s| s.list.is_none() && !(0..s.at.len()).any(|i| list_of(&inner, &s.at[..i]))).map(|s| s.at.clone()).unwrap();
	if set < n { w.apply(&Act::Put([&[set], &leaf[..]].concat(), 7))?; }
	for i in 0..more { w.apply(&Act::Add(vec![], 3 + i as u64))?; if early == 1 && i == 0 { w.apply(&Act::Flush)?; } }
	w.apply(&Act::Flush)?;
	cx.note(|| format!("{} elements, {} more, element {} set, flushed early: {}", n, more, set, early));
	for i in 0..n + more { w.apply(&Act::Get([&[i], &leaf[..]].concat()))?; }
	// beyond the end
	let at = [&[n + more + cx.pick(&[0, 1, 9, 1usize << 40])], &leaf[..]].concat();
	w.apply(&Act::Get(at.clone()))?;
	let before = w.raw.root();
	<LVec<T> as Part>::put(&mut w.view, &at, 3);
	let r = w.view.flush(&mut w.raw, &mut Any::<Dyn>(&mut w.db));
	ensure_eq!(r, Err(Error::AccessOverflowed), "setting element {} of {}", at[0], n + more);
	ensure_eq!(w.raw.root(), before, "root after setting element {} of {}", at[0], n + more);
	// and the view is usable after that
	w.apply(&Act::Flush)?;
	w.apply(&Act::Add(vec![], 9))?;
	let e = w.apply(&Act::Flush)?;
	cx.transition();
	cx.eval(e + (n + more) as u64 + 3);
	cx.state(w.h());
	Ok(())
}

/// A position beyond the end of a list together with other changes: refused, and no part becomes anything it was not told to be.
fn beyond<T: Part>(cx: &mut Cx, f: u32) -> Res where T::Value: PartialItem {
	let v = T::nth(cx.pick(&[0u64, 2, 4]));
	let mut w = Viewed::<T, Dyn, Owned>::new(&v)?;
	let mut s = vec![];
	v.spots(&[], &mut s);
	let lists: Vec<Spot> = s.iter().filter(|s| s.list.is_some()).cloned().collect();
	if lists.is_empty() { return Ok(()) }
	for _ in 0..cx.choose(f as usize + 1) {
		let a = { let all: Vec<Act> = w.acts(&[3], false).into_iter().filter(|a| *a != Act::Flush).collect(); cx.pick(&all) };
		w.apply(&a)?;
	}
	let l = cx.pick(&lists);
	let off = cx.choose(2);
	let at = [&l.at[..], &[l.list.unwrap() + off]].concat();
	// what an element there would look like
	let mut m = v.clone();
	for _ in 0..=off { m.m_add(&l.at, 2); }
	let mut spots = vec![];
	m.spots(&[], &mut spots);
	let inner: Vec<Spot> = spots.into_iter().filter(|s| s.at.starts_with(&at)).collect();
	let p = cx.pick(&inner);
	cx.note(|| format!("{:?} set at {:?}", v, p));
	if p.list.is_some() { T::add(&mut w.view, &p.at, 3); } else { T::put(&mut w.view, &p.at, 3); }
	let r = w.view.flush(&mut w.raw, &mut Any::<Dyn>(&mut w.db));
	ensure_eq!(r, Err(Error::AccessOverflowed), "flushing with a change at {:?} of {:?}", p, w.is);
	let got = take::<T, Dyn>(&w.raw.root(), &mut w.db).map_err(|e| Fail(format!("after a refused flush: {}", e)))?;
	for s in &s {
		if s.list.is_some() { continue }
		let g = got.m_look(&s.at);
		ensure!(g == w.is.m_look(&s.at) || g == w.shown.m_look(&s.at), "part {:?} after a refused flush: {:?}, was {:?}, set to {:?}", s.at, g, w.is.m_look(&s.at), w.shown.m_look(&s.at));
	}
	let mut now = vec![];
	got.spots(&[], &mut now);
	for s in &s { if let Some(n) = s.list {
		let l = now.iter().find(|t| t.at == s.at).and_then(|t| t.list);
		ensure!(l.map(|l| l >= n && l <= n + w.added.iter().filter(|a| a.0 == s.at).count()).unwrap_or(false), "length of the list {:?} after a refused flush: {:?}, was {}", s.at, l, n);
	} }
	ensure_eq!(w.raw.root(), got.spec::<Dyn>(), "root after a refused flush");
	cx.transition();
	cx.eval(s.len() as u64 + 3);
	cx.state(w.h());
	Ok(())
}

/// A view's history as a script.
#[derive(Clone)]
pub struct PartScript<T> { pub v: T, pub owned: bool, pub acts: Vec<Act> }
impl<T: Part> PartScript<T> where T::Value: PartialItem {
	pub fn choose(cx: &mut Cx, v: T, owned: bool, n: usize) -> Self {
		let (mut is, mut shown, mut added) = (v.clone(), v.clone(), vec![]);
		let mut acts = vec![];
		for _ in 0..n {
			let a = { let mut all = acts_of(&is, &[3], true); all.retain(|a| match a { Act::Fetch(_) | Act::Again => false, _ => true }); cx.pick(&all) };
			match &a {
				Act::Put(p, k) => shown.m_put(p, *k),
				Act::Add(p, k) => added.push((p.clone(), *k)),
				Act::Flush => { for (p, k) in std::mem::replace(&mut added, vec![]) { shown.m_add(&p, k); } is = shown.clone(); },
				_ => { },
			}
			acts.push(a);
		}
		PartScript { v, owned, acts }
	}
}
fn part_run<T: Part, R: RootStatus, C: LeC>(root: Value, acts: &[Act], db: &mut dyn Db<Value>) -> Obs where T::Value: PartialItem {
	let db = &mut Any::<C>(db);
	let mut o = vec![];
	let mut raw = Raw::<R, C>::from_leaked(root);
	let mut view: T::Value = PartialItem::new(PartialIndex::root());
	for a in acts {
		let go = match a {
			Act::Get(p) => { let r = T::look(&mut view, p, false, &raw, db); see(&mut o, r, |s| s.into_bytes()) },
			Act::Fetch(p) => { let r = T::look(&mut view, p, true, &raw, db); see(&mut o, r, |s| s.into_bytes()) },
			Act::Put(p, k) => { T::put(&mut view, p, *k); true },
			Act::Add(p, k) => { T::add(&mut view, p, *k); true },
			Act::Again => { view = PartialItem::new(PartialIndex::root()); true },
			Act::Outside(..) => unreachable!(),
			Act::Flush => { let r = view.flush(&mut raw, db); let root = raw.root(); see(&mut o, r, |_| root.as_ref().to_vec()) },
		};
		if !go { return o }
	}
	o
}
impl<T: Part, C: LeC> Script<C> for PartScript<T> where T::Value: PartialItem {
	type Start = Value;
	fn start(&self, db: &mut Mem<C>) -> Res<Value> {
		let root = put::<_, C>(&self.v, db).map_err(Fail)?;
		if self.owned { db.rootify(&root).unwrap(); }
		Ok(root)
	}
	fn root(&self, s: &Value) -> Option<Value> { Some(s.clone()) }
	fn run(&self, s: &Value, db: &mut dyn Db<Value>) -> Obs {
		if self.owned { part_run::<T, Owned, C>(s.clone(), &self.acts, db) } else { part_run::<T, Dangling, C>(s.clone(), &self.acts, db) }
	}
	fn owned(&self) -> bool { self.owned }
	fn name(&self) -> String { format!("view of {:?}: {:?}", self.v, self.acts) }
}

fn place(p: &[bool]) -> Index { let mut i = 1usize; for b in p { i = i * 2 + *b as usize; } Index::from_one(i).unwrap() }
fn deep(n: usize, i: usize) -> Vec<bool> { let d = depth_for(n as u64); (0..d).rev().map(|b| i >> b & 1 == 1).collect() }

fn indices(cx: &mut Cx, most: usize) -> Res {
	// a list of lists below some index of a tree
	let top = 1 + cx.choose(15);
	let n = cx.choose(most + 1);
	let i = cx.pick(&(0..n + 3).collect::<Vec<_>>());
	let m = cx.pick(&[0usize, 1, 2, 3, 4, 5, 8, 9]);
	let j = cx.pick(&[0, m / 2, m.saturating_sub(1), m, m + 1]);
	let mut db = Mem::<Dyn>::default();
	let lists: Vec<Vec<u16>> = (0..n).map(|k| seq(k as u64 + 2, m)).collect();
	let root = put::<_, Dyn>(&lists, &mut db).map_err(Fail)?;
	let mut raw = Raw::<Dangling, Dyn>::default();
	raw.set(&mut db, Index::from_one(top).unwrap(), root).map_err(|e| Fail(format!("{:?}", e)))?;
	let t = bits(top);
	let pi = PartialIndex::root().raw(Index::from_one(top).unwrap());
	let mut left = t.clone();
	left.push(false);
	let want = if i < n { Ok(place(&[&left[..], &deep(n, i)].concat())) } else { Err(Error::AccessOverflowed) };
	ensure_eq!(pi.list(i).resolve(&raw, &mut db), want, "index of element {} of {} below {}", i, n, top);
	if i < n {
		let want = if j < m { Ok(place(&[&left[..], &deep(n, i), &[false], &deep(m, j)].concat())) } else { Err(Error::AccessOverflowed) };
		let got = pi.list(i).list(j).resolve(&raw, &mut db);
		ensure_eq!(got, want, "index of element {} of {} of element {} of {} below {}", j, m, i, n, top);
		if let Ok(x) = got { ensure_eq!(raw.get(&mut db, x), Ok(Some(lists[i][j].spec::<Dyn>())), "what is at the index"); }
	}
	cx.transition();
	cx.eval(3);
	cx.state(H::new().u(top as u64).u(n as u64).u(i as u64).u(m as u64).u(j as u64));
	Ok(())
}
fn vectors(cx: &mut Cx, most: usize) -> Res {
	let (n, m) = (1 + cx.choose(most), cx.pick(&[1usize, 2, 3, 5, 8, 9, 17]));
	let (i, j) = (cx.choose(n), cx.choose(m));
	let mut db = Mem::<Dyn>::default();
	let raw = Raw::<Dangling, Dyn>::default();
	let p = PartialIndex::root();
	ensure_eq!(p.resolve(&raw, &mut db), Ok(Index::root()), "index of the whole");
	ensure_eq!(p.vector(i, n).resolve(&raw, &mut db), Ok(place(&deep(n, i))), "index of element {} of a vector of {}", i, n);
	ensure_eq!(p.vector(i, n).vector(j, m).resolve(&raw, &mut db), Ok(place(&[&deep(n, i)[..], &deep(m, j)].concat())), "index of element {} of {} within element {} of {}", j, m, i, n);
	let x = Index::from_one(5).unwrap();
	ensure_eq!(p.vector(i, n).raw(x).vector(j, m).resolve(&raw, &mut db), Ok(place(&[&deep(n, i)[..], &[false, true], &deep(m, j)].concat())), "mixed index");
	cx.transition();
	cx.eval(4);
	cx.state(H::new().u(n as u64).u(i as u64).u(m as u64).u(j as u64));
	Ok(())
}
/// Recorded lengths that are no lengths, of lists at some place.
pub fn lengths(cx: &mut Cx) -> Res {
	let bit = cx.choose(256);
	let low = cx.choose(3);
	let depth = cx.pick(&[0usize, 1, 2, 5, 30, 57]);
	let right = cx.choose(2) == 1;
	let len = (U256::one() << bit) + U256::from([0u64, 1, 5][low]);
	let mut b = [0u8; 32];
	len.to_little_endian(&mut b);
	let mut db = Mem::<Dyn>::default();
	let mut raw = Raw::<Dangling, Dyn>::default();
	let path = vec![right; depth];
	let at = place(&path);
	let e = |e| Fail(format!("{:?}", e));
	raw.set(&mut db, at.left(), Value::leaf(1)).map_err(e)?;
	raw.set(&mut db, at.right(), val(b)).map_err(e)?;
	let d = if bit < 64 { depth_for(len.as_u64()) } else { 64 };
	let fits = depth + 1 + d <= 63;
	let first = |d: usize| { let mut p = path.clone(); p.push(false); p.extend(vec![false; d]); place(&p) };
	let list = PartialIndex::root().raw(at);
	for i in [0usize, 1, 2, 1 << 40, usize::max_value()].iter() {
		let got = guarded(|| list.list(*i).resolve(&raw, &mut db)).map_err(Fail)?;
		let within = U256::from(*i) < len;
		let want = if bit < 64 && !within { Err(Error::AccessOverflowed) } else if !fits { Err(Error::CorruptedDatabase) } else { Ok(Index::from_one(first(d).route_value() + i).unwrap()) };
		ensure_eq!(got, want, "index of element {} of a list of 2^{} and {} elements at depth {}", i, bit, [0, 1, 5][low], depth);
	}
	cx.note(|| format!("2^{} and {} elements at depth {}", bit, [0, 1, 5][low], depth));
	cx.transition();
	cx.eval(5);
	cx.state(H::new().u(bit as u64).u(low as u64).u(depth as u64).u(right as u64));
	Ok(())
}
trait RouteValue { fn route_value(&self) -> usize; }
impl RouteValue for Index { fn route_value(&self) -> usize { match self.route() { bm::IndexRoute::Root => 1, bm::IndexRoute::Select(s) => s.iter().fold(1, |a, x| 2 * a + (*x == bm::IndexSelection::Right) as usize) } } }

fn script<T: Part>(cx: &mut Cx, n: u32) -> PartScript<T> where T::Value: PartialItem {
	let v = T::nth(cx.pick(&[0u64, 2]));
	let owned = cx.choose(2) == 0;
	let n = cx.choose(n as usize + 1);
	PartScript::choose(cx, v, owned, n)
}
fn any_backend<T: Part>(cx: &mut Cx, n: u32) -> Res where T::Value: PartialItem { let s = script::<T>(cx, n); if cx.choose(2) == 0 { everywhere::<Dyn, _>(cx, &s) } else { on(UNI, || everywhere::<Dyn, _>(cx, &s)) } }
fn any_proof<T: Part>(cx: &mut Cx, n: u32) -> Res where T::Value: PartialItem { let mut s = script::<T>(cx, n); s.acts.push(Act::Flush); proves::<Dyn, _>(cx, &s, false) }
fn any_compact<T: Part>(cx: &mut Cx, n: u32) -> Res where T::Value: PartialItem { let mut s = script::<T>(cx, n); s.acts.push(Act::Flush); proves::<Dyn, _>(cx, &s, true) }
/// Lists with equal parts, several elements set in one flush: the proof has to suffice in whatever order they are written.
fn alike<T: Part>(cx: &mut Cx, n: u32) -> Res where T::Value: PartialItem, LVec<T>: Part, <LVec<T> as Partialable>::Value: PartialItem {
	let len = 2 + cx.choose(n as usize);
	let v = LVec((0..len).map(|_| T::nth(1 + cx.choose(2) as u64)).collect::<Vec<_>>());
	let mut acts = vec![];
	for i in 0..len { match cx.choose(3) { 0 => { }, k => acts.push(Act::Put(vec![i], k as u64)) } }
	if cx.choose(2) == 1 { acts.push(Act::Add(vec![], 1)); }
	acts.push(Act::Flush);
	let s = PartScript { v, owned: cx.choose(2) == 0, acts };
	for _ in 0..3 { proves::<Dyn, _>(cx, &s, false)?; }
	everywhere::<Dyn, _>(cx, &s)
}
macro_rules! views { ($f:ident) => { types![$f: K1, K3, K5, M2, M3, L1, L2, L3, LVec<u8>, LVec<K2>, Q2, Q3] } }
pub fn equal(r: &mut Runner, n: u32) { let t: Vec<TypeFn> = types![alike: u8, H256]; r.dfs("views of lists with equal parts", 0, |cx| { let (_, f) = t[cx.choose(t.len())]; f(cx, n) }); }
/// Histories of views on every backend (C13), proved (C15), in compact form (C16).
pub fn backends(r: &mut Runner, n: u32) { let t: Vec<TypeFn> = views!(any_backend); r.dfs("histories of partial views", 0, |cx| { let (_, f) = t[cx.choose(t.len())]; f(cx, n) }); }
pub fn proofs(r: &mut Runner, n: u32, compact: bool) { let t: Vec<TypeFn> = if compact { views!(any_compact) } else { views!(any_proof) }; r.dfs("histories of partial views", 0, |cx| { let (_, f) = t[cx.choose(t.len())]; f(cx, n) }); }

pub fn c18(r: &mut Runner) {
	let t = r.thorough;
	let d = |a: u32, b: u32| if t { b } else { a };
	let all = |f: u32| -> Vec<TypeFn> { let _ = f; types![history: K1, K2, K3, K4, K5, K6, K7, K8, K9, M1, M2, M3, M5, L1, L2, L3, L4, L5, Q2, Q3, LVec<u8>, LVec<K3>, LVec<LVec<H256>>, u64, Whole<Vec<u8>>] };
	let a = all(0);
	r.dfs("short histories of every container", d(2, 3) as usize, |cx| { let (n, f) = a[cx.choose(a.len())]; cx.note(|| n.to_string()); f(cx, d(2, 3) | 16 | 32) });
	r.dfs("writing histories of every container", d(3, 4) as usize, |cx| { let (n, f) = a[cx.choose(a.len())]; cx.note(|| n.to_string()); f(cx, d(3, 4)) });
	let s: Vec<TypeFn> = if t { types![history: K1, K2, M2, L1, L2, LVec<u8>, LVec<K1>, LVec<LVec<u8>>, Q2] } else { types![history: K1, L1, LVec<u8>, LVec<LVec<u8>>] };
	r.dfs("longer histories of small containers", d(4, 5) as usize, |cx| { let (n, f) = s[cx.choose(s.len())]; cx.note(|| n.to_string()); f(cx, d(4, 5) | 16) });
	let e: Vec<TypeFn> = types![each: K1, K2, K3, K4, K5, K6, K7, K8, K9, M2, M3, M5, L1, L2, L3, L5, Q2, Q3, LVec<K1>, LVec<LVec<u8>>];
	r.dfs("every part left, read or set", 0, |cx| { let (n, f) = e[cx.choose(e.len())]; cx.note(|| n.to_string()); f(cx, 0) });
	let o: Vec<TypeFn> = types![outside: K1, K2, K3, K4, K5, K6, K7, K8, K9, M1, M2, M3, M5, L1, L2, L3, L4, L5, Q2, Q3, LVec<u8>, LVec<K3>, LVec<LVec<H256>>, u64, Whole<Vec<u8>>];
	r.dfs("changed by other means between flushes", 0, |cx| { let (n, f) = o[cx.choose(o.len())]; cx.note(|| n.to_string()); f(cx, d(1, 2)) });
	let g: Vec<TypeFn> = types![growth: u8, U256, K3, L2, Whole<Vec<u8>>];
	r.dfs("lists of every length", 0, |cx| { let (n, f) = g[cx.choose(g.len())]; cx.note(|| n.to_string()); f(cx, d(18, 40)) });
	let b: Vec<TypeFn> = types![beyond: L1, L2, L3, L4, L5, Q2, LVec<u8>, LVec<K3>, LVec<LVec<u8>>];
	r.dfs("changes beyond the end", 0, |cx| { let (n, f) = b[cx.choose(b.len())]; cx.note(|| n.to_string()); f(cx, d(2, 3)) });
	r.dfs("indices of list elements", 0, |cx| indices(cx, d(18, 40) as usize));
	r.dfs("indices of vector elements", 0, |cx| vectors(cx, d(70, 150) as usize));
}
