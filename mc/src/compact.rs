//! C16 compact and plain proofs.

use crate::engine::*;
use crate::hash::*;
use crate::raw::{bits, Term};
use crate::wrap::histories;
use bm::*;
use std::collections::{HashMap, HashSet};
use std::iter::repeat;
use std::rc::Rc;
use std::sync::Arc;
use std::sync::Mutex;

fn node<V>(l: Term<V>, r: Term<V>) -> Term<V> { Term::Node(Rc::new((l, r))) }

/// All tree shapes with `n` leaves, as inner-node nesting.
#[derive(Clone, Debug)]
pub enum Shape { Leaf, Node(Arc<(Shape, Shape)>) }
pub fn shapes(n: usize) -> Vec<Shape> {
	if n == 1 { return vec![Shape::Leaf] }
	let mut out = vec![];
	for k in 1..n { for l in shapes(k) { for r in shapes(n - k) { out.push(Shape::Node(Arc::new((l.clone(), r)))); } } }
	out
}
/// The shape with leaf numbers from the left.
fn fill<V: Hv>(s: &Shape, leaves: &mut dyn Iterator<Item = u64>) -> Term<V> {
	match s { Shape::Leaf => Term::Leaf(V::leaf(leaves.next().unwrap())), Shape::Node(n) => { let l = fill(&n.0, leaves); let r = fill(&n.1, leaves); node(l, r) } }
}

fn store<C: Spec>(t: &Term<C::V>, db: &mut Mem<C>) -> C::V {
	match t {
		Term::Leaf(v) => v.clone(),
		Term::Node(n) => {
			let (l, r) = (store::<C>(&n.0, db), store::<C>(&n.1, db));
			let k = C::hash(&l, &r);
			db.insert(k.clone(), (l, r)).unwrap();
			k
		},
	}
}

/// What is depicted when exactly some nodes are known.
fn expand<C: Spec>(t: &Term<C::V>, known: &HashSet<C::V>) -> CompactValue<C::V> {
	let k = t.hash::<C>();
	match t {
		Term::Node(n) if known.contains(&k) => CompactValue::Combined(Box::new((expand::<C>(&n.0, known), expand::<C>(&n.1, known)))),
		_ => CompactValue::Single(k),
	}
}

fn leaves<'a, V>(c: &'a mut CompactValue<V>, out: &mut Vec<&'a mut V>) {
	match c { CompactValue::Single(v) => out.push(v), CompactValue::Combined(b) => { let (l, r) = &mut **b; leaves(l, out); leaves(r, out); } }
}

/// Keys with their children, left to right, children first.
fn steps<C: Spec>(c: &CompactValue<C::V>, out: &mut Vec<(C::V, C::V, C::V)>) -> C::V {
	match c {
		CompactValue::Single(v) => v.clone(),
		CompactValue::Combined(b) => {
			let (l, r) = (steps::<C>(&b.0, out), steps::<C>(&b.1, out));
			let k = C::hash(&l, &r);
			out.push((k.clone(), l, r));
			k
		},
	}
}

/// Everything asked of one compact proof of `t`.
fn check<C: Spec>(cx: &mut Cx, t: &Term<C::V>, db: &Mem<C>, known: &HashSet<C::V>, tamper: bool) -> Res {
	let root = t.hash::<C>();
	let mut db = db.clone();
	let mut p = ProvingBackend::new(&mut db);
	for k in known { ensure!(p.get(k) .map(|x| x.is_some()).unwrap_or(false), "harness: a node of the tree is not stored"); }
	let proof = Proofs::from(p);
	let want = expand::<C>(t, known);
	let got = proof.into_compact(root.clone());
	ensure_eq!(got, want, "compact form of the proof of {:?} in {:?}", known, t);
	let n = compact::<C>(&got, &root)?;
	let (back, r) = Proofs::from_compact::<C>(got.clone());
	ensure_eq!(r, root, "root given with the proof taken from compact form");
	ensure_eq!(back, proof, "the proof taken from its compact form");
	ensure_eq!(back.into_compact(r), got, "the compact form of the proof taken from compact form");
	let mut n = n + 5;
	if tamper { n += binding::<C>(&got, &root)?; }
	cx.eval(n);
	cx.transition();
	cx.state(known.iter().fold(H::new().b(root.as_ref()).u(C::unit() as u64), |h, _| h).u({ let mut b = Bag::default(); for k in known { b.add(k.h()); } b.h().0 }));
	Ok(())
}

/// Size, root and folding.
fn compact<C: Spec>(c: &CompactValue<C::V>, root: &C::V) -> Res<u64> {
	let mut copy = c.clone();
	let mut l = vec![];
	leaves(&mut copy, &mut l);
	ensure_eq!(c.len(), l.len(), "length of {:?}", c);
	ensure_eq!(c.clone().root::<C>(), *root, "root of {:?}", c);
	let mut want = vec![];
	steps::<C>(c, &mut want);
	let (got, r) = c.clone().fold::<C, Vec<(C::V, C::V, C::V)>, _>(&|k, (mut a, l), (b, r)| { a.extend(b); a.push((k, l, r)); a });
	ensure_eq!(r, *root, "root given by folding");
	ensure_eq!(got, want, "nodes met by folding {:?}", c);
	Ok(4)
}

/// Every change of one value, and every exchange of two, is noticed.
fn binding<C: Spec>(c: &CompactValue<C::V>, root: &C::V) -> Res<u64> {
	let mut n = 0;
	for i in 0..c.len() {
		for b in 0..C::V::BYTES {
			let mut bad = c.clone();
			{ let mut l = vec![]; leaves(&mut bad, &mut l); l[i].as_mut()[b] ^= 1 << (b % 8); }
			ensure!(bad.root::<C>() != *root, "changing byte {} of value {} of {:?} leaves the root as it is", b, i, c);
			n += 1;
		}
		for j in 0..i {
			let mut bad = c.clone();
			let same = { let mut l = vec![]; leaves(&mut bad, &mut l); let (x, y) = (l[i].clone(), l[j].clone()); *l[i] = y.clone(); *l[j] = x.clone(); x == y };
			ensure!((bad.root::<C>() == *root) == same, "exchanging values {} and {} of {:?} leaves the root as it is", j, i, c);
			n += 1;
		}
	}
	Ok(n)
}

/// Closed sets of known nodes: a node only together with a way to it.
fn reveal<C: Spec>(cx: &mut Cx, t: &Term<C::V>, known: &mut HashSet<C::V>, asked: &mut HashMap<C::V, bool>) {
	if let Term::Node(n) = t {
		let k = t.hash::<C>();
		let yes = match asked.get(&k) { Some(y) => *y, None => { let y = cx.choose(2) == 0; asked.insert(k.clone(), y); y } };
		if yes && known.insert(k) { reveal::<C>(cx, &n.0, known, asked); reveal::<C>(cx, &n.1, known, asked); }
	}
}

fn shape_case<C: Spec>(cx: &mut Cx, all: &[Vec<Shape>], max: usize, alpha: u64, tamper: bool) -> Res {
	let n = 1 + cx.choose(max);
	let s = cx.choose(all[n].len());
	let t: Term<C::V> = if alpha == 0 { fill(&all[n][s], &mut (1..)) } else {
		let v: Vec<u64> = (0..n).map(|_| cx.choose(alpha as usize) as u64).collect();
		fill(&all[n][s], &mut v.into_iter())
	};
	let mut db = Mem::<C>::default();
	store::<C>(&t, &mut db);
	let mut known = HashSet::new();
	reveal::<C>(cx, &t, &mut known, &mut HashMap::new());
	cx.note(|| format!("{:?} with {} nodes known", t, known.len()));
	check::<C>(cx, &t, &db, &known, tamper)
}

/// All compact proofs up to a size over two values have roots of their own.
fn distinct<C: Spec>(cx: &mut Cx, all: &[Vec<Shape>], n: usize, seen: &Mutex<HashMap<C::V, (usize, usize, u64)>>) -> Res {
	let s = cx.choose(all[n].len());
	fn build<V: Hv>(s: &Shape, bits: &mut u64) -> CompactValue<V> {
		match s {
			Shape::Leaf => { let v = *bits & 1; *bits >>= 1; CompactValue::Single(V::leaf(v)) },
			Shape::Node(n) => { let l = build(&n.0, bits); let r = build(&n.1, bits); CompactValue::Combined(Box::new((l, r))) },
		}
	}
	for w in 0..1u64 << n {
		let c: CompactValue<C::V> = build(&all[n][s], &mut { w });
		let root = c.root::<C>();
		if let Some(o) = seen.lock().unwrap().insert(root, (n, s, w)) {
			ensure!(o == (n, s, w), "two compact proofs have the same root: shape {} of {} leaves holding {:b}, and shape {} of {} leaves holding {:b}", s, n, w, o.1, o.0, o.2);
		}
	}
	cx.transition();
	cx.eval(1 << n);
	cx.state(H::new().u(n as u64).u(s as u64).u(C::unit() as u64));
	Ok(())
}

fn plain<C: Spec>(cx: &mut Cx, index: usize, given: usize) -> Res {
	let path = bits(index);
	let d = path.len();
	let leaf = C::V::leaf(77);
	// the siblings, from the value upwards
	let sib: Vec<C::V> = (0..given).map(|i| C::V::leaf(i as u64 % 250 + 1)).collect();
	let ix = Index::from_one(index).unwrap();
	let got = CompactValue::from_plain(leaf.clone(), sib.clone(), ix);
	cx.note(|| format!("index {} with {} siblings", index, given));
	cx.transition();
	cx.eval(1);
	cx.state(H::new().u(index as u64).u(given as u64));
	if given != d { ensure!(got.is_none(), "a branch of {} siblings is accepted for index {} at depth {}: {:?}", given, index, d, got); return Ok(()) }
	let got = match got { Some(g) => g, None => return Err(Fail(format!("a branch of {} siblings is refused for index {}", given, index))) };
	let mut want = CompactValue::Single(leaf.clone());
	let mut root = leaf.clone();
	for (i, right) in path.iter().rev().enumerate() {
		let s = CompactValue::Single(sib[i].clone());
		want = CompactValue::Combined(Box::new(if *right { (s, want) } else { (want, s) }));
		root = if *right { C::hash(&sib[i], &root) } else { C::hash(&root, &sib[i]) };
	}
	ensure_eq!(got, want, "compact form of a branch to {}", index);
	let mut n = compact::<C>(&got, &root)? + 3;
	ensure!(CompactValue::from_plain(leaf.clone(), repeat(leaf.clone()), ix).is_none(), "an endless branch is accepted");
	let (proof, r) = Proofs::from_compact::<C>(got.clone());
	ensure_eq!(r, root, "root of a branch to {}", index);
	ensure_eq!(proof.len(), d, "nodes of a branch to {}", index);
	// a tree known through it
	let mut db = Mem::<C>::default();
	db.populate(proof.into());
	let raw = DanglingRaw::<C>::from_leaked(root.clone());
	let get = |db: &mut Mem<C>, i: usize| raw.get(db, Index::from_one(i).unwrap());
	ensure_eq!(get(&mut db, index), Ok(Some(leaf.clone())), "value at {} known from a branch", index);
	for i in 0..d { ensure_eq!(get(&mut db, (index >> i) ^ 1), Ok(Some(sib[i].clone())), "sibling known from a branch to {}", index); n += 1; }
	if d < 8 { n += binding::<C>(&got, &root)?; }
	cx.eval(n);
	Ok(())
}

/// Branches taken from a tree.
fn branch<C: Spec>(cx: &mut Cx, depth: usize) -> Res {
	let same = cx.choose(3);
	fn full<V: Hv>(d: usize, k: &mut u64, same: usize) -> Term<V> {
		if d == 0 { *k += 1; return Term::Leaf(V::leaf(match same { 0 => *k, 1 => 1, _ => *k % 2 })) }
		let l = full(d - 1, k, same);
		let r = full(d - 1, k, same);
		node(l, r)
	}
	let t: Term<C::V> = full(depth, &mut 0, same);
	let mut db = Mem::<C>::default();
	let root = store::<C>(&t, &mut db);
	let raw = DanglingRaw::<C>::from_leaked(root.clone());
	let index = 1 + cx.choose((1 << (depth + 1)) - 1);
	let mut get = |i: usize| -> Res<C::V> { raw.get(&mut db, Index::from_one(i).unwrap()).map_err(|e| Fail(format!("{:?}", e))).and_then(|v| v.ok_or_else(|| Fail("nothing there".into()))) };
	let d = bits(index).len();
	let mut sib = vec![];
	for i in 0..d { sib.push(get((index >> i) ^ 1)?); }
	let leaf = get(index)?;
	let c = match CompactValue::from_plain(leaf, sib, Index::from_one(index).unwrap()) { Some(c) => c, None => return Err(Fail(format!("the branch to {} is refused", index))) };
	ensure_eq!(c.root::<C>(), root, "root of the branch to {}", index);
	cx.note(|| format!("branch to {} of a tree of depth {}", index, depth));
	cx.transition();
	cx.eval(2);
	cx.state(H::new().u(index as u64).u(depth as u64).u(same as u64));
	Ok(())
}

pub fn c16(r: &mut Runner) {
	let t = r.thorough;
	let d = |a: usize, b: usize| if t { b } else { a };
	let all: Vec<Vec<Shape>> = (0..10).map(|n| if n == 0 { vec![] } else { shapes(n) }).collect();
	let all = &all;
	r.dfs("shapes with distinct values, every known part", 0, |cx| { let a = &all[..]; if cx.choose(2) == 0 { shape_case::<Dyn>(cx, a, d(7, 8), 0, true) } else { on(UNI, || shape_case::<Dyn>(cx, a, d(7, 8), 0, true)) } });
	r.dfs("shapes with equal and empty values, every known part", 0, |cx| { let a = &all[..]; match cx.choose(3) { 0 => shape_case::<Dyn>(cx, a, d(6, 7), 2, false), 1 => on(UNI, || shape_case::<Dyn>(cx, a, d(6, 7), 2, false)), _ => shape_case::<Dyn8>(cx, a, 5, 2, true) } });
	r.dfs("shapes over sha256", 0, |cx| { let a = &all[..]; if cx.choose(2) == 0 { on(SHA, || shape_case::<Dyn>(cx, a, d(4, 5), 2, true)) } else { on(SHAUNI, || shape_case::<Dyn>(cx, a, d(4, 5), 2, true)) } });
	let (si, su) = (Mutex::new(HashMap::new()), Mutex::new(HashMap::new()));
	r.dfs("no two compact proofs share a root", 0, |cx| { let a = &all[..]; let n = 1 + cx.choose(d(8, 9)); if cx.choose(2) == 0 { distinct::<Dyn>(cx, a, n, &si) } else { on(SHAUNI, || distinct::<Dyn>(cx, a, n.min(d(6, 8)), &su)) } });
	r.dfs("plain proofs for every index and length", 0, |cx| {
		let index = 1 + cx.choose(d(255, 2047));
		let given = cx.choose(bits(index).len() + 4);
		match cx.choose(3) { 0 => plain::<Dyn>(cx, index, given), 1 => on(SHAUNI, || plain::<Dyn>(cx, index, given)), _ => on(UNI, || plain::<Dyn8>(cx, index, given)) }
	});
	r.dfs("plain proofs at every depth", 0, |cx| {
		let depth = cx.choose(63) + 1;
		let base = 1usize << depth;
		let index = match cx.choose(5) { 0 => base, 1 => base | (base - 1), 2 => base | 1, 3 => base | base / 3, _ => base | (base >> 1) };
		let given = match cx.choose(5) { 0 => depth, 1 => depth - 1, 2 => depth + 1, 3 => 0, _ => 2 * depth };
		plain::<Dyn>(cx, index, given)
	});
	r.dfs("branches of trees", 0, |cx| { let k = cx.choose(d(7, 9)); if cx.choose(2) == 0 { branch::<Dyn>(cx, k) } else { on(UNI, || branch::<Dyn>(cx, k)) } });
	histories(r, true, d(2, 3));
}
