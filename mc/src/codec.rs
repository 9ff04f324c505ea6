//! C21: binary and serde forms of bounded lists, node values and compact proofs.

use crate::compact::{shapes, Shape};
use crate::engine::*;
use crate::hash::*;
use crate::le::{Le, Lim};
use bm::*;
use bm_le::*;
use parity_codec::{Decode, Encode};
use primitive_types::{H256, H512, U256};
use serde::de::value::{Error as DeError, SeqDeserializer};
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use typenum::*;

trait El: Le + Encode + Decode + Serialize + DeserializeOwned { }
impl<T: Le + Encode + Decode + Serialize + DeserializeOwned> El for T { }

/// Decodes all of some bytes, with nothing behind them and with something behind them.
fn decoded<T: Decode + PartialEq + Debug>(b: &[u8], what: &dyn Fn() -> String) -> Res<Option<T>> {
	let bad = |p: String| Fail(format!("{}: {}", what(), p));
	let mut i = b;
	let got = guarded(|| T::decode(&mut i)).map_err(bad)?;
	let left = i.len();
	let mut more = b.to_vec();
	more.extend(&[0x5a, 1, 0]);
	let mut j = &more[..];
	if let Some(v) = &got {
		let again = guarded(|| T::decode(&mut j)).map_err(bad)?;
		ensure!(again.as_ref() == Some(v) && j.len() == left + 3, "{}: with more input behind it decodes to {:?}, and leaves {} bytes", what(), again, j.len());
	}
	Ok(if left == 0 { got } else { None })
}

/// Every beginning of the input is refused.
fn truncated<T: Decode + PartialEq + Debug>(b: &[u8], what: &dyn Fn() -> String) -> Res<u64> {
	for n in 0..b.len() {
		let mut i = &b[..n];
		let got = guarded(|| T::decode(&mut i)).map_err(|p| Fail(format!("{}, first {} bytes: {}", what(), n, p)))?;
		ensure!(got.is_none(), "{}: the first {} of {} bytes are accepted as {:?}", what(), n, b.len(), got);
	}
	Ok(b.len() as u64)
}

/// serde, through text, a tree and a bare sequence.
fn texts<T: Serialize + DeserializeOwned + PartialEq + Debug>(v: &T, ok: bool, what: &dyn Fn() -> String) -> Res<u64> {
	let s = serde_json::to_string(v).map_err(|e| Fail(format!("{}: {}", what(), e)))?;
	let judge = |got: Result<T, String>, how: &str| -> Res {
		match got { Ok(g) => ensure!(ok && &g == v, "{}: accepted from {} as {:?}", what(), how, g), Err(e) => ensure!(!ok, "{}: refused from {}: {}", what(), how, e) }
		Ok(())
	};
	judge(serde_json::from_str(&s).map_err(|e| e.to_string()), "text")?;
	judge(serde_json::from_slice(s.as_bytes()).map_err(|e| e.to_string()), "bytes")?;
	judge(serde_json::from_reader(s.as_bytes()).map_err(|e| e.to_string()), "a reader")?;
	// serde_json's tree has no place for numbers beyond 64 bits
	if let Ok(tree) = serde_json::to_value(v) { judge(serde_json::from_value(tree).map_err(|e| e.to_string()), "a tree")?; }
	let pretty = serde_json::to_string_pretty(v).map_err(|e| Fail(format!("{}: {}", what(), e)))?;
	judge(serde_json::from_str(&pretty).map_err(|e| e.to_string()), "indented text")?;
	let mut n = 0;
	if s.ends_with(|c| c == ']' || c == '}' || c == '"') && s.len() < 3000 {
		for k in 0..s.len() {
			if !s.is_char_boundary(k) { continue }
			ensure!(serde_json::from_str::<T>(&s[..k]).is_err(), "{}: the first {} characters of {} are accepted", what(), k, s);
			n += 1;
		}
	}
	Ok(n + 5)
}

/// One list under one limit.
fn list<T: El, N: Lim>(cx: &mut Cx, v: Vec<T>) -> Res {
	let max = N::to_u64();
	let n = v.len();
	let ok = n as u64 <= max;
	let what = || format!("{} elements of {} in a list of at most {}", n, std::any::type_name::<T>(), max);
	let m: MaxVec<T, N> = v.clone().into();
	let plain = v.encode();
	let e = m.encode();
	ensure!(e == plain, "{}: encoded otherwise than the plain list", what());
	ensure!(m.using_encoded(|b| b == &e[..]), "{}: using_encoded", what());
	let got = decoded::<MaxVec<T, N>>(&plain, &what)?;
	ensure!(got == if ok { Some(m.clone()) } else { None }, "{}: decoded as {:?}", what(), got.map(|g| g.0.len()));
	let mut evals = 3 + truncated::<MaxVec<T, N>>(&plain, &what)?;
	// another count in front
	if n < 64 && (plain.len() - 1) % n.max(1) == 0 {
		for c in 0..64u8 {
			let mut b = plain.clone();
			b[0] = c << 2;
			let (mut i, mut j) = (&b[..], &b[..]);
			let (x, y) = (Vec::<T>::decode(&mut i), MaxVec::<T, N>::decode(&mut j));
			let want = x.filter(|x| x.len() as u64 <= max);
			ensure!(y.as_ref().map(|y| &y.0) == want.as_ref(), "{}, with {} as their number: decoded as {:?}", what(), c, y);
			if y.is_some() { ensure_eq!(j.len(), i.len(), "{}, with {} as their number: bytes left", what(), c); }
			evals += 1;
		}
	}
	// serde
	ensure!(serde_json::to_value(&m).ok() == serde_json::to_value(&v).ok(), "{}: serialized otherwise than the plain list", what());
	evals += texts(&m, ok, &what)?;
	ensure!(serde_json::to_value(&Compact(m.clone())).ok() == serde_json::to_value(&m).ok(), "{}: the compact mark shows", what());
	let c: Result<Compact<MaxVec<T, N>>, _> = serde_json::from_str(&serde_json::to_string(&m).unwrap());
	match c { Ok(c) => ensure!(ok && c.0 == m, "{}: accepted as compact list", what()), Err(e) => ensure!(!ok, "{}: refused as compact list: {}", what(), e) }
	let mut place = MaxVec::<T, N>::default();
	let r = MaxVec::<T, N>::deserialize_in_place(&mut serde_json::Deserializer::from_str(&serde_json::to_string(&v).unwrap()), &mut place);
	ensure!(r.is_ok() == ok && (!ok || place == m), "{}: deserialized in place: {:?}", what(), r.err());
	cx.transition();
	cx.state(H::new().s(std::any::type_name::<T>()).u(max).b(&plain));
	cx.eval(evals + 4);
	cx.note(|| what());
	Ok(())
}
/// All lengths around the limit, several contents.
fn lists<T: El, N: Lim>(cx: &mut Cx, cap: u32) -> Res {
	let max = N::to_u64();
	let mut lens: Vec<usize> = (0..(max + 4).min(cap as u64) as usize).collect();
	if max > cap as u64 && max < 70_000 { lens.extend(max as usize - 1..max as usize + 3); }
	let len = cx.pick(&lens);
	let v: Vec<T> = if len <= 3 && cap >= 8 { (0..len).map(|_| T::any(cx)).collect() } else { let k = cx.choose(3) as u64; (0..len).map(|i| T::nth(k + if k == 2 { i as u64 % 3 } else { 0 })).collect() };
	list::<T, N>(cx, v)
}
/// Lists of numbers from a source that does not tell how many there are.
fn stream<N: Lim>(cx: &mut Cx, cap: u32) -> Res {
	let max = N::to_u64();
	let n = cx.choose((max + 4).min(cap as u64) as usize);
	let hint = cx.choose(2) == 0;
	let v: Vec<u32> = (0..n as u32).collect();
	fn go<N: Lim, I: Iterator<Item = u32>>(i: I) -> Result<MaxVec<u32, N>, DeError> { MaxVec::deserialize(SeqDeserializer::new(i)) }
	let got = if hint { go::<N, _>(v.iter().cloned()) } else { go::<N, _>(v.iter().cloned().filter(|_| true)) };
	match got { Ok(g) => ensure!(n as u64 <= max && g.0 == v, "{} numbers streamed into a list of at most {}: {:?}", n, max, g), Err(e) => ensure!(n as u64 > max, "{} numbers streamed into a list of at most {}: {}", n, max, e) }
	let _ = 0u32.into_deserializer() as serde::de::value::U32Deserializer<DeError>;
	cx.transition();
	cx.state(H::new().u(max).u(n as u64));
	cx.eval(1);
	Ok(())
}

/// A user's own type with such parts.
#[derive(Clone, Debug, PartialEq, Encode, Decode, Serialize, Deserialize)]
struct User { a: u16, l: MaxVec<u32, U3>, v: bm_le::Value, n: MaxVec<MaxVec<u16, U2>, U2>, p: CompactValue<bm_le::Value>, o: Option<MaxVec<bool, U1>> }

fn user(cx: &mut Cx) -> Res {
	let few = |cx: &mut Cx, n: usize| cx.choose(n + 2);
	let l = few(cx, 3);
	let n = few(cx, 2);
	let mut ok = l <= 3 && n <= 2;
	let nested: Vec<MaxVec<u16, U2>> = (0..n).map(|i| { let k = few(cx, 2); ok &= k <= 2; (0..k).map(|j| (i * 300 + j) as u16).collect::<Vec<_>>().into() }).collect();
	let o = match few(cx, 2) { 0 => None, k => { ok &= k - 1 <= 1; Some(vec![true; k - 1].into()) } };
	let u = User { a: 513, l: (0..l as u32).collect::<Vec<_>>().into(), v: <bm_le::Value as Hv>::leaf(7), n: nested.into(), p: CompactValue::Combined(Box::new((CompactValue::Single(<bm_le::Value as Hv>::leaf(1)), CompactValue::Single(<bm_le::Value as Hv>::leaf(2))))), o };
	let what = || format!("{:?}", u);
	let b = u.encode();
	let got = decoded::<User>(&b, &what)?;
	ensure!(got.as_ref() == if ok { Some(&u) } else { None }, "{} decoded as {:?}", what(), got);
	let n = truncated::<User>(&b, &what)? + texts(&u, ok, &what)?;
	cx.transition();
	cx.state(H::new().b(&b));
	cx.eval(n + 1);
	Ok(())
}

/// Every byte of an encoding replaced: what is accepted has just that encoding.
fn exact<T: Encode + Decode + PartialEq + Debug>(b: &[u8], at: &[usize], bytes: &[u8], what: &dyn Fn() -> String) -> Res<u64> {
	let mut n = 0;
	for i in at {
		for x in bytes {
			let mut c = b.to_vec();
			if c[*i] == *x { continue }
			c[*i] = *x;
			let mut r = &c[..];
			let got = guarded(|| T::decode(&mut r)).map_err(|p| Fail(format!("{} with byte {} replaced by {}: {}", what(), i, x, p)))?;
			if let Some(v) = got { let used = c.len() - r.len(); ensure!(v.encode() == &c[..used], "{} with byte {} replaced by {} is accepted as {:?}, which is encoded otherwise", what(), i, x, v); }
			n += 1;
		}
	}
	Ok(n)
}

fn value(cx: &mut Cx) -> Res {
	let b = match cx.choose(5) {
		0 => { let k = cx.choose(256); let mut b = [0; 32]; b[k / 8] = 1 << (k % 8); b },
		1 => { let k = cx.choose(256); let mut b = [0xff; 32]; b[k / 8] ^= 1 << (k % 8); b },
		2 => { let k = cx.choose(33); let mut b = [0; 32]; for x in &mut b[k..] { *x = 0xa5; } b },
		3 => { let k = cx.choose(33); let mut b = [0; 32]; for x in &mut b[..k] { *x = 0x5a; } b },
		_ => { let k = cx.choose(256); let mut b = [0; 32]; for (i, x) in b.iter_mut().enumerate() { *x = (k + i) as u8; } b },
	};
	let v = val(b);
	let what = || format!("node value {:?}", v);
	let e = v.encode();
	let n = e.len();
	ensure!(decoded::<bm_le::Value>(&e, &what)? == Some(v.clone()), "{}: another value after decoding", what());
	let mut evals = 1 + truncated::<bm_le::Value>(&e, &what)? + texts(&v, true, &what)?;
	evals += exact::<bm_le::Value>(&e, &(0..n).collect::<Vec<_>>(), &[0, 1, 0x7f, 0xff], &what)?;
	cx.transition();
	cx.state(H::new().b(&b));
	cx.eval(evals);
	Ok(())
}

fn build<V>(s: &Shape, f: &mut dyn FnMut() -> V) -> CompactValue<V> {
	match s { Shape::Leaf => CompactValue::Single(f()), Shape::Node(n) => { let l = build(&n.0, f); let r = build(&n.1, f); CompactValue::Combined(Box::new((l, r))) } }
}
fn proof<V: Clone + Debug + PartialEq + Encode + Decode + Serialize + DeserializeOwned>(cx: &mut Cx, p: CompactValue<V>, exhaustive: bool) -> Res {
	let what = || format!("{:?}", p);
	let e = p.encode();
	let got = decoded::<CompactValue<V>>(&e, &what)?;
	ensure!(got.as_ref() == Some(&p), "{} decoded as {:?}", what(), got);
	let mut evals = 1 + truncated::<CompactValue<V>>(&e, &what)?;
	if e.len() < 1500 { evals += texts(&p, true, &what)?; }
	let at: Vec<usize> = (0..e.len()).collect();
	if exhaustive { evals += exact::<CompactValue<V>>(&e, &at, &(0..=255).collect::<Vec<_>>(), &what)?; }
	else if e.len() < 400 { evals += exact::<CompactValue<V>>(&e, &at, &[0, 1, 2, 3, 0x80, 0xff], &what)?; }
	cx.transition();
	cx.state(H::new().b(&e));
	cx.eval(evals);
	cx.note(what);
	Ok(())
}
fn pick_shape(cx: &mut Cx, n: usize) -> (Shape, usize) { let n = 1 + cx.choose(n); let s = shapes(n); (cx.pick(&s), n) }

/// Compact proofs of real reads survive encoding.
fn real(cx: &mut Cx, n: usize) -> Res {
	let len = 1 + cx.choose(n);
	let mut db = Mem::<Dyn>::default();
	let mut l = OwnedList::<Dyn>::create(&mut db, None).map_err(|e| Fail(format!("{:?}", e)))?;
	for i in 0..len { List::push(&mut l, &mut db, <bm_le::Value as Hv>::leaf(i as u64 % 5)).map_err(|e| Fail(format!("{:?}", e)))?; }
	let root = Tree::root(&l);
	let at = cx.choose(len);
	let both = cx.choose(2) == 1;
	let proofs = {
		let mut p = ProvingBackend::new(&mut db);
		List::get(&l, &mut p, at).map_err(|e| Fail(format!("{:?}", e)))?;
		let list = List::<Dangling, Dyn>::reconstruct(root.clone(), &mut p, None).map_err(|e| Fail(format!("{:?}", e)))?;
		if both { List::get(&list, &mut p, 0).map_err(|e| Fail(format!("{:?}", e)))?; }
		Proofs::from(p)
	};
	let c = proofs.into_compact(root.clone());
	let back = CompactValue::<bm_le::Value>::decode(&mut &c.encode()[..]);
	let json: Option<CompactValue<bm_le::Value>> = serde_json::from_str(&serde_json::to_string(&c).unwrap()).ok();
	for (how, b) in vec![("codec", back), ("serde", json)] {
		let b = match b { Some(b) => b, None => return Err(Fail(format!("the proof of element {} of {} does not survive {}", at, len, how))) };
		ensure!(b == c, "the proof of element {} of {} comes out of {} otherwise", at, len, how);
		ensure_eq!(b.clone().root::<Dyn>(), root, "root of a proof after {}", how);
		let mut m = Mem::<Dyn>::default();
		let (proofs, r) = Proofs::from_compact::<Dyn>(b);
		ensure_eq!(r, root, "root of the proofs after {}", how);
		m.populate(proofs.into());
		let list = List::<Dangling, Dyn>::reconstruct(r, &mut m, None).map_err(|e| Fail(format!("{:?}", e)))?;
		ensure_eq!(List::get(&list, &mut m, at).map_err(|e| format!("{:?}", e)), Ok(<bm_le::Value as Hv>::leaf(at as u64 % 5)), "element {} of {} from the proof after {}", at, len, how);
	}
	cx.transition();
	cx.state(H::new().u(len as u64).u(at as u64).u(both as u64));
	cx.eval(8);
	Ok(())
}

type ListFn = fn(&mut Cx, u32) -> Res;
macro_rules! limits { ($($t:ty),* ; $l:tt) => { { let mut v: Vec<ListFn> = vec![]; $( limits!(@ v, $t, $l); )* v } };
	(@ $v:ident, $t:ty, [$($n:ty),*]) => { $( $v.push(lists::<$t, $n>); )* } }

pub fn c21(r: &mut Runner) {
	let t = r.thorough;
	let d = |a: usize, b: usize| if t { b } else { a };
	let small = limits![u16, u32, u64, u128, bool, U256, H256, Option<u16>, (u16, u32), Vec<u16>; [U0, U1, U2, U3, U5, U16]];
	r.dfs("bounded lists", 0, |cx| { let f = small[cx.choose(small.len())]; f(cx, 24) });
	let nested = limits![MaxVec<u16, U2>, MaxVec<MaxVec<u16, U1>, U2>, bm_le::Value, H512; [U1, U2, U3]];
	r.dfs("nested bounded lists", 0, |cx| { let f = nested[cx.choose(nested.len())]; f(cx, d(7, 8) as u32) });
	let big = limits![bool, u64; [U63, U64, U65, U255, typenum::U256, U257, U1023, U1024, U4096, U16384, U65536]];
	r.dfs("long bounded lists", 0, |cx| { let f = big[cx.choose(if t { big.len() } else { 9 })]; f(cx, 4) });
	let wide = limits![bool, u16; [Exp<U2, U31>, Exp<U2, U32>, Sum<Exp<U2, U32>, U1>, Exp<U2, U40>, Exp<U2, U63>]];
	r.dfs("limits beyond 32 bits", 0, |cx| { let f = wide[cx.choose(wide.len())]; f(cx, 20) });
	let streams: Vec<ListFn> = vec![stream::<U0>, stream::<U1>, stream::<U2>, stream::<U7>, stream::<U64>, stream::<U1024>, stream::<Exp<U2, U32>>];
	r.dfs("streamed lists", 0, |cx| { let f = streams[cx.choose(streams.len())]; f(cx, 1100) });
	r.dfs("user types", 0, user);
	r.dfs("node values", 0, value);
	r.dfs("small proofs of bytes", 0, |cx| { let (s, n) = pick_shape(cx, d(4, 5)); let l: Vec<i8> = (0..n).map(|_| cx.pick(&[0i8, 1, 2])).collect(); let mut i = l.into_iter(); let p = build(&s, &mut || i.next().unwrap()); proof(cx, p, true) });
	r.dfs("proofs of node values", 0, |cx| { let (s, _) = pick_shape(cx, d(7, 9)); let k = cx.choose(3) as u64; let mut i = 0; let p = build(&s, &mut || { i += 1; <bm_le::Value as Hv>::leaf(if k == 2 { i } else { k }) }); proof(cx, p, false) });
	r.dfs("deep proofs", 0, |cx| {
		let depth = cx.choose(d(64, 200));
		let way = cx.choose(3);
		let mut p = CompactValue::Single(<bm_le::Value as Hv>::leaf(1));
		for i in 0..depth { let o = CompactValue::Single(<bm_le::Value as Hv>::leaf(i as u64 + 2)); p = CompactValue::Combined(Box::new(if way == 0 || way == 2 && i % 2 == 0 { (p, o) } else { (o, p) })); }
		proof(cx, p, false)
	});
	r.dfs("proofs of real reads", 0, |cx| real(cx, d(17, 70)));
}
