//! Hash functions, node values, and the independent merkle oracle.

use bm::{Backend, InMemoryBackend, InheritedDigestConstruct, ReadBackend, UnitDigestConstruct, Construct, WriteBackend};
use bm_le::Value;
use digest::{Digest, FixedOutput, Input, Reset};
use generic_array::{ArrayLength, GenericArray};
use primitive_types::H256;
use std::cell::Cell;
use std::fmt::Debug;
use std::hash::Hash;
use std::marker::PhantomData;
use typenum::{U32, U8};
use crate::engine::{Bag, H};

pub use sha2::Sha256;

/// A cheap stand-in for a cryptographic digest (32 byte output).
#[derive(Clone)]
pub struct Fast32 { s: [u64; 4], n: u64 }
impl Default for Fast32 { fn default() -> Self { Fast32 { s: [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1], n: 0 } } }
fn mix(a: u64, b: u64) -> u64 { let m = a as u128 * b as u128; (m as u64) ^ ((m >> 64) as u64) }
impl Fast32 {
	fn word(&mut self, w: u64) {
		self.n += 1;
		let k = [0x9e3779b97f4a7c15u64, 0xc2b2ae3d27d4eb4f, 0x165667b19e3779f9, 0xd6e8feb86659fd93];
		let o = self.s;
		for i in 0..4 {
			self.s[i] = mix(o[i] ^ w.rotate_left(13 * i as u32) ^ 0x8000000000000001, k[i]).wrapping_add(o[(i + 1) & 3].rotate_left(23)) ^ self.n.wrapping_mul(k[3 - i]);
		}
	}
}
impl Input for Fast32 {
	fn input<B: AsRef<[u8]>>(&mut self, data: B) {
		for c in data.as_ref().chunks(8) {
			let mut w = [0u8; 8];
			w[..c.len()].copy_from_slice(c);
			self.word(u64::from_le_bytes(w));
		}
	}
}
impl FixedOutput for Fast32 {
	type OutputSize = U32;
	fn fixed_result(mut self) -> GenericArray<u8, U32> {
		self.word(0x1234567);
		self.word(0x89abcde);
		let mut out = GenericArray::default();
		for i in 0..4 { out[8 * i..8 * i + 8].copy_from_slice(&self.s[i].to_le_bytes()); }
		out
	}
}
impl Reset for Fast32 { fn reset(&mut self) { *self = Default::default() } }

/// The same with 8 byte output, for hosts of another size.
#[derive(Clone, Default)]
pub struct Fast8(Fast32);
impl Input for Fast8 { fn input<B: AsRef<[u8]>>(&mut self, data: B) { Input::input(&mut self.0, data) } }
impl FixedOutput for Fast8 {
	type OutputSize = U8;
	fn fixed_result(self) -> GenericArray<u8, U8> {
		let o = self.0.fixed_result();
		let mut out = GenericArray::default();
		for i in 0..8 { out[i] = o[i] ^ o[8 + i].rotate_left(1) ^ o[16 + i].rotate_left(2) ^ o[24 + i].rotate_left(3); }
		out
	}
}
impl Reset for Fast8 { fn reset(&mut self) { *self = Default::default() } }

/// Node value of 8 bytes.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct V8(pub [u8; 8]);
impl AsRef<[u8]> for V8 { fn as_ref(&self) -> &[u8] { &self.0 } }
impl AsMut<[u8]> for V8 { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl From<GenericArray<u8, U8>> for V8 { fn from(a: GenericArray<u8, U8>) -> Self { let mut r = [0; 8]; r.copy_from_slice(a.as_slice()); V8(r) } }
impl From<usize> for V8 { fn from(v: usize) -> Self { V8((v as u64).to_le_bytes()) } }
impl Into<usize> for V8 { fn into(self) -> usize { u64::from_le_bytes(self.0) as usize } }

/// Node values the harness can use.
pub trait Hv: Clone + Debug + Default + PartialEq + Eq + Hash + Ord + AsRef<[u8]> + AsMut<[u8]> + From<usize> + Into<usize> + From<GenericArray<u8, <Self as Hv>::N>> + Send + Sync + 'static {
	type N: ArrayLength<u8>;
	const BYTES: usize;
	fn of(b: &[u8]) -> Self { let mut v = Self::default(); v.as_mut()[..b.len()].copy_from_slice(b); v }
	/// Leaf number `k`: 0 is the default value, others differ in every part.
	fn leaf(k: u64) -> Self {
		let mut v = Self::default();
		if k != 0 { for (i, b) in v.as_mut().iter_mut().enumerate() { *b = (k as u8).wrapping_mul(37).wrapping_add((i as u8).wrapping_mul(11)).wrapping_add((k >> 8) as u8) | 1; } }
		if k != 0 { let n = v.as_ref().len(); v.as_mut()[n - 1] = k as u8; v.as_mut()[n - 2] = (k >> 8) as u8 | 0x80; v.as_mut()[n - 3] = (k >> 16) as u8; }
		v
	}
	fn h(&self) -> H { H::new().b(self.as_ref()) }
	fn short(&self) -> String { let b = self.as_ref(); if b.iter().all(|x| *x == 0) { "0".into() } else { format!("{:02x}{:02x}..{:02x}", b[0], b[1], b[b.len() - 1]) } }
}
impl Hv for Value { type N = U32; const BYTES: usize = 32; }
impl Hv for V8 { type N = U8; const BYTES: usize = 8; }

pub fn val(b: [u8; 32]) -> Value { Value(H256::from(b)) }

/// Digest and value of a construct, and its kind of empty value, for the oracle.
pub trait Spec: Construct<Value = <Self as Spec>::V> + 'static {
	type V: Hv;
	/// Whether empty subtrees are the default value.
	fn unit() -> bool;
	fn name() -> &'static str;
	fn hash(a: &Self::V, b: &Self::V) -> Self::V;
}
fn dig<D: Digest>(a: &[u8], b: &[u8]) -> GenericArray<u8, D::OutputSize> {
	let mut m = Vec::with_capacity(a.len() + b.len());
	m.extend_from_slice(a);
	m.extend_from_slice(b);
	D::digest(&m)
}
type Inh = InheritedDigestConstruct<Fast32, Value>;
type Uni = UnitDigestConstruct<Fast32, Value>;
type ShaInh = InheritedDigestConstruct<Sha256, Value>;
type ShaUni = UnitDigestConstruct<Sha256, Value>;
type Inh8 = InheritedDigestConstruct<Fast8, V8>;
type Uni8 = UnitDigestConstruct<Fast8, V8>;

/// The constructs of the library, chosen at run time (so that everything below is compiled once).
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Dyn;
/// The same for values of 8 bytes.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Dyn8;
pub const UNI: u8 = 1;
pub const SHA: u8 = 2;
pub const SHAUNI: u8 = 3;
thread_local! { static CHOSEN: Cell<u8> = Cell::new(0); }
fn chosen() -> u8 { CHOSEN.with(|c| c.get()) }
/// What `Dyn` stands for from here on.
pub fn choose_construct(m: u8) { CHOSEN.with(|c| c.set(m)) }
/// With `Dyn` standing for a construct.
pub fn on<T>(m: u8, f: impl FnOnce() -> T) -> T {
	let was = chosen();
	choose_construct(m);
	let r = f();
	choose_construct(was);
	r
}

/// A backend of the same values seen as one of another construct.
struct As<'a, C, DB: ?Sized>(&'a mut DB, PhantomData<C>);
impl<'a, C: Construct, DB: Backend + ?Sized> Backend for As<'a, C, DB> { type Construct = C; type Error = DB::Error; }
impl<'a, V: Clone + Default, C: Construct<Value = V>, DB: ReadBackend + ?Sized> ReadBackend for As<'a, C, DB> where DB::Construct: Construct<Value = V> {
	fn get(&mut self, k: &V) -> Result<Option<(V, V)>, DB::Error> { self.0.get(k) }
}
impl<'a, V: Clone + Default, C: Construct<Value = V>, DB: WriteBackend + ?Sized> WriteBackend for As<'a, C, DB> where DB::Construct: Construct<Value = V> {
	fn rootify(&mut self, k: &V) -> Result<(), DB::Error> { self.0.rootify(k) }
	fn unrootify(&mut self, k: &V) -> Result<(), DB::Error> { self.0.unrootify(k) }
	fn insert(&mut self, k: V, v: (V, V)) -> Result<(), DB::Error> { self.0.insert(k, v) }
}

macro_rules! dynamic { ($t:ident, $v:ty, $($m:pat, $c:ty, $d:ty, $unit:expr, $name:expr;)*) => {
	impl Construct for $t {
		type Value = $v;
		fn intermediate_of(l: &$v, r: &$v) -> $v { match chosen() { $($m => <$c>::intermediate_of(l, r),)* m => panic!("harness: construct {}", m) } }
		fn empty_at<DB: WriteBackend<Construct = Self> + ?Sized>(db: &mut DB, depth: usize) -> Result<$v, DB::Error> { match chosen() { $($m => <$c>::empty_at(&mut As(db, PhantomData), depth),)* m => panic!("harness: construct {}", m) } }
	}
	impl Spec for $t {
		type V = $v;
		fn unit() -> bool { match chosen() { $($m => $unit,)* m => panic!("harness: construct {}", m) } }
		fn name() -> &'static str { match chosen() { $($m => $name,)* m => panic!("harness: construct {}", m) } }
		fn hash(a: &$v, b: &$v) -> $v { match chosen() { $($m => <$v>::of(&dig::<$d>(a.as_ref(), b.as_ref())),)* m => panic!("harness: construct {}", m) } }
	}
} }
dynamic! { Dyn, Value,
	0, Inh, Fast32, false, "inherited";
	UNI, Uni, Fast32, true, "unit";
	SHA, ShaInh, Sha256, false, "inherited/sha256";
	SHAUNI, ShaUni, Sha256, true, "unit/sha256";
}
dynamic! { Dyn8, V8,
	0, Inh8, Fast8, false, "inherited/8";
	UNI, Uni8, Fast8, true, "unit/8";
}

/// A backend of which only the values are known.
pub trait Db<V> {
	fn look(&mut self, k: &V) -> Result<Option<(V, V)>, Text>;
	fn hold(&mut self, k: &V) -> Result<(), Text>;
	fn release(&mut self, k: &V) -> Result<(), Text>;
	fn store(&mut self, k: V, v: (V, V)) -> Result<(), Text>;
}
/// An error as it prints.
#[derive(Clone, PartialEq, Eq)]
pub struct Text(pub String);
impl Debug for Text { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
fn text<E: Debug>(e: E) -> Text { Text(format!("{:?}", e)) }
impl<D: WriteBackend> Db<<D::Construct as Construct>::Value> for D where D::Error: Debug {
	fn look(&mut self, k: &<D::Construct as Construct>::Value) -> Result<Option<(<D::Construct as Construct>::Value, <D::Construct as Construct>::Value)>, Text> { ReadBackend::get(self, k).map_err(text) }
	fn hold(&mut self, k: &<D::Construct as Construct>::Value) -> Result<(), Text> { WriteBackend::rootify(self, k).map_err(text) }
	fn release(&mut self, k: &<D::Construct as Construct>::Value) -> Result<(), Text> { WriteBackend::unrootify(self, k).map_err(text) }
	fn store(&mut self, k: <D::Construct as Construct>::Value, v: (<D::Construct as Construct>::Value, <D::Construct as Construct>::Value)) -> Result<(), Text> { WriteBackend::insert(self, k, v).map_err(text) }
}
/// Any backend, as one.
pub struct Any<'a, C: Construct>(pub &'a mut dyn Db<C::Value>);
impl<'a, C: Construct> Backend for Any<'a, C> { type Construct = C; type Error = Text; }
impl<'a, C: Construct> ReadBackend for Any<'a, C> { fn get(&mut self, k: &C::Value) -> Result<Option<(C::Value, C::Value)>, Text> { self.0.look(k) } }
impl<'a, C: Construct> WriteBackend for Any<'a, C> {
	fn rootify(&mut self, k: &C::Value) -> Result<(), Text> { self.0.hold(k) }
	fn unrootify(&mut self, k: &C::Value) -> Result<(), Text> { self.0.release(k) }
	fn insert(&mut self, k: C::Value, v: (C::Value, C::Value)) -> Result<(), Text> { self.0.store(k, v) }
}

/// Depth of a perfect binary tree with at least `n` leaves.
pub fn depth_for(n: u64) -> usize { let mut d = 0; while (1u128 << d) < n as u128 { d += 1 } d }

/// Empty subtree of a depth.
pub fn empty<C: Spec>(depth: usize) -> C::V {
	let mut v = C::V::default();
	if !C::unit() { for _ in 0..depth { v = C::hash(&v, &v); } }
	v
}

/// Root of the tree of a depth holding `leaves` from the left; parts without a leaf are empty.
pub fn tree<C: Spec>(leaves: &[C::V], depth: usize) -> C::V {
	if leaves.is_empty() { return empty::<C>(depth) }
	if depth == 0 { return leaves[0].clone() }
	let half = if depth - 1 >= 63 { usize::max_value() } else { 1usize << (depth - 1) };
	let k = leaves.len().min(half);
	let l = tree::<C>(&leaves[..k], depth - 1);
	let r = tree::<C>(&leaves[k..], depth - 1);
	C::hash(&l, &r)
}

/// Length as a node value.
pub fn len_value<V: Hv>(n: u64) -> V { V::of(&n.to_le_bytes()) }

pub type Mem<C> = InMemoryBackend<C>;

/// Hash of the whole content of a database.
pub fn db_hash<C: Spec>(db: &Mem<C>) -> H {
	let mut bag = Bag::default();
	for (k, (v, n)) in db.as_ref() {
		let mut h = k.h();
		match v { None => h = h.u(1), Some((l, r)) => h = h.u(2).b(l.as_ref()).b(r.as_ref()) }
		h = match n { None => h.u(3), Some(n) => h.u(4).u(*n as u64) };
		bag.add(h);
	}
	bag.h()
}

/// Children of a node, straight from the map.
pub fn kids<'a, C: Spec>(db: &'a Mem<C>, k: &C::V) -> Option<&'a (C::V, C::V)> { db.as_ref().get(k).and_then(|e| e.0.as_ref()) }

/// All keys reachable from some roots, and the default.
pub fn reachable<C: Spec>(db: &Mem<C>, roots: &[C::V]) -> std::collections::HashSet<C::V> {
	let mut out = std::collections::HashSet::new();
	out.insert(C::V::default());
	let mut todo: Vec<C::V> = roots.to_vec();
	while let Some(k) = todo.pop() {
		if !out.insert(k.clone()) { continue }
		if let Some((l, r)) = kids::<C>(db, &k) { todo.push(l.clone()); todo.push(r.clone()); }
	}
	out
}
