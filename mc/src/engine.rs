//! The explorer.
//!
//! A *body* drives the real implementation. Wherever behaviour can differ
//! (next operation, argument, place of a fault, shape of an input) it asks the
//! explorer to choose, so one execution of the body is one path of a finite
//! choice tree. Two searches run over that tree, both exhaustive within the
//! bound that the body states:
//!
//! * `dfs`: every path of the tree is executed (stateless search). Nothing is
//!   merged, so state hidden anywhere in the implementation is exercised.
//! * `bfs`: breadth-first over operations; the body reports the reached state
//!   as a 128-bit hash of everything observable, and each distinct state is
//!   expanded once (explicit-state search). Without a depth bound the search
//!   runs until closure.
//!
//! Every path is executed on fresh objects of the real implementation.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;
const SLOT: usize = 1 << 16;

/// Why a path failed.
#[derive(Debug, Clone)]
pub struct Fail(pub String);
pub type Res<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! ensure {
	($c:expr, $($a:tt)*) => { if !$c { return Err($crate::engine::Fail(format!($($a)*))) } }
}
#[macro_export]
macro_rules! ensure_eq {
	($a:expr, $b:expr, $($x:tt)*) => {{
		let (a, b) = (&$a, &$b);
		if a != b { return Err($crate::engine::Fail(format!("{}: got {:?}, expected {:?}", format!($($x)*), a, b))) }
	}}
}

thread_local! {
	static PANIC: RefCell<String> = RefCell::new(String::new());
	static SLOT_PTR: RefCell<*mut u8> = RefCell::new(std::ptr::null_mut());
}

extern "C" {
	fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
	fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
}

pub fn limit_memory(bytes: u64) {
	unsafe { setrlimit(9, &[bytes, bytes]); }
}

/// Shared file in which each worker keeps the path it is on, so that a crash,
/// a hang or memory exhaustion of this process can be attributed afterwards.
static SLOTS: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

pub fn map_slots(path: &str) {
	use std::os::unix::io::AsRawFd;
	let f = match std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path) {
		Ok(f) => f, Err(_) => return,
	};
	if f.set_len((SLOT * (WORKERS + 1)) as u64).is_err() { return }
	let p = unsafe { mmap(std::ptr::null_mut(), SLOT * (WORKERS + 1), 3, 1, f.as_raw_fd(), 0) };
	if p as isize != -1 { SLOTS.store(p, SeqCst); }
}

/// Paths which were being executed according to a slot file.
pub fn read_slots(path: &str) -> Vec<(usize, Vec<u32>)> {
	let data = match std::fs::read(path) { Ok(d) => d, Err(_) => return vec![] };
	let u = |o: usize| u32::from_le_bytes([data[o], data[o + 1], data[o + 2], data[o + 3]]);
	let mut out = Vec::new();
	for w in 0..WORKERS + 1 {
		let o = w * SLOT;
		if o + SLOT > data.len() || u(o) == 0 { continue }
		let len = u(o + 8) as usize;
		out.push((u(o + 4) as usize, (0..len.min(SLOT / 4 - 4)).map(|i| u(o + 16 + 4 * i)).collect()));
	}
	out
}

fn slot_put(i: usize, v: u32) {
	SLOT_PTR.with(|p| {
		let p = *p.borrow();
		if !p.is_null() && 4 * i + 4 <= SLOT { unsafe { std::ptr::write_volatile((p as *mut u32).add(i), v) } }
	})
}

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
			else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
			else { "panic".into() };
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		PANIC.with(|p| *p.borrow_mut() = format!("panic '{}' at {}", msg, loc));
	}));
}

fn panic_text(_: Box<dyn Any + Send>) -> String { PANIC.with(|p| p.borrow().clone()) }

/// Runs something that may panic, giving the panic as a failure text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

/// 128-bit hasher for state hashes (hash compaction).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct H(pub u64, pub u64);
impl H {
	pub fn new() -> Self { H(0x243f6a8885a308d3, 0x13198a2e03707344) }
	pub fn u(mut self, v: u64) -> Self {
		let m = (self.0 ^ v) as u128 * 0x9e3779b97f4a7c15f39cc0605cedc835u128 as u64 as u128;
		let k = (self.1 ^ v.rotate_left(32)) as u128 * 0xd6e8feb86659fd93u128;
		self.0 = (m as u64) ^ ((m >> 64) as u64) ^ self.1.rotate_left(17);
		self.1 = (k as u64) ^ ((k >> 64) as u64).rotate_left(29) ^ self.0.wrapping_mul(0xa0761d6478bd642f);
		self
	}
	pub fn b(mut self, v: &[u8]) -> Self {
		self = self.u(v.len() as u64 ^ 0x5555);
		for c in v.chunks(8) {
			let mut w = [0u8; 8];
			w[..c.len()].copy_from_slice(c);
			self = self.u(u64::from_le_bytes(w));
		}
		self
	}
	pub fn s(self, v: &str) -> Self { self.b(v.as_bytes()) }
}
/// Order-independent combination.
#[derive(Clone, Copy, Default)]
pub struct Bag(u64, u64, u64);
impl Bag {
	pub fn add(&mut self, h: H) { self.0 = self.0.wrapping_add(h.0); self.1 = self.1.wrapping_add(h.1); self.2 += 1 }
	pub fn h(&self) -> H { H::new().u(self.0).u(self.1).u(self.2) }
}

const SHARDS: usize = 64;
pub struct Seen(Vec<Mutex<HashSet<(u64, u64)>>>, AtomicU64);
impl Seen {
	fn new() -> Self { Seen((0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(), AtomicU64::new(0)) }
	fn insert(&self, h: H) -> bool {
		let new = self.0[(h.0 % SHARDS as u64) as usize].lock().unwrap().insert((h.0, h.1));
		if new { self.1.fetch_add(1, Relaxed); }
		new
	}
	fn len(&self) -> u64 { self.1.load(Relaxed) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode { Dfs, Bfs, Replay }

/// What a body sees of the explorer.
pub struct Cx<'a> {
	mode: Mode,
	prefix: &'a [u32],
	first_run: bool,
	fresh_from: usize,
	trail: Vec<(u32, u32)>,
	steps: usize,
	max_steps: usize,
	last_n: u32,
	state: Option<H>,
	seen: Option<&'a Seen>,
	known: &'a Known,
	pub log: Option<Vec<String>>,
	transitions: u64,
	evals: u64,
	diverged: Option<String>,
	/// Whether the tier is thorough.
	pub thorough: bool,
}

impl<'a> Cx<'a> {
	/// Choose one of `0..n`, exploring all of them.
	pub fn choose(&mut self, n: usize) -> usize {
		if n == 0 { self.diverged = Some("choice among nothing".into()); panic!("harness: choice among nothing") }
		if n == 1 { return 0 }
		let pos = self.trail.len();
		let c = if pos < self.prefix.len() { self.prefix[pos] } else { 0 };
		if c as usize >= n {
			self.diverged = Some(format!("choice {} of {} at position {}", c, n, pos));
			panic!("harness: replay diverged");
		}
		self.trail.push((c, n as u32));
		slot_put(4 + pos, c);
		slot_put(2, pos as u32 + 1);
		slot_put(3, pos as u32);
		BEAT.with(|b| { let b = *b.borrow(); if !b.is_null() { unsafe { (*b).fetch_add(1, Relaxed); } } });
		c as usize
	}
	/// Choose an element.
	pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.choose(v.len())].clone() }
	/// Next operation among `n`; `None` at the bound.
	pub fn step(&mut self, n: usize) -> Option<usize> {
		match self.mode {
			Mode::Bfs => if self.trail.len() >= self.prefix.len() {
				self.last_n = n as u32;
				return None
			},
			Mode::Dfs => if self.steps >= self.max_steps { return None },
			Mode::Replay => if self.trail.len() >= self.prefix.len() { return None },
		}
		if n == 0 { return None }
		self.steps += 1;
		if n == 1 {
			// recorded, so that every step has its place in a path
			let pos = self.trail.len();
			self.trail.push((0, 1));
			slot_put(4 + pos, 0);
			slot_put(2, pos as u32 + 1);
			return Some(0)
		}
		Some(self.choose(n))
	}
	/// Whether what happens now has not been executed by an earlier path.
	pub fn fresh(&self) -> bool {
		match self.mode {
			Mode::Replay => true,
			_ => if self.trail.is_empty() { self.first_run } else { self.trail.len() > self.fresh_from },
		}
	}
	/// Count a transition, and say whether it is to be checked.
	pub fn transition(&mut self) -> bool {
		let f = self.fresh();
		if f { self.transitions += 1; }
		f
	}
	pub fn eval(&mut self, n: u64) { self.evals += n; self.beat(); }
	pub fn beat(&self) {
		BEAT.with(|b| { let b = *b.borrow(); if !b.is_null() { unsafe { (*b).fetch_add(1, Relaxed); } } });
	}
	/// Report the state reached.
	pub fn state(&mut self, h: H) {
		self.state = Some(h);
		if self.mode == Mode::Dfs && self.fresh() { if let Some(s) = self.seen { s.insert(h); } }
	}
	/// Describe an operation (only evaluated when writing a trace).
	pub fn note(&mut self, f: impl FnOnce() -> String) {
		if let Some(l) = self.log.as_mut() { let s = f(); l.push(s) }
	}
	/// A deviation that is listed as a known finding; a failure if it is not listed.
	pub fn known(&mut self, property: &str, key: &str, what: impl FnOnce() -> String) -> Res {
		let id = format!("{}:{}", property, key);
		if !self.known.listed.contains_key(&id) { return Err(Fail(what())) }
		let mut hit = self.known.hit.lock().unwrap();
		*hit.entry(id).or_insert(0) += 1;
		Ok(())
	}
}

thread_local! { static BEAT: RefCell<*const AtomicU64> = RefCell::new(std::ptr::null()); }

/// Known findings as listed in the committed file.
pub struct Known {
	pub listed: BTreeMap<String, String>,
	pub hit: Mutex<BTreeMap<String, u64>>,
}

#[derive(Default, Clone)]
pub struct SubStats {
	pub name: String,
	pub search: &'static str,
	pub bound: String,
	pub executions: u64,
	pub transitions: u64,
	pub states: u64,
	pub evals: u64,
	pub max_depth: usize,
	pub complete: bool,
	pub wall: f64,
	pub sample: Vec<String>,
}

#[derive(Clone)]
pub struct Violation { pub sub: String, pub path: Vec<u32>, pub msg: String, pub log: Vec<String> }

pub struct Runner {
	pub property: String,
	pub thorough: bool,
	pub known: Known,
	pub stats: Vec<SubStats>,
	pub violation: Option<Violation>,
	pub replay: Option<(Result<usize, String>, Vec<u32>)>,
	pub replayed: bool,
	pub error: Option<String>,
	pub deadline: Instant,
	pub stall: Duration,
	pub on_stall: Box<dyn Fn(usize, Vec<u32>, u64) + Sync + Send>,
	pub filter: Option<String>,
}

struct Outcome { res: Result<(), Fail>, trail: Vec<(u32, u32)>, state: Option<H>, last_n: u32, transitions: u64, evals: u64, log: Vec<String>, diverged: Option<String> }

struct Lv { choice: u32, limit: u32, n: u32 }
struct Task { stack: Vec<Lv>, fresh_from: usize }

impl Runner {
	fn exec<F: Fn(&mut Cx) -> Res>(&self, f: &F, mode: Mode, prefix: &[u32], first_run: bool, fresh_from: usize, max_steps: usize, seen: Option<&Seen>, log: bool) -> Outcome {
		let mut cx = Cx {
			mode, prefix, first_run, fresh_from, trail: Vec::new(), steps: 0, max_steps, last_n: 0, state: None,
			seen, known: &self.known, log: if log { Some(Vec::new()) } else { None }, transitions: 0, evals: 0,
			diverged: None, thorough: self.thorough,
		};
		slot_put(2, 0);
		cx.beat();
		crate::hash::choose_construct(0);
		let res = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
		let res = match res {
			Ok(r) => r,
			Err(p) => Err(Fail(panic_text(p))),
		};
		let mut diverged = cx.diverged.take();
		if diverged.is_none() && res.is_ok() && cx.trail.len() < prefix.len() && mode != Mode::Replay {
			diverged = Some(format!("path of {} choices consumed {}", prefix.len(), cx.trail.len()));
		}
		Outcome { res, trail: cx.trail, state: cx.state, last_n: cx.last_n, transitions: cx.transitions, evals: cx.evals, log: cx.log.unwrap_or_default(), diverged }
	}

	fn skip(&self, name: &str) -> bool {
		self.violation.is_some() || self.error.is_some() ||
			self.filter.as_ref().map(|f| !name.contains(f.as_str())).unwrap_or(false)
	}

	/// Replays one path if this run is a replay. True if the sub-check is not to be explored.
	fn replaying<F: Fn(&mut Cx) -> Res>(&mut self, name: &str, mode: Mode, max_steps: usize, f: &F) -> bool {
		let (want, path) = match &self.replay { None => return false, Some(x) => x.clone() };
		let here = match &want { Ok(i) => *i == self.stats.len(), Err(s) => s == name };
		if here {
			self.replayed = true;
			let _ = mode;
			let o = self.exec(f, Mode::Replay, &path, true, 0, max_steps, None, true);
			for l in &o.log { println!("  {}", l); }
			if let Some(d) = o.diverged { self.error = Some(d); }
			else if let Err(Fail(msg)) = o.res {
				self.violation = Some(Violation { sub: name.into(), path: o.trail.iter().map(|t| t.0).collect(), msg, log: o.log });
			}
		}
		self.stats.push(SubStats { name: name.into(), ..Default::default() });
		true
	}

	fn workers<W: Fn(usize) + Sync>(&self, sub: usize, w: W) {
		let beats: Vec<AtomicU64> = (0..WORKERS).map(|_| AtomicU64::new(0)).collect();
		let busy: Vec<AtomicBool> = (0..WORKERS).map(|_| AtomicBool::new(true)).collect();
		let over = AtomicBool::new(false);
		let left = AtomicUsize::new(WORKERS);
		let base = SLOTS.load(SeqCst);
		std::thread::scope(|s| {
			for i in 0..WORKERS {
				let (beats, busy, over, left, w) = (&beats, &busy, &over, &left, &w);
				let base = base as usize;
				std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
					BEAT.with(|b| *b.borrow_mut() = &beats[i]);
					if base != 0 { SLOT_PTR.with(|p| *p.borrow_mut() = (base + i * SLOT) as *mut u8); }
					slot_put(1, sub as u32);
					slot_put(0, 1);
					w(i);
					slot_put(0, 0);
					busy[i].store(false, SeqCst);
					if left.fetch_sub(1, SeqCst) == 1 { over.store(true, SeqCst); }
				}).unwrap();
			}
			let (beats, busy, over, stall, on_stall) = (&beats, &busy, &over, self.stall, &self.on_stall);
			s.spawn(move || {
				let mut last = vec![(u64::MAX, Instant::now()); WORKERS];
				while !over.load(SeqCst) {
					std::thread::sleep(Duration::from_millis(5));
					for i in 0..WORKERS {
						let v = beats[i].load(Relaxed);
						if !busy[i].load(SeqCst) || v != last[i].0 || WAITING[i].load(SeqCst) { last[i] = (v, Instant::now()); continue }
						let t = last[i].1.elapsed();
						if t > stall {
							let path = if base_slots() != 0 {
								let p = (base_slots() + i * SLOT) as *const u32;
								unsafe { let n = std::ptr::read_volatile(p.add(2)) as usize; (0..n.min(SLOT / 4 - 4)).map(|k| std::ptr::read_volatile(p.add(4 + k))).collect() }
							} else { vec![] };
							on_stall(sub, path, t.as_secs());
						}
					}
				}
			});
		});
	}

	fn finish(&mut self, st: SubStats, vio: Option<Violation>, err: Option<String>) {
		if std::env::var("MC_VERBOSE").is_ok() {
			eprintln!("{:34} {:3} exec={} trans={} states={} evals={} depth={} complete={} {:.2}s", st.name, st.search, st.executions, st.transitions, st.states, st.evals, st.max_depth, st.complete, st.wall);
		}
		self.stats.push(st);
		if let Some(v) = vio { self.violation = Some(v); }
		if err.is_some() && self.violation.is_none() { self.error = err; }
	}

	/// Executes every path of the choice tree of `f` (up to `max_steps` steps).
	pub fn dfs<F: Fn(&mut Cx) -> Res + Sync>(&mut self, name: &str, max_steps: usize, f: F) {
		if self.replaying(name, Mode::Dfs, max_steps, &f) { return }
		if self.skip(name) { return }
		let start = Instant::now();
		let seen = Seen::new();
		struct Q { tasks: Vec<Task>, active: usize, stop: bool }
		let q = Mutex::new(Q { tasks: vec![Task { stack: vec![], fresh_from: 0 }], active: 0, stop: false });
		let cv = Condvar::new();
		let idle = AtomicUsize::new(0);
		let stop = AtomicBool::new(false);
		let capped = AtomicBool::new(false);
		let execs = AtomicU64::new(0);
		let trans = AtomicU64::new(0);
		let evals = AtomicU64::new(0);
		let depth = AtomicUsize::new(0);
		let fails: Mutex<Vec<(Vec<u32>, Fail)>> = Mutex::new(vec![]);
		let errs: Mutex<Option<String>> = Mutex::new(None);
		let sample: Mutex<Vec<u32>> = Mutex::new(vec![]);
		let first = AtomicBool::new(true);
		{
			let this = &*self;
			let work = |wid: usize| {
				'task: loop {
					let mut task = {
						let mut g = q.lock().unwrap();
						loop {
							if g.stop { break 'task }
							if let Some(t) = g.tasks.pop() { g.active += 1; break t }
							if g.active == 0 { g.stop = true; cv.notify_all(); break 'task }
							idle.fetch_add(1, SeqCst);
							WAITING[wid].store(true, SeqCst);
							g = cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
							WAITING[wid].store(false, SeqCst);
							idle.fetch_sub(1, SeqCst);
						}
					};
					let (mut le, mut lt, mut lev) = (0u64, 0u64, 0u64);
					let mut prefix: Vec<u32> = Vec::new();
					'run: loop {
						if stop.load(Relaxed) { break 'run }
						if le % 64 == 0 && Instant::now() > this.deadline { capped.store(true, SeqCst); stop.store(true, SeqCst); break 'run }
						prefix.clear();
						prefix.extend(task.stack.iter().map(|l| l.choice));
						let fr = first.swap(false, SeqCst);
						let o = this.exec(&f, Mode::Dfs, &prefix, fr, task.fresh_from, max_steps, Some(&seen), false);
						le += 1; lt += o.transitions; lev += o.evals;
						if o.trail.len() > depth.load(Relaxed) || (le & 0x3ff) == 0x200 {
							depth.fetch_max(o.trail.len(), Relaxed);
							*sample.lock().unwrap() = o.trail.iter().map(|t| t.0).collect();
						}
						if let Some(d) = o.diverged { *errs.lock().unwrap() = Some(d); stop.store(true, SeqCst); break 'run }
						if let Err(e) = o.res {
							fails.lock().unwrap().push((o.trail.iter().map(|t| t.0).collect(), e));
							stop.store(true, SeqCst);
							break 'run
						}
						for (i, (c, n)) in o.trail.iter().enumerate() {
							if i < task.stack.len() {
								if task.stack[i].n != *n {
									*errs.lock().unwrap() = Some(format!("number of choices changed at {}: {} -> {}", i, task.stack[i].n, n));
									stop.store(true, SeqCst);
									break 'run
								}
							} else { task.stack.push(Lv { choice: *c, limit: *n, n: *n }) }
						}
						// hand work to idle workers
						if idle.load(Relaxed) > 0 {
							if let Some(l) = task.stack.iter().position(|l| l.choice + 1 < l.limit) {
								let mut st: Vec<Lv> = task.stack[..l].iter().map(|x| Lv { choice: x.choice, limit: x.choice + 1, n: x.n }).collect();
								let x = &mut task.stack[l];
								let mid = x.choice + 1 + (x.limit - x.choice - 1) / 2;
								let mid = if mid >= x.limit { x.choice + 1 } else { mid };
								st.push(Lv { choice: mid, limit: x.limit, n: x.n });
								x.limit = mid;
								let mut g = q.lock().unwrap();
								g.tasks.push(Task { stack: st, fresh_from: l });
								cv.notify_one();
							}
						}
						loop {
							match task.stack.last_mut() {
								None => break 'run,
								Some(t) if t.choice + 1 < t.limit => {
									t.choice += 1;
									task.fresh_from = task.stack.len() - 1;
									continue 'run
								},
								_ => { task.stack.pop(); },
							}
						}
					}
					execs.fetch_add(le, Relaxed); trans.fetch_add(lt, Relaxed); evals.fetch_add(lev, Relaxed);
					let mut g = q.lock().unwrap();
					g.active -= 1;
					if stop.load(SeqCst) { g.stop = true; }
					if g.stop || (g.active == 0 && g.tasks.is_empty()) { g.stop = true; cv.notify_all(); break 'task }
				}
			};
			this.workers(this.stats.len(), work);
		}
		let vio = self.pick_violation(name, max_steps, &f, fails.into_inner().unwrap());
		let sp = sample.into_inner().unwrap();
		let s = if vio.is_none() { self.exec(&f, Mode::Replay, &sp, true, 0, max_steps, None, true).log } else { vec![] };
		let st = SubStats {
			name: name.into(), search: "dfs", bound: if max_steps == 0 { "all combinations of the body's choices".into() } else { format!("all paths of up to {} steps", max_steps) },
			executions: execs.load(SeqCst), transitions: trans.load(SeqCst), states: seen.len(), evals: evals.load(SeqCst), max_depth: depth.load(SeqCst),
			complete: !capped.load(SeqCst), wall: start.elapsed().as_secs_f64(), sample: s,
		};
		self.finish(st, vio, errs.into_inner().unwrap());
	}

	fn pick_violation<F: Fn(&mut Cx) -> Res>(&self, name: &str, max_steps: usize, f: &F, mut fails: Vec<(Vec<u32>, Fail)>) -> Option<Violation> {
		if fails.is_empty() { return None }
		fails.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
		let (path, fail) = fails.remove(0);
		let o = self.exec(f, Mode::Replay, &path, true, 0, max_steps, None, true);
		let mut log = o.log;
		let msg = match o.res {
			Err(Fail(m)) => m,
			Ok(()) => { log.push("(did not fail again when replayed: the code under test is not deterministic)".into()); fail.0 },
		};
		Some(Violation { sub: name.into(), path, msg, log })
	}

	/// Breadth-first search over steps, expanding each distinct state once.
	pub fn bfs<F: Fn(&mut Cx) -> Res + Sync>(&mut self, name: &str, max_depth: usize, f: F) {
		if self.replaying(name, Mode::Bfs, usize::MAX, &f) { return }
		if self.skip(name) { return }
		let start = Instant::now();
		let seen = Seen::new();
		let mut frontier: Vec<Box<[u32]>> = vec![Box::new([])];
		let mut st = SubStats { name: name.into(), search: "bfs", complete: true, ..Default::default() };
		let mut closed = false;
		let mut vio = None;
		let mut err = None;
		let mut sample: Vec<u32> = vec![];
		for level in 0..=max_depth {
			let next_i = AtomicUsize::new(0);
			let out: Mutex<Vec<Box<[u32]>>> = Mutex::new(vec![]);
			let fails: Mutex<Vec<(Vec<u32>, Fail)>> = Mutex::new(vec![]);
			let errs: Mutex<Option<String>> = Mutex::new(None);
			let stop = AtomicBool::new(false);
			let capped = AtomicBool::new(false);
			let execs = AtomicU64::new(0);
			let trans = AtomicU64::new(0);
			let evals = AtomicU64::new(0);
			{
				let this = &*self;
				let frontier = &frontier;
				let work = |_wid: usize| {
					let (mut le, mut lt, mut lev) = (0, 0, 0);
					let mut mine: Vec<Box<[u32]>> = vec![];
					'outer: loop {
						let i0 = next_i.fetch_add(16, Relaxed);
						if i0 >= frontier.len() { break }
						for i in i0..(i0 + 16).min(frontier.len()) {
							if stop.load(Relaxed) { break 'outer }
							let p = &frontier[i];
							let o = this.exec(&f, Mode::Bfs, p, level == 0, p.len().saturating_sub(1), usize::MAX, None, false);
							le += 1; lt += o.transitions; lev += o.evals;
							if let Some(d) = o.diverged { *errs.lock().unwrap() = Some(d); stop.store(true, SeqCst); break 'outer }
							if let Err(e) = o.res { fails.lock().unwrap().push((p.to_vec(), e)); continue }
							let h = o.state.unwrap_or(H(level as u64, i as u64));
							if seen.insert(h) && level < max_depth {
								for c in 0..o.last_n {
									let mut v = Vec::with_capacity(p.len() + 1);
									v.extend_from_slice(p);
									v.push(c);
									mine.push(v.into_boxed_slice());
								}
							}
						}
						if Instant::now() > this.deadline { capped.store(true, SeqCst); stop.store(true, SeqCst); }
					}
					execs.fetch_add(le, Relaxed); trans.fetch_add(lt, Relaxed); evals.fetch_add(lev, Relaxed);
					out.lock().unwrap().append(&mut mine);
				};
				this.workers(this.stats.len(), work);
			}
			st.executions += execs.load(SeqCst);
			st.transitions += trans.load(SeqCst);
			st.evals += evals.load(SeqCst);
			st.max_depth = level;
			if let Some(p) = frontier.get(frontier.len() * 2 / 3) { sample = p.to_vec(); }
			vio = self.pick_violation(name, usize::MAX, &f, fails.into_inner().unwrap());
			err = errs.into_inner().unwrap();
			if vio.is_some() || err.is_some() { break }
			if capped.load(SeqCst) { st.complete = false; break }
			frontier = out.into_inner().unwrap();
			if frontier.is_empty() { closed = level < max_depth; break }
		}
		st.states = seen.len();
		st.bound = if closed { "all reachable states (closure reached)".into() } else { format!("all states within {} steps", st.max_depth) };
		if vio.is_none() { st.sample = self.exec(&f, Mode::Replay, &sample, true, 0, usize::MAX, None, true).log; }
		st.wall = start.elapsed().as_secs_f64();
		self.finish(st, vio, err);
	}
}

fn base_slots() -> usize { SLOTS.load(SeqCst) as usize }
static WAITING: [AtomicBool; WORKERS] = [const { AtomicBool::new(false) }; WORKERS];
