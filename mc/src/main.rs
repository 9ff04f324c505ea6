//! Explicit-state and stateless model checking of the bm and bm-le crates.
//!
//! `mc <property> <quick|thorough>` explores, `mc replay <file>` replays one path.

#[macro_use]
mod engine;
mod hash;
mod raw;
mod coll;
mod gc;
mod le;
mod malformed;
mod derive;
mod store;
mod script;
mod wrap;
mod compact;
mod partial;
mod faults;
mod leak;
mod codec;

use engine::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn registry() -> Vec<(&'static str, fn(&mut Runner))> {
	vec![
		("C01", raw::c01 as fn(&mut Runner)),
		("C02", coll::c02),
		("C03", coll::c03),
		("C04", coll::c04),
		("C05", coll::c05),
		("C06", coll::c06),
		("C07", gc::c07),
		("C08", gc::c08),
		("C09", store::c09),
		("C10", le::c10),
		("C11", le::c11),
		("C12", derive::c12),
		("C13", wrap::c13),
		("C14", malformed::c14),
		("C15", wrap::c15),
		("C16", compact::c16),
		("C17", raw::c17),
		("C18", partial::c18),
		("C19", faults::c19),
		("C20", leak::c20),
		("C21", codec::c21),
	]
}

fn home() -> PathBuf { std::env::var("MC_HOME").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif")) }

fn load_known(property: &str) -> BTreeMap<String, String> {
	let mut out = BTreeMap::new();
	if let Ok(s) = std::fs::read_to_string(home().join("known_findings.txt")) {
		for l in s.lines() {
			// known: property=<id> key=<key> <what fails>
			if let Some(rest) = l.strip_prefix("known: property=") {
				let mut it = rest.splitn(3, ' ');
				let (p, k, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
				if let (true, Some(k)) = (p == property, k.strip_prefix("key=")) {
					out.insert(format!("{}:{}", p, k), w.to_string());
				}
			}
		}
	}
	out
}

fn esc(s: &str) -> String { serde_json::to_string(s).unwrap() }

fn write_replay(property: &str, tier: &str, sub: &str, path: &[u32], msg: &str, log: &[String]) -> String {
	let dir = home().join("work/replay");
	let _ = std::fs::create_dir_all(&dir);
	let file = dir.join(format!("{}.txt", property));
	let mut s = String::new();
	s += &format!("property: {}\ntier: {}\nsub: {}\npath: {}\n", property, tier, sub, path.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
	s += &format!("failure: {}\nreplay with: mc replay <this file>\noperations:\n", msg.replace('\n', " "));
	for l in log { s += &format!("  {}\n", l); }
	let _ = std::fs::write(&file, s);
	file.display().to_string()
}

fn write_evidence(property: &str, tier: &str, r: Option<&Runner>, wall: f64, violations: usize, note: &str) {
	let dir = home().join("evidence");
	let _ = std::fs::create_dir_all(&dir);
	let empty = vec![];
	let stats = r.map(|r| &r.stats).unwrap_or(&empty);
	let sum = |f: &dyn Fn(&SubStats) -> u64| stats.iter().map(|s| f(s)).sum::<u64>();
	let mut samples = vec![];
	for s in stats {
		if s.sample.is_empty() { continue }
		let mut l = s.sample.clone();
		if l.len() > 24 { let k = l.len(); l.truncate(24); l.push(format!("... {} more", k - 24)); }
		samples.push(format!("{{\"check\":{},\"trace\":[{}]}}", esc(&s.name), l.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")));
	}
	let subs = stats.iter().map(|s| format!(
		"{{\"name\":{},\"search\":{},\"bound\":{},\"complete\":{},\"executions\":{},\"transitions\":{},\"states\":{},\"comparisons\":{},\"max_depth\":{},\"wall_s\":{:.3}}}",
		esc(&s.name), esc(s.search), esc(&s.bound), s.complete, s.executions, s.transitions, s.states, s.evals, s.max_depth, s.wall)).collect::<Vec<_>>().join(",\n   ");
	let known = r.map(|r| r.known.hit.lock().unwrap().iter().map(|(k, n)| format!("{{\"finding\":{},\"paths\":{}}}", esc(k), n)).collect::<Vec<_>>().join(",")).unwrap_or_default();
	let exhaustive = violations == 0 && !stats.is_empty() && stats.iter().all(|s| s.complete);
	let out = format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"comparisons\": {},\n  \"exhaustive\": {},\n  \"explanation\": {},\n  \"searches\": [\n   {}\n  ],\n  \"known_findings_met\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"bounds as stated per search\", \"state hashes of 128 bits do not collide\", \"the reference models and the hand-written ssz oracle in mc/src are right\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
		esc(property), esc(tier), std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
		sum(&|s| s.states), sum(&|s| s.transitions), sum(&|s| s.executions), sum(&|s| s.evals), exhaustive,
		esc(&format!("Every path is an execution of the real code, compared with a reference model at every new step. states: distinct observed states; transitions: operations executed and checked for the first time; traces: complete executions; evaluations: comparisons with the model. {}", note)),
		subs, known, samples.join(",\n   "), wall, violations);
	let _ = std::fs::write(dir.join(format!("{}.json", property)), out);
}

fn runner(property: &str, tier: &str) -> Runner {
	let (p, t) = (property.to_string(), tier.to_string());
	let thorough = tier == "thorough";
	Runner {
		property: property.into(), thorough,
		known: Known { listed: load_known(property), hit: Mutex::new(BTreeMap::new()) },
		stats: vec![], violation: None, replay: None, replayed: false, error: None,
		deadline: Instant::now() + Duration::from_secs(if thorough { 3300 } else { 600 }),
		stall: Duration::from_secs(std::env::var("MC_STALL").ok().and_then(|s| s.parse().ok()).unwrap_or(90)),
		on_stall: Box::new(move |sub, path, secs| {
			let f = write_replay(&p, &t, &format!("#{}", sub), &path, &format!("no progress for {} s", secs), &[]);
			write_evidence(&p, &t, None, secs as f64, 1, "Stopped at a path that does not end.");
			println!("VIOLATION property={} replay={}", p, f);
			println!("  an operation did not finish within {} s", secs);
			std::process::exit(1);
		}),
		filter: std::env::var("MC_ONLY").ok(),
	}
}

fn explore(property: &str, tier: &str) -> i32 {
	let f = match registry().into_iter().find(|x| x.0 == property) { Some(x) => x.1, None => { eprintln!("unknown property {}", property); return 2 } };
	let start = Instant::now();
	let mut r = runner(property, tier);
	f(&mut r);
	let wall = start.elapsed().as_secs_f64();
	write_evidence(property, tier, Some(&r), wall, r.violation.is_some() as usize, "");
	let sum = |g: &dyn Fn(&SubStats) -> u64| r.stats.iter().map(|s| g(s)).sum::<u64>();
	println!("{} {}: {} searches, {} states, {} transitions, {} executions, {} comparisons, {:.1} s", property, tier, r.stats.len(), sum(&|s| s.states), sum(&|s| s.transitions), sum(&|s| s.executions), sum(&|s| s.evals), wall);
	if let Some(v) = &r.violation {
		let file = write_replay(property, tier, &v.sub, &v.path, &v.msg, &v.log);
		println!("VIOLATION property={} replay={}", property, file);
		println!("  {}: {}", v.sub, v.msg);
		return 1
	}
	if let Some(e) = &r.error { eprintln!("error: {}", e); return 2 }
	for s in &r.stats { if !s.complete { println!("not completed within the time cap: {}", s.name); } }
	for (k, n) in r.known.hit.lock().unwrap().iter() {
		println!("KNOWN-FINDING: property={} {} ({} paths)", property, r.known.listed[k], n);
	}
	0
}

fn replay_path(property: &str, tier: &str, sub: Result<usize, String>, path: Vec<u32>) -> i32 {
	let f = match registry().into_iter().find(|x| x.0 == property) { Some(x) => x.1, None => return 2 };
	let mut r = runner(property, tier);
	r.replay = Some((sub, path));
	f(&mut r);
	if !r.replayed { eprintln!("no such search"); return 2 }
	if let Some(e) = r.error { eprintln!("error: {}", e); return 2 }
	match r.violation {
		Some(v) => { println!("fails: {}: {}", v.sub, v.msg); 1 },
		None => { println!("holds on this path"); 0 },
	}
}

fn parse_path(s: &str) -> Vec<u32> { s.split_whitespace().filter_map(|x| x.parse().ok()).collect() }
fn parse_sub(s: &str) -> Result<usize, String> { match s.strip_prefix('#') { Some(n) => n.parse().map_err(|_| s.to_string()), None => Err(s.to_string()) } }

fn wait_timeout(c: &mut std::process::Child, secs: u64) -> Option<std::process::ExitStatus> {
	let start = Instant::now();
	loop {
		if let Ok(Some(s)) = c.try_wait() { return Some(s) }
		if start.elapsed().as_secs() > secs { let _ = c.kill(); let _ = c.wait(); return None }
		std::thread::sleep(Duration::from_millis(20));
	}
}

/// Runs the exploration in a child process, so that a path which brings the
/// process down (stack overflow, memory exhaustion, abort) is still reported.
fn supervise(property: &str, tier: &str) -> i32 {
	let start = Instant::now();
	let exe = std::env::current_exe().unwrap();
	let dir = home().join("work/slots");
	let _ = std::fs::create_dir_all(&dir);
	let slots = dir.join(format!("{}.{}", property, std::process::id()));
	let status = Command::new(&exe).args(&[property, tier]).env("MC_CHILD", &slots).status();
	let code = status.ok().and_then(|s| s.code());
	let res = match code {
		Some(c) if c == 0 || c == 1 || c == 2 => c,
		_ => {
			let mut res = 2;
			for (sub, path) in read_slots(slots.to_str().unwrap()) {
				let ps = path.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ");
				let mut c = match Command::new(&exe).args(&["path", property, tier, &format!("#{}", sub), &ps]).env("MC_CHILD", "-").stdout(Stdio::null()).stderr(Stdio::null()).spawn() { Ok(c) => c, Err(_) => continue };
				let st = wait_timeout(&mut c, 120);
				let bad = match st { None => Some("does not end"), Some(s) => match s.code() { Some(0) | Some(2) => None, Some(1) => Some("fails"), _ => Some("brings the process down (stack or memory exhausted, or aborted)") } };
				if let Some(b) = bad {
					let f = write_replay(property, tier, &format!("#{}", sub), &path, &format!("the path {}", b), &[]);
					write_evidence(property, tier, None, start.elapsed().as_secs_f64(), 1, "Stopped at a path that brings the process down.");
					println!("VIOLATION property={} replay={}", property, f);
					println!("  this path {}", b);
					res = 1;
					break
				}
			}
			if res == 2 { eprintln!("the exploring process ended abnormally ({:?}) and no path reproduces it", code); }
			res
		},
	};
	let _ = std::fs::remove_file(&slots);
	res
}

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
	let tier_of = |s: &str| -> String { if s.is_empty() { std::env::var("VERIF_TIER").unwrap_or("quick".into()) } else { s.into() } };
	let child = std::env::var("MC_CHILD").ok();
	let code = match a(0) {
		"" => { for (n, _) in registry() { println!("{}", n); } 2 },
		"list" => { for (n, _) in registry() { println!("{}", n); } 0 },
		"path" => { install_panic_hook(); limit_memory(8 << 30); run_big(|| replay_path(a(1), a(2), parse_sub(a(3)), parse_path(a(4)))) },
		"replay" => {
			install_panic_hook();
			let s = std::fs::read_to_string(Path::new(a(1))).unwrap_or_default();
			let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
			run_big(|| replay_path(&get("property:"), &get("tier:"), parse_sub(&get("sub:")), parse_path(&get("path:"))))
		},
		p => match child {
			Some(c) => { install_panic_hook(); limit_memory(24 << 30); map_slots(&c); explore(p, &tier_of(a(1))) },
			None => supervise(p, &tier_of(a(1))),
		},
	};
	std::process::exit(code);
}

fn run_big(f: impl FnOnce() -> i32 + Send) -> i32 {
	std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap().join().unwrap_or(2))
}
