mod exec;
mod expr;
mod ir;
mod native;
mod solver;
mod w256;
use std::process::Command;
use std::time::{Duration, Instant};
use w256::W;

fn arg(a: &[String], k: &str) -> Option<String> {
	a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
fn js(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
fn vals_str(v: &[(u32, W)]) -> String {
	v.iter().map(|(w, x)| format!("{}:{}", w, x.dec())).collect::<Vec<_>>().join(",")
}
fn parse_vals(s: &str) -> Vec<W> {
	s.trim().split(',').filter(|x| !x.is_empty()).map(|x| W::parse_dec(x.split(':').last().unwrap())).collect()
}
fn run_native(so: &str, h: &str, vals: &str, tag: &str) -> (i32, String) {
	let exe = std::env::current_exe().unwrap();
	let outp = format!("{}/symx-{}-{}.out", std::env::temp_dir().display(), std::process::id(), tag);
	let r = Command::new("timeout")
		.args(["20"])
		.arg(exe)
		.args(["replay", "--so", so, "--harness", h, "--vals", vals, "--out", &outp])
		.stderr(std::process::Stdio::null())
		.status();
	let o = std::fs::read_to_string(&outp).unwrap_or_default();
	let _ = std::fs::remove_file(&outp);
	(r.ok().and_then(|x| x.code()).unwrap_or(-1), o)
}
fn main() {
	// deep expression recursion
	let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
	let c = h.join().unwrap_or(99);
	std::process::exit(c);
}
fn real_main() -> i32 {
	let a: Vec<String> = std::env::args().collect();
	let so = arg(&a, "--so").unwrap_or_default();
	let h = arg(&a, "--harness").unwrap_or_default();
	if a.get(1).map(|x| x.as_str()) == Some("replay") {
		let mut v = arg(&a, "--vals").unwrap_or_default();
		if let Some(p) = v.strip_prefix('@') {
			v = std::fs::read_to_string(p).unwrap();
		}
		native::replay(&so, &h, parse_vals(&v), &arg(&a, "--out").unwrap_or("/dev/stdout".into()));
	}
	let ll = arg(&a, "--ll").expect("--ll");
	let t0 = Instant::now();
	let m = ir::Module::load(&ll);
	let mut x = exec::Exec::new(m);
	if let Some(t) = arg(&a, "--timeout") {
		x.deadline = Some(t0 + Duration::from_secs_f64(t.parse().unwrap()));
	}
	if let Some(t) = arg(&a, "--solver-ms") {
		x.s.timeout_ms = t.parse().unwrap();
	}
	if let Some(t) = arg(&a, "--mode") {
		x.s.force = match t.as_str() {
			"bv" => 1,
			"int" => 2,
			_ => 0,
		};
	}
	if let Some(t) = arg(&a, "--max-paths") {
		x.max_paths = t.parse().unwrap();
	}
	if let Some(v) = arg(&a, "--vals") {
		x.concrete = Some(parse_vals(&v));
	}
	if let Err(e) = x.start(&h) {
		eprintln!("{}", e);
		return 2;
	}
	x.run();
	let mut inconclusive: Vec<String> = x.st.errs.iter().map(|(k, v)| format!("{} x{}", k, v)).collect();
	// replay
	let mut viols = vec![];
	for v in &x.viol {
		let vs = vals_str(&v.nd);
		let mut ok = false;
		let mut got = String::new();
		if !so.is_empty() {
			let (c, o) = run_native(&so, &h, &vs, "v");
			ok = if v.what.starts_with("panic:") { c == 134 || c == -1 || (c != 0 && c != 3 && c != 9) } else { c == 3 && o.contains(&format!("FAIL {}", v.what)) };
			got = format!("exit {} {}", c, o.lines().last().unwrap_or(""));
		}
		viols.push((v.what.clone(), vs, ok, got));
	}
	// cross-check sampled passing paths against native execution
	let mut agreed = 0;
	let mut disagreed = vec![];
	if !so.is_empty() && x.viol.is_empty() {
		for (i, s) in x.samples.iter().enumerate() {
			let vs = vals_str(&s.nd);
			let (c, o) = run_native(&so, &h, &vs, &format!("s{}", i));
			let mut exp = String::new();
			for (t, w) in &s.log {
				exp.push_str(&format!("L {} {}\n", x.tags[*t as usize], w.dec()));
			}
			exp.push_str("DONE\n");
			if c == 0 && o == exp {
				agreed += 1;
			} else {
				disagreed.push(format!("vals {} native exit {} got {:?} expected {:?}", vs, c, o, exp));
			}
		}
		if !disagreed.is_empty() {
			inconclusive.push(format!("{} sampled paths disagree with native execution: {}", disagreed.len(), disagreed[0]));
		}
	}
	let status = if !viols.is_empty() {
		"violation"
	} else if !inconclusive.is_empty() {
		"inconclusive"
	} else {
		"ok"
	};
	let mp = |m: &std::collections::BTreeMap<String, u64>| {
		format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","))
	};
	let mut fl: Vec<&String> = x.st.funcs.iter().collect();
	fl.sort();
	let j = format!(
		"{{\"harness\":{},\"status\":{},\"paths\":{},\"cut\":{},\"panics\":{},\"errors\":{},\"forks\":{},\"steps\":{},\"queries\":{},\"int_queries\":{},\"unknown\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"replayed_paths\":{},\"checks\":{{{}}},\"reach\":{},\"violations\":[{}],\"inconclusive\":[{}],\"samples\":[{}],\"n_funcs\":{},\"ins\":{},\"funcs\":[{}]}}",
		js(&h), js(status), x.st.done, x.st.cut, mp(&x.st.panics), mp(&x.st.errs), x.st.forks, x.st.steps, x.s.n_queries, x.s.n_int, x.st.unknown,
		x.s.t_solve, t0.elapsed().as_secs_f64(), agreed,
		x.st.checks.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","),
		mp(&x.st.reach),
		viols.iter().map(|(w, v, ok, got)| format!("{{\"what\":{},\"vals\":{},\"reproduced\":{},\"native\":{}}}", js(w), js(v), ok, js(got))).collect::<Vec<_>>().join(","),
		inconclusive.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
		x.samples.iter().take(3).map(|s| js(&vals_str(&s.nd))).collect::<Vec<_>>().join(","),
		x.st.funcs.len(), x.st.ins,
		fl.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
	);
	match arg(&a, "--out") {
		Some(p) => std::fs::write(p, j).unwrap(),
		None => println!("{}", j),
	}
	match status {
		"ok" => 0,
		"violation" => 1,
		_ => 2,
	}
}
