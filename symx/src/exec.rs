//! Path-forking symbolic executor over LLVM IR with byte-precise memory.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use crate::w256::W;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq)]
pub struct Cell {
	e: E,
	k: u8,
}
const UNDEF: Cell = Cell { e: u32::MAX, k: 0 };
#[derive(Clone)]
pub struct Obj {
	cells: Vec<Cell>,
}
const HEAP0: u32 = 1 << 20;
const PG: usize = 64;
type Page = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
struct Frame {
	f: Rc<Func>,
	blk: u32,
	ip: u32,
	regs: Vec<Val>,
	allocas: Vec<u32>,
	dst: Option<u32>,
	normal: Option<u32>,
}
#[derive(Clone)]
pub struct State {
	frames: Vec<Frame>,
	pages: Vec<Rc<Page>>,
	nobj: u32,
	gl: HashMap<u32, Rc<Obj>>,
	pub pc: Vec<E>,
	pub model: Rc<Model>,
	pub nd: Vec<E>,
	pub log: Vec<(u32, E)>,
	conc: Vec<(E, W)>,
	steps: u64,
	panic_ok: bool,
	/// the model is not known to satisfy the path condition (a branch was left undecided)
	maybe: bool,
}
pub enum End {
	Done,
	Panic(String),
	Cut,
	Err(String),
}
enum Stop {
	End(End),
	Fork, // state replaced by pushed forks
}
type R<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> R<T> {
	Err(Stop::End(End::Err(s.into())))
}
#[derive(Default)]
pub struct Stats {
	pub done: u64,
	pub panics: BTreeMap<String, u64>,
	pub cut: u64,
	pub errs: BTreeMap<String, u64>,
	pub forks: u64,
	pub steps: u64,
	pub checks: BTreeMap<String, (u64, u64)>, // (evaluated, needing solver)
	pub reach: BTreeMap<String, u64>,
	pub unknown: u64,
	pub funcs: HashSet<String>,
	pub ins: u64,
}
pub struct Violation {
	pub what: String,
	pub nd: Vec<(u32, W)>,
}
pub struct Sample {
	pub nd: Vec<(u32, W)>,
	pub log: Vec<(u32, W)>,
}
pub struct Exec {
	pub m: Module,
	pub s: Solver,
	pub work: Vec<State>,
	pub st: Stats,
	pub viol: Vec<Violation>,
	pub samples: Vec<Sample>,
	pub tags: Vec<String>,
	ginit: HashMap<u32, Rc<Obj>>,
	pub max_steps: u64,
	pub max_paths: u64,
	pub deadline: Option<Instant>,
	pub sample_cap: usize,
	pub concrete: Option<Vec<W>>,
	stubs: Vec<(String, String)>,
}
fn as_e(v: &Val, w: u32) -> E {
	match v {
		Val::E(e) => *e,
		Val::Undef => konst(w, W::ZERO),
		Val::Agg(_) => panic!("agg as scalar"),
	}
}
impl Exec {
	pub fn new(m: Module) -> Exec {
		Exec {
			m,
			s: Solver::new(),
			work: vec![],
			st: Stats::default(),
			viol: vec![],
			samples: vec![],
			tags: vec![],
			ginit: HashMap::new(),
			max_steps: 50_000_000,
			max_paths: 5_000_000,
			deadline: None,
			sample_cap: 40,
			concrete: None,
			stubs: vec![],
		}
	}
	fn tag(&mut self, s: &str) -> u32 {
		if let Some(k) = self.tags.iter().position(|x| x == s) {
			return k as u32;
		}
		self.tags.push(s.to_string());
		self.tags.len() as u32 - 1
	}
	pub fn start(&mut self, name: &str) -> Result<(), String> {
		let f = self.m.func(name).ok_or_else(|| format!("no function {}", name))?;
		let regs = vec![Val::Undef; f.nregs as usize];
		self.st.funcs.insert(name.into());
		self.work.push(State {
			frames: vec![Frame { f, blk: 0, ip: 0, regs, allocas: vec![], dst: None, normal: None }],
			pages: vec![],
			nobj: 0,
			gl: HashMap::new(),
			pc: vec![],
			model: Rc::new(Model::new()),
			nd: vec![],
			log: vec![],
			conc: vec![],
			steps: 0,
			panic_ok: false,
			maybe: false,
		});
		Ok(())
	}
	fn ndvals(st: &State, m: &Model) -> Vec<(u32, W)> {
		st.nd.iter().map(|e| (width(*e), eval(*e, m))).collect()
	}
	pub fn run(&mut self) {
		let mut paths = 0u64;
		while let Some(mut s) = self.work.pop() {
			if let Some(d) = self.deadline {
				if Instant::now() > d {
					*self.st.errs.entry("deadline".into()).or_default() += 1;
					break;
				}
			}
			let end = loop {
				match self.step(&mut s) {
					Ok(()) => {},
					Err(Stop::End(e)) => break Some(e),
					Err(Stop::Fork) => break None,
				}
				if s.steps > self.max_steps {
					break Some(End::Err("step limit".into()));
				}
				if s.steps & 0xffff == 0 {
					if let Some(d) = self.deadline {
						if Instant::now() > d {
							break Some(End::Err("deadline".into()));
						}
					}
				}
			};
			self.st.steps += s.steps;
			s.steps = 0;
			let end = match end {
				Some(End::Panic(n)) if s.maybe && !s.panic_ok => match self.confirm(&s, tru()) {
					Ok(Some(m)) => {
						s.model = m;
						Some(End::Panic(n))
					},
					Ok(None) => Some(End::Cut),
					Err(()) => Some(End::Err(format!("undecided panic {}", n))),
				},
				Some(End::Err(n)) if s.maybe => match self.confirm(&s, tru()) {
					Ok(None) => Some(End::Cut),
					_ => Some(End::Err(n)),
				},
				e => e,
			};
			match end {
				None => continue,
				Some(End::Done) => {
					self.st.done += 1;
					self.sample(&s);
				},
				Some(End::Cut) => self.st.cut += 1,
				Some(End::Panic(n)) => {
					*self.st.panics.entry(n.clone()).or_default() += 1;
					if !s.panic_ok {
						let nd = Self::ndvals(&s, &s.model);
						self.viol.push(Violation { what: format!("panic:{}", n), nd });
					}
				},
				Some(End::Err(e)) => {
					if std::env::var("SYMX_V").is_ok() {
						eprintln!("ERR {}", e);
						for f in s.frames.iter().rev().take(12) {
							eprintln!("   at {} blk{} ip{}", f.f.name, f.blk, f.ip);
						}
						for p in s.pc.iter().take(40) {
							eprintln!("   pc {}", show(*p));
						}
					}
					*self.st.errs.entry(e).or_default() += 1;
				},
			}
			paths += 1;
			if paths >= self.max_paths {
				*self.st.errs.entry("path limit".into()).or_default() += 1;
				break;
			}
			if self.viol.len() >= 3 {
				break;
			}
			if self.st.errs.values().sum::<u64>() > 50 {
				break;
			}
		}
	}
	fn sample(&mut self, s: &State) {
		let n = self.st.done;
		// deterministic thinning: keep the first 16, then powers-of-two spaced ones
		if !s.maybe && self.samples.len() < self.sample_cap && (n <= 16 || n % (1 << ((n as f64).log2() as u64 / 2)) == 0) {
			let nd = Self::ndvals(s, &s.model);
			let log = s.log.iter().map(|(t, e)| (*t, eval(*e, &s.model))).collect();
			self.samples.push(Sample { nd, log });
		}
	}
	// ---------- path conditions ----------
	fn slice(&self, s: &State, c: E) -> Vec<E> {
		let mut vs: HashSet<u32> = vars_of(c).iter().copied().collect();
		let pcv: Vec<Rc<Vec<u32>>> = s.pc.iter().map(|p| vars_of(*p)).collect();
		let mut used = vec![false; s.pc.len()];
		loop {
			let mut ch = false;
			for i in 0..s.pc.len() {
				if !used[i] && pcv[i].iter().any(|v| vs.contains(v)) {
					used[i] = true;
					ch = true;
					vs.extend(pcv[i].iter().copied());
				}
			}
			if !ch {
				break;
			}
		}
		let mut out: Vec<E> = (0..s.pc.len()).filter(|i| used[*i]).map(|i| s.pc[i]).collect();
		out.push(c);
		out
	}
	/// Some(model) if pc & c satisfiable
	fn sat(&mut self, s: &State, c: E) -> Result<Option<Rc<Model>>, ()> {
		if let Some(k) = is_const(c) {
			return Ok(if k.is_zero() { None } else { Some(s.model.clone()) });
		}
		if !s.maybe && !eval(c, &s.model).is_zero() {
			return Ok(Some(s.model.clone()));
		}
		if s.pc.contains(&not(c)) {
			return Ok(None);
		}
		let q = self.slice(s, c);
		let hard = self.s.is_hard(&q);
		if hard {
			if let Some(m) = probe(&q, &s.model) {
				return Ok(Some(Rc::new(m)));
			}
		}
		match self.s.check(&q) {
			Res::Sat(m) => {
				let mut n = (*s.model).clone();
				n.extend(m);
				Ok(Some(Rc::new(n)))
			},
			Res::Unsat => Ok(None),
			Res::Unknown => {
				self.st.unknown += 1;
				Err(())
			},
		}
	}
	/// Like `sat`, but the model returned satisfies the whole path condition.
	fn confirm(&mut self, s: &State, c: E) -> Result<Option<Rc<Model>>, ()> {
		if !s.maybe {
			return self.sat(s, c);
		}
		let mut q = s.pc.clone();
		if is_const(c).map_or(false, |k| k.is_zero()) {
			return Ok(None);
		}
		// the slice alone may already be infeasible
		if let Ok(None) = self.sat(s, c) {
			return Ok(None);
		}
		if is_const(c).is_none() {
			q.push(c);
		}
		if let Some(m) = probe(&q, &s.model) {
			return Ok(Some(Rc::new(m)));
		}
		match self.s.check(&q) {
			Res::Sat(m) => {
				let mut n = (*s.model).clone();
				n.extend(m);
				Ok(Some(Rc::new(n)))
			},
			Res::Unsat => Ok(None),
			Res::Unknown => {
				self.st.unknown += 1;
				Err(())
			},
		}
	}
	fn assume(&mut self, s: &mut State, c: E, m: Rc<Model>) {
		// split conjunctions so that slices stay small
		let mut st = vec![c];
		while let Some(x) = st.pop() {
			if is_const(x).is_some() {
				continue;
			}
			let n = nd(x);
			if n.op == Op::And && n.w == 1 {
				st.push(n.a);
				st.push(n.b);
				continue;
			}
			if n.op == Op::Eq {
				if let Some(k) = is_const(n.b) {
					s.conc.push((n.a, k));
				}
			}
			if !s.pc.contains(&x) {
				s.pc.push(x);
			}
		}
		s.model = m;
		if s.maybe && s.pc.iter().all(|x| !eval(*x, &s.model).is_zero()) {
			s.maybe = false;
		}
	}
	/// Decide a branch; the state continues on the returned side, the other side is queued.
	fn branch(&mut self, s: &mut State, c: E, other: impl FnOnce(&mut Self, &mut State) -> R<()>) -> R<bool> {
		if let Some(k) = is_const(c) {
			return Ok(!k.is_zero());
		}
		if s.maybe {
			// neither side is known to be feasible
			let t = self.sat(s, c);
			let f = self.sat(s, not(c));
			let side = |r: &Result<Option<Rc<Model>>, ()>, s: &State| match r {
				Ok(Some(m)) => Some(m.clone()),
				Ok(None) => None,
				Err(()) => Some(s.model.clone()),
			};
			return match (side(&t, s), side(&f, s)) {
				(None, None) => Err(Stop::End(End::Cut)),
				(Some(m), None) => {
					self.assume(s, c, m);
					Ok(true)
				},
				(None, Some(m)) => {
					self.assume(s, not(c), m);
					Ok(false)
				},
				(Some(mt), Some(mf)) => {
					self.st.forks += 1;
					let mut o = s.clone();
					o.steps = 0;
					self.assume(&mut o, not(c), mf);
					other(self, &mut o)?;
					self.work.push(o);
					self.assume(s, c, mt);
					Ok(true)
				},
			};
		}
		let cur = !eval(c, &s.model).is_zero();
		let oc = if cur { not(c) } else { c };
		match self.sat(s, oc) {
			Ok(Some(m)) => {
				self.st.forks += 1;
				let mut o = s.clone();
				o.steps = 0;
				self.assume(&mut o, oc, m);
				other(self, &mut o)?;
				self.work.push(o);
				let m = s.model.clone();
				self.assume(s, not(oc), m);
			},
			Ok(None) => {},
			Err(()) => {
				// undecided: explore the side too (over-approximation)
				self.st.forks += 1;
				let mut o = s.clone();
				o.steps = 0;
				o.maybe = true;
				let m = s.model.clone();
				self.assume(&mut o, oc, m);
				other(self, &mut o)?;
				self.work.push(o);
				let m = s.model.clone();
				self.assume(s, not(oc), m);
			},
		}
		Ok(cur)
	}
	/// Force an expression to a concrete value, forking over all feasible values.
	fn concretize(&mut self, s: &mut State, e: E, cap: usize) -> R<W> {
		if let Some(k) = is_const(e) {
			return Ok(k);
		}
		if let Some((_, k)) = s.conc.iter().find(|x| x.0 == e) {
			return Ok(*k);
		}
		let w = width(e);
		let mut vals = vec![];
		let mut c = tru();
		let mut excl = s.clone();
		loop {
			let v = eval(e, &excl.model);
			vals.push((v, excl.model.clone()));
			c = and(c, ne(e, konst(w, v)));
			match self.sat(s, c) {
				Ok(Some(m)) => excl.model = m,
				Ok(None) => break,
				Err(()) => return err("solver unknown at concretize"),
			}
			if vals.len() > cap {
				return err(format!("too many values for {} ({} values)", show(e), vals.len()));
			}
		}
		for (v, m) in vals.iter().skip(1) {
			let mut o = s.clone();
			o.steps = 0;
			self.assume(&mut o, eq(e, konst(w, *v)), m.clone());
			o.conc.push((e, *v));
			self.st.forks += 1;
			self.work.push(o);
		}
		let (v, m) = vals[0].clone();
		if vals.len() > 1 {
			self.assume(s, eq(e, konst(w, v)), m);
		}
		s.conc.push((e, v));
		Ok(v)
	}
	// ---------- memory ----------
	fn alloc(&mut self, s: &mut State, n: u64, fill: Option<Cell>) -> u64 {
		let id = s.nobj;
		s.nobj += 1;
		let (p, i) = (id as usize / PG, id as usize % PG);
		if p >= s.pages.len() {
			s.pages.push(Rc::new(vec![None; PG]));
		}
		let o = Obj { cells: vec![fill.unwrap_or(UNDEF); n as usize] };
		Rc::make_mut(&mut s.pages[p])[i] = Some(Rc::new(o));
		obj_base(HEAP0 + id)
	}
	fn free(&mut self, s: &mut State, addr: u64) {
		let id = ((addr >> OBJ_SHIFT) as u32).wrapping_sub(1);
		if id >= HEAP0 {
			let k = (id - HEAP0) as usize;
			if k / PG < s.pages.len() {
				Rc::make_mut(&mut s.pages[k / PG])[k % PG] = None;
			}
		}
	}
	fn gobj(&mut self, id: u32) -> Result<Rc<Obj>, String> {
		if let Some(o) = self.ginit.get(&id) {
			return Ok(o.clone());
		}
		let name = self.m.g_names.get(id as usize).cloned().ok_or("bad global id")?;
		let (t, v, _c) = self.m.global(&name);
		let mut cells = vec![Cell { e: 0, k: 0 }; t.size() as usize];
		Self::lay(&t, &v, &mut cells, 0);
		let o = Rc::new(Obj { cells });
		self.ginit.insert(id, o.clone());
		Ok(o)
	}
	fn lay(t: &Ty, v: &Val, c: &mut Vec<Cell>, off: usize) {
		match v {
			Val::Undef => {},
			Val::E(e) => {
				let n = t.store_size() as usize;
				Self::put(c, off, *e, n);
			},
			Val::Agg(a) => {
				for (i, x) in a.iter().enumerate() {
					Self::lay(&t.field(i), x, c, off + t.field_off(i) as usize);
				}
			},
		}
	}
	fn put(c: &mut [Cell], off: usize, e: E, n: usize) {
		let w = width(e);
		let e = if (w as usize) < n * 8 { zext(e, n as u32 * 8) } else { e };
		if let Some(k) = is_const(e) {
			for i in 0..n {
				c[off + i] = Cell { e: byte_const((k.shr(8 * i as u32).lo & 0xff) as u8), k: 0 };
			}
		} else {
			// store parts of a concat separately so that partial loads stay simple
			let node = nd(e);
			if node.op == Op::Concat && width(node.b) % 8 == 0 && n > 1 {
				let bn = width(node.b) as usize / 8;
				Self::put(c, off, node.b, bn);
				Self::put(c, off + bn, node.a, n - bn);
				return;
			}
			for i in 0..n {
				c[off + i] = Cell { e, k: i as u8 };
			}
		}
	}
	fn get(c: &[Cell], off: usize, n: usize) -> E {
		// runs from high to low
		let mut acc: Option<E> = None;
		let mut i = n;
		while i > 0 {
			let hi = c[off + i - 1];
			let (part, len);
			if hi.e == u32::MAX {
				part = byte_const(0);
				len = 1;
			} else if hi.e < 256 {
				// run of constants
				let mut k = W::from(nd(hi.e).lo.lo);
				let mut l = 1;
				while l < i && l < 32 {
					let x = c[off + i - 1 - l];
					if x.e >= 256 && x.e != u32::MAX {
						break;
					}
					let b = if x.e == u32::MAX { 0 } else { nd(x.e).lo.lo };
					k = k.shl(8).or(W::from(b));
					l += 1;
				}
				part = konst(8 * l as u32, k);
				len = l;
			} else {
				let mut l = 1;
				while l < i && (hi.k as usize) >= l {
					let x = c[off + i - 1 - l];
					if x.e != hi.e || x.k as usize + l != hi.k as usize {
						break;
					}
					l += 1;
				}
				let lo = (hi.k as usize + 1 - l) as u32 * 8;
				part = extract(hi.e, hi.k as u32 * 8 + 7, lo);
				len = l;
			}
			acc = Some(match acc {
				None => part,
				Some(a) => concat(a, part),
			});
			i -= len;
		}
		acc.unwrap()
	}
	fn obj(&mut self, s: &State, addr: u64, n: u64) -> R<(Rc<Obj>, usize)> {
		let id = ((addr >> OBJ_SHIFT) as u32).wrapping_sub(1);
		let off = addr & 0xffff_ffff;
		let o = if id >= HEAP0 && id < HEAP0 + s.nobj {
			let k = (id - HEAP0) as usize;
			match &s.pages[k / PG][k % PG] {
				Some(o) => o.clone(),
				None => return err(format!("use of freed object {:x}", addr)),
			}
		} else if id < HEAP0 && (id as usize) < self.m.g_names.len() {
			match s.gl.get(&id) {
				Some(o) => o.clone(),
				None => match self.gobj(id) {
					Ok(o) => o,
					Err(e) => return err(e),
				},
			}
		} else {
			return err(format!("bad pointer {:x}", addr));
		};
		if off + n > o.cells.len() as u64 {
			return err(format!("out of bounds {:x} +{} of {}", addr, n, o.cells.len()));
		}
		Ok((o, off as usize))
	}
	fn obj_mut<'a>(&mut self, s: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
		let (o, off) = self.obj(s, addr, n)?;
		let id = ((addr >> OBJ_SHIFT) as u32).wrapping_sub(1);
		if id >= HEAP0 {
			drop(o);
			let k = (id - HEAP0) as usize;
			let pg = Rc::make_mut(&mut s.pages[k / PG]);
			Ok((Rc::make_mut(pg[k % PG].as_mut().unwrap()), off))
		} else {
			let r = s.gl.entry(id).or_insert(o);
			Ok((Rc::make_mut(r), off))
		}
	}
	fn ptr(&mut self, s: &mut State, e: E) -> R<u64> {
		Ok(self.concretize(s, e, 300)?.lo as u64)
	}
	pub fn read(&mut self, s: &State, addr: u64, n: u64) -> R<E> {
		let (o, off) = self.obj(s, addr, n)?;
		Ok(Self::get(&o.cells, off, n as usize))
	}
	pub fn write(&mut self, s: &mut State, addr: u64, e: E, n: u64) -> R<()> {
		let (o, off) = self.obj_mut(s, addr, n)?;
		Self::put(&mut o.cells, off, e, n as usize);
		Ok(())
	}
	fn load_ty(&mut self, s: &mut State, pe: E, t: &Ty) -> R<Val> {
		if t.is_agg() {
			let p = self.ptr(s, pe)?;
			return self.load_agg(s, p, t);
		}
		let n = t.store_size();
		if n == 0 {
			return Ok(Val::Undef);
		}
		let w = t.bits();
		if is_const(pe).is_none() && !s.conc.iter().any(|x| x.0 == pe) {
			// symbolic address: build an if-then-else over the feasible addresses (read only, no fork)
			let mut vals = vec![];
			let mut c = tru();
			let mut model = s.model.clone();
			loop {
				let v = eval(pe, &model);
				vals.push(v);
				c = and(c, ne(pe, konst(64, v)));
				match self.sat(s, c) {
					Ok(Some(m)) => model = m,
					Ok(None) => break,
					Err(()) => return err("solver unknown at address"),
				}
				if vals.len() > 300 {
					return err(format!("too many addresses for {}", show(pe)));
				}
			}
			let mut acc: Option<E> = None;
			vals.sort();
			for v in vals.iter().rev() {
				let x = self.read(s, v.lo as u64, n)?;
				acc = Some(match acc {
					None => x,
					Some(a) => ite(eq(pe, konst(64, *v)), x, a),
				});
			}
			if vals.len() == 1 {
				s.conc.push((pe, vals[0]));
			}
			return Ok(Val::E(trunc(acc.unwrap(), w)));
		}
		let p = self.ptr(s, pe)?;
		let e = self.read(s, p, n)?;
		Ok(Val::E(trunc(e, w)))
	}
	fn load_agg(&mut self, s: &State, p: u64, t: &Ty) -> R<Val> {
		if t.is_agg() {
			let mut v = vec![];
			for i in 0..t.nfields() {
				let x = self.load_agg(s, p + t.field_off(i), &t.field(i))?;
				v.push(x);
			}
			return Ok(Val::Agg(Rc::new(v)));
		}
		let e = self.read(s, p, t.store_size())?;
		Ok(Val::E(trunc(e, t.bits())))
	}
	fn store_ty(&mut self, s: &mut State, p: u64, t: &Ty, v: &Val) -> R<()> {
		match v {
			Val::Agg(a) => {
				for (i, x) in a.iter().enumerate() {
					self.store_ty(s, p + t.field_off(i), &t.field(i), x)?;
				}
				Ok(())
			},
			Val::Undef => Ok(()),
			Val::E(e) => self.write(s, p, *e, t.store_size()),
		}
	}
	fn copy(&mut self, s: &mut State, d: u64, src: u64, n: u64) -> R<()> {
		if n == 0 {
			return Ok(());
		}
		let (o, off) = self.obj(s, src, n)?;
		let tmp: Vec<Cell> = o.cells[off..off + n as usize].to_vec();
		drop(o);
		let (o, off) = self.obj_mut(s, d, n)?;
		o.cells[off..off + n as usize].copy_from_slice(&tmp);
		Ok(())
	}
	fn be(&mut self, s: &State, p: u64, n: u64) -> R<E> {
		// big-endian value of n bytes (first byte most significant)
		let (o, off) = self.obj(s, p, n)?;
		let mut acc = Self::get(&o.cells, off, 1);
		for i in 1..n as usize {
			acc = concat(acc, Self::get(&o.cells, off + i, 1));
		}
		Ok(acc)
	}
	// ---------- instruction step ----------
	fn op(&self, f: &Frame, o: &Opnd) -> Val {
		match o {
			Opnd::Reg(r) => f.regs[*r as usize].clone(),
			Opnd::C(v) => v.clone(),
		}
	}
	fn jump(&mut self, s: &mut State, to: u32) {
		let f = s.frames.last().unwrap();
		let func = f.f.clone();
		let from = f.blk;
		let b = &func.blocks[to as usize];
		let mut vals = Vec::with_capacity(b.phis.len());
		for p in &b.phis {
			let (o, _) = p.inc.iter().find(|(_, l)| *l == from).unwrap_or_else(|| panic!("phi missing in {}", func.name));
			vals.push((p.dst, self.op(f, o)));
		}
		let f = s.frames.last_mut().unwrap();
		for (d, v) in vals {
			f.regs[d as usize] = v;
		}
		f.blk = to;
		f.ip = 0;
	}
	fn bin(op: Op2, a: E, b: E) -> E {
		match op {
			Op2::Add => add(a, b),
			Op2::Sub => sub(a, b),
			Op2::Mul => mul(a, b),
			Op2::UDiv => udiv(a, b),
			Op2::SDiv => sdiv(a, b),
			Op2::URem => urem(a, b),
			Op2::SRem => srem(a, b),
			Op2::And => and(a, b),
			Op2::Or => or(a, b),
			Op2::Xor => xor(a, b),
			Op2::Shl => shl(a, b),
			Op2::LShr => lshr(a, b),
			Op2::AShr => ashr(a, b),
		}
	}
	fn icmp(p: Pred, a: E, b: E) -> E {
		match p {
			Pred::Eq => eq(a, b),
			Pred::Ne => ne(a, b),
			Pred::Ult => ult(a, b),
			Pred::Ule => ule(a, b),
			Pred::Ugt => ult(b, a),
			Pred::Uge => ule(b, a),
			Pred::Slt => slt(a, b),
			Pred::Sle => not(slt(b, a)),
			Pred::Sgt => slt(b, a),
			Pred::Sge => not(slt(a, b)),
		}
	}
	fn map2(t: &Ty, a: &Val, b: &Val, f: &dyn Fn(E, E) -> E) -> Val {
		match t {
			Ty::Vec(n, et) => {
				let w = et.bits();
				let g = |v: &Val, i: usize| match v {
					Val::Agg(x) => as_e(&x[i], w),
					_ => konst(w, W::ZERO),
				};
				Val::Agg(Rc::new((0..*n as usize).map(|i| Val::E(f(g(a, i), g(b, i)))).collect()))
			},
			_ => {
				let w = t.bits();
				Val::E(f(as_e(a, w), as_e(b, w)))
			},
		}
	}
	fn cast(k: CastK, a: E, w: u32) -> E {
		match k {
			CastK::Zext => zext(a, w),
			CastK::Sext => sext(a, w),
			CastK::Trunc => trunc(a, w),
			CastK::Same => a,
		}
	}
	fn selv(c: E, a: &Val, b: &Val, t: &Ty) -> Val {
		if t.is_agg() {
			let n = t.nfields();
			let g = |v: &Val, i: usize| match v {
				Val::Agg(x) => x[i].clone(),
				_ => Val::Undef,
			};
			return Val::Agg(Rc::new((0..n).map(|i| Self::selv(c, &g(a, i), &g(b, i), &t.field(i))).collect()));
		}
		match (a, b) {
			(Val::Undef, x) | (x, Val::Undef) => x.clone(),
			_ => {
				let w = t.bits();
				Val::E(ite(c, as_e(a, w), as_e(b, w)))
			},
		}
	}
	fn step(&mut self, s: &mut State) -> R<()> {
		s.steps += 1;
		let f = s.frames.last().unwrap();
		let func = f.f.clone();
		let ins = &func.blocks[f.blk as usize].ins[f.ip as usize];
		macro_rules! set {
			($d:expr, $v:expr) => {{
				let v = $v;
				let f = s.frames.last_mut().unwrap();
				f.regs[$d as usize] = v;
				f.ip += 1;
			}};
		}
		macro_rules! ev {
			($o:expr, $w:expr) => {{
				let f = s.frames.last().unwrap();
				as_e(&self.op(f, $o), $w)
			}};
		}
		match ins {
			Ins::Bin(op, d, t, a, b, _) => {
				if !matches!(t, Ty::Vec(..)) && t.bits() > 256 {
					return err("wide int");
				}
				let f = s.frames.last().unwrap();
				let (a, b) = (self.op(f, a), self.op(f, b));
				let op = *op;
				set!(*d, Self::map2(t, &a, &b, &move |x, y| Self::bin(op, x, y)));
			},
			Ins::Icmp(p, d, t, a, b) => {
				let f = s.frames.last().unwrap();
				let (a, b) = (self.op(f, a), self.op(f, b));
				let p = *p;
				set!(*d, Self::map2(t, &a, &b, &move |x, y| Self::icmp(p, x, y)));
			},
			Ins::Cast(k, d, t, o, t2) => {
				let f = s.frames.last().unwrap();
				let v = self.op(f, o);
				let r = if *k == CastK::Same {
					v
				} else if let Ty::Vec(n, et) = t {
					let w2 = match t2 {
						Ty::Vec(_, e2) => e2.bits(),
						_ => unreachable!(),
					};
					Val::Agg(Rc::new(
						(0..*n as usize)
							.map(|i| {
								Val::E(Self::cast(
									*k,
									match &v {
										Val::Agg(x) => as_e(&x[i], et.bits()),
										_ => konst(et.bits(), W::ZERO),
									},
									w2,
								))
							})
							.collect(),
					))
				} else {
					Val::E(Self::cast(*k, as_e(&v, t.bits()), t2.bits()))
				};
				set!(*d, r);
			},
			Ins::Select(d, c, t, a, b, vc) => {
				let f = s.frames.last().unwrap();
				let (cv, av, bv) = (self.op(f, c), self.op(f, a), self.op(f, b));
				let r = if *vc {
					let n = t.nfields();
					let g = |v: &Val, i: usize| match v {
						Val::Agg(x) => x[i].clone(),
						_ => Val::Undef,
					};
					Val::Agg(Rc::new(
						(0..n).map(|i| Self::selv(as_e(&g(&cv, i), 1), &g(&av, i), &g(&bv, i), &t.field(i))).collect(),
					))
				} else {
					Self::selv(as_e(&cv, 1), &av, &bv, t)
				};
				set!(*d, r);
			},
			Ins::Load(d, t, p) => {
				let pe = ev!(p, 64);
				let v = self.load_ty(s, pe, t)?;
				set!(*d, v);
			},
			Ins::Store(t, v, p) => {
				let pe = ev!(p, 64);
				let pa = self.ptr(s, pe)?;
				let f = s.frames.last().unwrap();
				let v = self.op(f, v);
				if t.size() > 0 {
					self.store_ty(s, pa, t, &v)?;
				}
				s.frames.last_mut().unwrap().ip += 1;
			},
			Ins::Alloca(d, n) => {
				let a = self.alloc(s, *n, None);
				let id = ((a >> OBJ_SHIFT) as u32) - 1;
				s.frames.last_mut().unwrap().allocas.push(id);
				set!(*d, Val::E(ku(64, a)));
			},
			Ins::Gep(d, t, p, ix) => {
				let mut a = ev!(p, 64);
				let mut cur = t.clone();
				for (k, (it, o)) in ix.iter().enumerate() {
					let i = ev!(o, it.bits());
					let i = if it.bits() < 64 { sext(i, 64) } else { trunc(i, 64) };
					if k == 0 {
						a = add(a, mul(i, ku(64, t.size())));
					} else {
						match &cur {
							Ty::Struct(..) => {
								let n = is_const(i).unwrap().lo as usize;
								a = add(a, ku(64, cur.field_off(n)));
								cur = cur.field(n);
							},
							_ => {
								let et = cur.field(0);
								a = add(a, mul(i, ku(64, et.size())));
								cur = et;
							},
						}
					}
				}
				set!(*d, Val::E(a));
			},
			Ins::ExtractV(d, o, _t, ix) => {
				let f = s.frames.last().unwrap();
				let mut v = self.op(f, o);
				for i in ix {
					v = match v {
						Val::Agg(a) => a[*i].clone(),
						_ => Val::Undef,
					};
				}
				set!(*d, v);
			},
			Ins::InsertV(d, t, a, b, ix) => {
				let f = s.frames.last().unwrap();
				let (a, b) = (self.op(f, a), self.op(f, b));
				fn go(t: &Ty, a: &Val, b: Val, ix: &[usize]) -> Val {
					if ix.is_empty() {
						return b;
					}
					let mut v = match a {
						Val::Agg(x) => (**x).clone(),
						_ => vec![Val::Undef; t.nfields()],
					};
					v[ix[0]] = go(&t.field(ix[0]), &v[ix[0]].clone(), b, &ix[1..]);
					Val::Agg(Rc::new(v))
				}
				set!(*d, go(t, &a, b, ix));
			},
			Ins::ExtractE(d, _t, a, i) => {
				let f = s.frames.last().unwrap();
				let v = self.op(f, a);
				let i = ev!(i, 64);
				let k = match is_const(i) {
					Some(k) => k.lo as usize,
					None => return err("symbolic extractelement"),
				};
				let r = match v {
					Val::Agg(a) => a[k].clone(),
					_ => Val::Undef,
				};
				set!(*d, r);
			},
			Ins::InsertE(d, t, a, b, i) => {
				let f = s.frames.last().unwrap();
				let (a, b) = (self.op(f, a), self.op(f, b));
				let i = ev!(i, 64);
				let k = match is_const(i) {
					Some(k) => k.lo as usize,
					None => return err("symbolic insertelement"),
				};
				let mut v = match a {
					Val::Agg(x) => (*x).clone(),
					_ => vec![Val::Undef; t.nfields()],
				};
				v[k] = b;
				set!(*d, Val::Agg(Rc::new(v)));
			},
			Ins::Shuffle(d, t, a, b, mask) => {
				let f = s.frames.last().unwrap();
				let (a, b) = (self.op(f, a), self.op(f, b));
				let n = t.nfields() as i64;
				let g = |v: &Val, i: i64| match v {
					Val::Agg(x) => x[i as usize].clone(),
					_ => Val::Undef,
				};
				let r = mask
					.iter()
					.map(|k| if *k < 0 { Val::Undef } else if *k < n { g(&a, *k) } else { g(&b, *k - n) })
					.collect();
				set!(*d, Val::Agg(Rc::new(r)));
			},
			Ins::Freeze(d, t, o) => {
				let f = s.frames.last().unwrap();
				let v = self.op(f, o);
				let v = if let (Val::Undef, false) = (&v, t.is_agg()) { Val::E(konst(t.bits(), W::ZERO)) } else { v };
				set!(*d, v);
			},
			Ins::Rmw(d, op, t, p, v) => {
				let pe = ev!(p, 64);
				let pa = self.ptr(s, pe)?;
				let w = t.bits();
				let v = ev!(v, w);
				let old = trunc(self.read(s, pa, t.store_size())?, w);
				let new = match op.as_str() {
					"add" => add(old, v),
					"sub" => sub(old, v),
					"and" => and(old, v),
					"or" => or(old, v),
					"xor" => xor(old, v),
					"xchg" => v,
					_ => return err(format!("rmw {}", op)),
				};
				self.write(s, pa, new, t.store_size())?;
				set!(*d, Val::E(old));
			},
			Ins::CmpXchg(d, t, p, a, b) => {
				let pe = ev!(p, 64);
				let pa = self.ptr(s, pe)?;
				let w = t.bits();
				let (a, b) = (ev!(a, w), ev!(b, w));
				let old = trunc(self.read(s, pa, t.store_size())?, w);
				let c = eq(old, a);
				self.write(s, pa, ite(c, b, old), t.store_size())?;
				set!(*d, Val::Agg(Rc::new(vec![Val::E(old), Val::E(c)])));
			},
			Ins::Fence => s.frames.last_mut().unwrap().ip += 1,
			Ins::Br(l) => self.jump(s, *l),
			Ins::CondBr(c, a, b) => {
				let c = ev!(c, 1);
				if a == b {
					self.jump(s, *a);
					return Ok(());
				}
				let (a, b) = (*a, *b);
				let cur_true = if let Some(k) = is_const(c) { !k.is_zero() } else { !eval(c, &s.model).is_zero() };
				let oth = if cur_true { b } else { a };
				let r = self.branch(s, c, |me, o| {
					me.jump(o, oth);
					Ok(())
				})?;
				self.jump(s, if r { a } else { b });
			},
			Ins::Switch(t, v, dl, cs) => {
				let w = t.bits();
				let e = ev!(v, w);
				if let Some(k) = is_const(e) {
					let l = cs.iter().find(|(x, _)| *x == k).map(|x| x.1).unwrap_or(*dl);
					self.jump(s, l);
					return Ok(());
				}
				// group by target
				let mut groups: Vec<(u32, E)> = vec![];
				let mut none = tru();
				for (k, l) in cs {
					let c = eq(e, konst(w, *k));
					none = and(none, not(c));
					match groups.iter_mut().find(|g| g.0 == *l) {
						Some(g) => g.1 = or(g.1, c),
						None => groups.push((*l, c)),
					}
				}
				match groups.iter_mut().find(|g| g.0 == *dl) {
					Some(g) => g.1 = or(g.1, none),
					None => groups.push((*dl, none)),
				}
				let mut feas = vec![];
				for (l, c) in groups {
					match self.sat(s, c) {
						Ok(Some(m)) => feas.push((l, c, m)),
						Ok(None) => {},
						Err(()) => return err("solver unknown at switch"),
					}
				}
				if feas.is_empty() {
					return err("infeasible switch");
				}
				let only = feas.len() == 1;
				for (l, c, m) in feas.iter().skip(1) {
					let mut o = s.clone();
					o.steps = 0;
					self.st.forks += 1;
					self.assume(&mut o, *c, m.clone());
					self.jump(&mut o, *l);
					self.work.push(o);
				}
				let (l, c, m) = feas[0].clone();
				if !only {
					self.assume(s, c, m);
				}
				self.jump(s, l);
			},
			Ins::Ret(_t, o) => {
				let f = s.frames.last().unwrap();
				let v = o.as_ref().map(|o| self.op(f, o));
				let f = s.frames.pop().unwrap();
				for id in f.allocas {
					self.free(s, obj_base(id));
				}
				if s.frames.is_empty() {
					return Err(Stop::End(End::Done));
				}
				let c = s.frames.last_mut().unwrap();
				if let Some(d) = f.dst {
					c.regs[d as usize] = v.unwrap_or(Val::Undef);
				}
				match f.normal {
					Some(l) => self.jump(s, l),
					None => c.ip += 1,
				}
			},
			Ins::Unreachable => return err(format!("unreachable reached in {}", func.name)),
			Ins::Unsupported(x) => return err(format!("unsupported: {}", x)),
			Ins::Call { dst, ret, callee, args, normal } => {
				let f = s.frames.last().unwrap();
				let name = match callee {
					Callee::Direct(n) => n.clone(),
					Callee::Asm => {
						s.frames.last_mut().unwrap().ip += 1;
						return Ok(());
					},
					Callee::Ind(o) => {
						let e = as_e(&self.op(f, o), 64);
						let p = self.ptr(s, e)?;
						if p < FN_BASE {
							return err(format!("indirect call to {:x}", p));
						}
						let k = ((p - FN_BASE) / 16) as usize;
						match self.m.fn_names.get(k) {
							Some(n) => n.clone(),
							None => return err("bad fn ptr"),
						}
					},
				};
				let f = s.frames.last().unwrap();
				let av: Vec<Val> = args.iter().map(|(_, o, _)| self.op(f, o)).collect();
				if let Some(r) = self.builtin(s, &name, args, &av, ret)? {
					let f = s.frames.last_mut().unwrap();
					if let Some(d) = dst {
						f.regs[*d as usize] = r;
					}
					match normal {
						Some(l) => self.jump(s, *l),
						None => f.ip += 1,
					}
					return Ok(());
				}
				let callee = match self.m.func(&name) {
					Some(f) => f,
					None => return err(format!("call to undefined {}", name)),
				};
				if s.frames.len() > 400 {
					return err("stack depth");
				}
				if self.st.funcs.insert(name.clone()) {
					self.st.ins += callee.blocks.iter().map(|b| b.ins.len() as u64 + b.phis.len() as u64).sum::<u64>();
				}
				let mut regs = vec![Val::Undef; callee.nregs as usize];
				let mut allocas = vec![];
				for (i, (r, _t, bv)) in callee.params.iter().enumerate() {
					let mut v = av.get(i).cloned().unwrap_or(Val::Undef);
					if let Some(n) = bv {
						let src = self.ptr(s, as_e(&v, 64))?;
						let a = self.alloc(s, *n, None);
						allocas.push(((a >> OBJ_SHIFT) as u32) - 1);
						self.copy(s, a, src, *n)?;
						v = Val::E(ku(64, a));
					}
					regs[*r as usize] = v;
				}
				s.frames.push(Frame { f: callee, blk: 0, ip: 0, regs, allocas, dst: *dst, normal: *normal });
			},
		}
		Ok(())
	}
	fn cstr(&mut self, s: &mut State, p: &Val, n: &Val) -> R<String> {
		let p = self.ptr(s, as_e(p, 64))?;
		let n = match is_const(as_e(n, 64)) {
			Some(k) => k.lo as u64,
			None => return err("symbolic name length"),
		};
		let mut v = vec![];
		for i in 0..n {
			let e = self.read(s, p + i, 1)?;
			v.push(is_const(e).map(|k| k.lo as u8).unwrap_or(b'?'));
		}
		Ok(String::from_utf8_lossy(&v).into_owned())
	}
	fn fresh(&mut self, s: &mut State, w: u32) -> E {
		let ix = s.nd.len() as u32;
		let e = match &self.concrete {
			Some(v) => konst(w, v.get(ix as usize).copied().unwrap_or(W::ZERO)),
			None => var_ix(w, ix),
		};
		s.nd.push(e);
		e
	}
	fn builtin(&mut self, s: &mut State, name: &str, args: &[(Ty, Opnd, Option<u64>)], av: &[Val], ret: &Ty) -> R<Option<Val>> {
		let a = |i: usize| -> E { as_e(&av[i], args[i].0.bits()) };
		if let Some(r) = name.strip_prefix("llvm.") {
			return self.llvm(s, r, args, av, ret).map(Some);
		}
		let unit = Ok(Some(Val::Undef));
		if let Some(k) = name.strip_prefix("sx_") {
			match k {
				"u8" => return Ok(Some(Val::E(self.fresh(s, 8)))),
				"u16" => return Ok(Some(Val::E(self.fresh(s, 16)))),
				"u32" => return Ok(Some(Val::E(self.fresh(s, 32)))),
				"u64" => return Ok(Some(Val::E(self.fresh(s, 64)))),
				"u128" => return Ok(Some(Val::E(self.fresh(s, 128)))),
				"bool" => {
					let e = self.fresh(s, 8);
					return Ok(Some(Val::E(extract(e, 0, 0))));
				},
				"bytes" => {
					let p = self.ptr(s, a(0))?;
					let n = is_const(a(1)).unwrap().lo as u64;
					let mut o = 0;
					while o < n {
						let k = (n - o).min(32);
						let e = self.fresh(s, 8 * k as u32);
						self.write(s, p + o, e, k)?;
						o += k;
					}
					return unit;
				},
				"assume" => {
					let c = trunc(a(0), 1);
					if let Some(k) = is_const(c) {
						return if k.is_zero() { Err(Stop::End(End::Cut)) } else { unit };
					}
					match self.sat(s, c) {
						Ok(Some(m)) => self.assume(s, c, m),
						Ok(None) => return Err(Stop::End(End::Cut)),
						Err(()) => {
							s.maybe = true;
							let m = s.model.clone();
							self.assume(s, c, m);
						},
					}
					return unit;
				},
				"cut" => return Err(Stop::End(End::Cut)),
				"panic_ok" => {
					s.panic_ok = !is_const(a(0)).map_or(true, |k| k.is_zero());
					return unit;
				},
				"check" => {
					let c = trunc(a(0), 1);
					let n = self.cstr(s, &av[1], &av[2])?;
					let t = self.tag(&n);
					s.log.push((t, c));
					let ent = self.st.checks.entry(n.clone()).or_default();
					ent.0 += 1;
					if is_const(c).map_or(false, |k| !k.is_zero()) {
						return unit;
					}
					self.st.checks.get_mut(&n).unwrap().1 += 1;
					match self.confirm(s, not(c)) {
						Ok(Some(m)) => {
							let nd = Self::ndvals(s, &m);
							self.viol.push(Violation { what: n, nd });
							if is_const(c).is_some() {
								return Err(Stop::End(End::Cut));
							}
							match self.sat(s, c) {
								Ok(Some(m)) => self.assume(s, c, m),
								_ => return Err(Stop::End(End::Cut)),
							}
						},
						Ok(None) => {},
						Err(()) => return err(format!("solver unknown at check {}", n)),
					}
					return unit;
				},
				"reach" => {
					let n = self.cstr(s, &av[0], &av[1])?;
					let t = self.tag(&n);
					s.log.push((t, tru()));
					let k = if s.maybe { 0 } else { 1 };
					*self.st.reach.entry(n).or_default() += k;
					return unit;
				},
				"trace" => {
					let n = self.cstr(s, &av[0], &av[1])?;
					let t = self.tag(&n);
					s.log.push((t, a(2)));
					return unit;
				},
				"pick" => {
					// concretize: fork over all feasible values
					let e = a(0);
					let v = self.concretize(s, e, 300)?;
					return Ok(Some(Val::E(konst(width(e), v))));
				},
				"dbg" => {
					let n = self.cstr(s, &av[0], &av[1])?;
					eprintln!("DBG {} {}", n, show(a(2)));
					return unit;
				},
				"u256" => {
					let op = is_const(a(0)).unwrap().lo;
					let (pa, pb, po) = (self.ptr(s, a(1))?, self.ptr(s, a(2))?, self.ptr(s, a(3))?);
					let x = self.read(s, pa, 32)?;
					let y = self.read(s, pb, 32)?;
					let z = konst(256, W::ZERO);
					let (r, o) = match op {
						0 => {
							let r = add(x, y);
							let (_, ov) = nd(x).hi.add_o(nd(y).hi);
							(r, if ov { ult(r, x) } else { fls() })
						},
						1 => (sub(x, y), ult(x, y)),
						2 => {
							let r = mul(x, y);
							(r, mul_ov(x, y))
						},
						3 => (udiv(x, y), eq(y, z)),
						_ => (urem(x, y), eq(y, z)),
					};
					self.write(s, po, r, 32)?;
					return Ok(Some(Val::E(o)));
				},
				_ => return err(format!("unknown intrinsic sx_{}", k)),
			}
		}
		match name {
			"malloc" | "calloc" | "aligned_alloc" => {
				let n = match name {
					"malloc" => self.concretize(s, a(0), 64)?,
					"calloc" => self.concretize(s, mul(a(0), a(1)), 64)?,
					_ => self.concretize(s, a(1), 64)?,
				};
				if n > W::from(1u64 << 24) {
					return err("huge allocation");
				}
				let fill = if name == "calloc" { Some(Cell { e: 0, k: 0 }) } else { None };
				let p = self.alloc(s, n.lo as u64, fill);
				return Ok(Some(Val::E(ku(64, p))));
			},
			"posix_memalign" => {
				let n = self.concretize(s, a(2), 64)?;
				let pp = self.ptr(s, a(0))?;
				let p = self.alloc(s, n.lo as u64, None);
				self.write(s, pp, ku(64, p), 8)?;
				return Ok(Some(Val::E(ku(32, 0))));
			},
			"realloc" => {
				let p = self.ptr(s, a(0))?;
				let n = self.concretize(s, a(1), 64)?;
				if n > W::from(1u64 << 24) {
					return err("huge allocation");
				}
				let q = self.alloc(s, n.lo as u64, None);
				let (o, _) = self.obj(s, p, 0)?;
				let k = (o.cells.len() as u64).min(n.lo as u64);
				drop(o);
				self.copy(s, q, p, k)?;
				self.free(s, p);
				return Ok(Some(Val::E(ku(64, q))));
			},
			"free" => {
				let p = self.ptr(s, a(0))?;
				self.free(s, p);
				return unit;
			},
			"memcmp" | "bcmp" => {
				let n = self.concretize(s, a(2), 128)?.lo as u64;
				let w = ret.bits();
				if n == 0 {
					return Ok(Some(Val::E(ku(w, 0))));
				}
				let (p, q) = (self.ptr(s, a(0))?, self.ptr(s, a(1))?);
				let mut r = ku(w, 0);
				let mut chunks = vec![];
				let mut o = 0;
				while o < n {
					let k = (n - o).min(32);
					chunks.push((o, k));
					o += k;
				}
				if name == "bcmp" {
					let mut c = tru();
					for (o, k) in chunks {
						let x = self.read(s, p + o, k)?;
						let y = self.read(s, q + o, k)?;
						c = and(c, eq(x, y));
					}
					return Ok(Some(Val::E(zext(not(c), w))));
				}
				for (o, k) in chunks.into_iter().rev() {
					let x = self.be(s, p + o, k)?;
					let y = self.be(s, q + o, k)?;
					r = ite(eq(x, y), r, ite(ult(x, y), konst(w, W::MAX), ku(w, 1)));
				}
				return Ok(Some(Val::E(r)));
			},
			"memcpy" | "memmove" => {
				let n = self.concretize(s, a(2), 128)?.lo as u64;
				if n > 0 {
					let (p, q) = (self.ptr(s, a(0))?, self.ptr(s, a(1))?);
					self.copy(s, p, q, n)?;
				}
				return Ok(Some(av[0].clone()));
			},
			"strlen" => return err("strlen"),
			_ => {},
		}
		if name.starts_with("_R") || name.starts_with("_ZN") || name == "rust_begin_unwind" || name == "abort" {
			let core_like = name.contains("panicking")
				|| name.contains("unwrap_failed")
				|| name.contains("expect_failed")
				|| name.contains("handle_alloc_error")
				|| name.contains("alloc_error_handler")
				|| name.contains("capacity_overflow")
				|| name.contains("slice_error_fail")
				|| name.contains("index_fail")
				|| name.contains("len_mismatch_fail")
				|| name.contains("rust_begin_unwind")
				|| name.contains("panic_")
				|| (name.contains("raw_vec") && name.contains("handle_error"))
				|| name.contains("assert_failed")
				|| name == "abort";
			if core_like {
				// where it came from
				let at = s.frames.iter().rev().map(|f| f.f.name.clone()).find(|n| !n.contains("4core") || n.len() < 40).unwrap_or_default();
				return Err(Stop::End(End::Panic(format!("{} in {}", short(name), short(&at)))));
			}
		}
		let _ = &self.stubs;
		Ok(None)
	}
	fn llvm(&mut self, s: &mut State, r: &str, args: &[(Ty, Opnd, Option<u64>)], av: &[Val], ret: &Ty) -> R<Val> {
		let a = |i: usize| -> E { as_e(&av[i], args[i].0.bits()) };
		let base = r.split('.').next().unwrap();
		if matches!(ret, Ty::Vec(..)) {
			let (n, et) = match ret {
				Ty::Vec(n, t) => (*n as usize, (**t).clone()),
				_ => unreachable!(),
			};
			let _ = (n, et);
			match base {
				"umin" | "umax" => {
					let mx = base == "umax";
					return Ok(Self::map2(ret, &av[0], &av[1], &move |x, y| if mx { ite(ult(x, y), y, x) } else { ite(ult(x, y), x, y) }));
				},
				_ => return err(format!("vector intrinsic {}", r)),
			}
		}
		let ag = |v: Vec<E>| Val::Agg(Rc::new(v.into_iter().map(Val::E).collect()));
		Ok(match base {
			"lifetime" | "assume" | "dbg" | "prefetch" | "invariant" | "x86" | "donothing" | "stackrestore" | "var" => Val::Undef,
			"experimental" => Val::Undef,
			"stacksave" => Val::E(ku(64, 0)),
			"trap" => return Err(Stop::End(End::Panic("trap".into()))),
			"memcpy" | "memmove" => {
				let n = self.concretize(s, a(2), 300)?.lo as u64;
				if n > 0 {
					let (p, q) = (self.ptr(s, a(0))?, self.ptr(s, a(1))?);
					self.copy(s, p, q, n)?;
				}
				Val::Undef
			},
			"memset" => {
				let n = self.concretize(s, a(2), 300)?.lo as u64;
				if n > 0 {
					let p = self.ptr(s, a(0))?;
					let b = a(1);
					let (o, off) = self.obj_mut(s, p, n)?;
					for i in 0..n as usize {
						o.cells[off + i] = Cell { e: b, k: 0 };
					}
				}
				Val::Undef
			},
			"umin" => {
				let (x, y) = (a(0), a(1));
				Val::E(ite(ult(y, x), y, x))
			},
			"umax" => {
				let (x, y) = (a(0), a(1));
				Val::E(ite(ult(x, y), y, x))
			},
			"smin" => {
				let (x, y) = (a(0), a(1));
				Val::E(ite(slt(y, x), y, x))
			},
			"smax" => {
				let (x, y) = (a(0), a(1));
				Val::E(ite(slt(x, y), y, x))
			},
			"abs" => {
				let x = a(0);
				let w = width(x);
				Val::E(ite(slt(x, konst(w, W::ZERO)), neg(x), x))
			},
			"ucmp" | "scmp" => {
				let (x, y) = (a(0), a(1));
				let w = ret.bits();
				let lt = if base == "ucmp" { ult(x, y) } else { slt(x, y) };
				Val::E(ite(lt, konst(w, W::MAX), ite(eq(x, y), ku(w, 0), ku(w, 1))))
			},
			"uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
				let (x, y) = (a(0), a(1));
				let w = width(x);
				let sat = r.contains(".sat.");
				match base {
					"uadd" => {
						let z = add(x, y);
						let (h, o) = nd(x).hi.add_o(nd(y).hi);
						let ov = if !o && h <= W::mask(w) { fls() } else { ult(z, x) };
						if sat {
							Val::E(ite(ov, konst(w, W::MAX), z))
						} else {
							ag(vec![z, ov])
						}
					},
					"usub" => {
						let z = sub(x, y);
						let ov = ult(x, y);
						if sat {
							Val::E(ite(ov, konst(w, W::ZERO), z))
						} else {
							ag(vec![z, ov])
						}
					},
					"umul" => {
						let z = mul(x, y);
						let ov = mul_ov(x, y);
						ag(vec![z, ov])
					},
					"sadd" | "ssub" if !sat => {
						let (xx, yy) = (sext(x, w + 1), sext(y, w + 1));
						let z = if base == "sadd" { add(xx, yy) } else { sub(xx, yy) };
						let lo = trunc(z, w);
						let ov = ne(sext(lo, w + 1), z);
						ag(vec![lo, ov])
					},
					_ => return err(format!("intrinsic {}", r)),
				}
			},
			"fshl" | "fshr" => {
				let (x, y, k) = (a(0), a(1), a(2));
				let w = width(x);
				match is_const(k) {
					Some(k) => {
						let k = (k.lo % w as u128) as u32;
						let sh = if base == "fshl" { k } else { w - k };
						if k == 0 {
							Val::E(if base == "fshl" { x } else { y })
						} else {
							Val::E(concat(extract(x, w - 1 - sh, 0), extract(y, w - 1, w - sh)))
						}
					},
					None => {
						let km = urem(k, ku(w, w as u64));
						let km2 = sub(ku(w, w as u64), km);
						if base == "fshl" {
							Val::E(or(shl(x, km), lshr(y, km2)))
						} else {
							Val::E(or(shl(x, km2), lshr(y, km)))
						}
					},
				}
			},
			"bswap" => {
				let x = a(0);
				let n = width(x) / 8;
				let mut acc = extract(x, 7, 0);
				for i in 1..n {
					acc = concat(acc, extract(x, 8 * i + 7, 8 * i));
				}
				Val::E(acc)
			},
			"bitreverse" => {
				let x = a(0);
				let mut acc = extract(x, 0, 0);
				for i in 1..width(x) {
					acc = concat(acc, extract(x, i, i));
				}
				Val::E(acc)
			},
			"ctpop" => {
				let x = a(0);
				let w = width(x);
				let mut acc = ku(w, 0);
				for i in 0..w {
					acc = add(acc, zext(extract(x, i, i), w));
				}
				Val::E(acc)
			},
			"ctlz" => {
				let x = a(0);
				let w = width(x);
				let mut acc = ku(w, w as u64);
				for i in 0..w {
					acc = ite(extract(x, i, i), ku(w, (w - 1 - i) as u64), acc);
				}
				Val::E(acc)
			},
			"cttz" => {
				let x = a(0);
				let w = width(x);
				let mut acc = ku(w, w as u64);
				for i in (0..w).rev() {
					acc = ite(extract(x, i, i), ku(w, i as u64), acc);
				}
				Val::E(acc)
			},
			"expect" => av[0].clone(),
			"is" => Val::E(fls()),
			"threadlocal" => av[0].clone(),
			"load" => {
				// load.relative
				let p = add(a(0), sext(a(1), 64));
				let v = self.load_ty(s, p, &Ty::Int(32))?;
				Val::E(add(a(0), concat(as_e(&v, 32), ku(32, 0))))
			},
			"ptrmask" => Val::E(and(a(0), a(1))),
			"vector" => return err(format!("vector intrinsic {}", r)),
			_ => return err(format!("intrinsic {}", r)),
		})
	}
}
/// Cheap search for a model of hard constraints near a known assignment.
fn probe(q: &[E], base: &Model) -> Option<Model> {
	let ok = |m: &Model| q.iter().rev().all(|c| !eval(*c, m).is_zero());
	if ok(base) {
		return Some(base.clone());
	}
	let mut seen = HashSet::new();
	let mut vs: Vec<(u32, u32)> = vec![];
	for c in q.iter().rev() {
		for v in var_nodes(*c) {
			if seen.insert(v.0) {
				vs.push(v);
			}
		}
	}
	vs.truncate(16);
	let score = |m: &Model| q.iter().filter(|c| !eval(**c, m).is_zero()).count();
	let mut cur = base.clone();
	let mut best = score(&cur);
	for _round in 0..4 {
		let mut improved = false;
		for (v, w) in &vs {
			let mk = W::mask(*w);
			let b = cur.get(v).copied().unwrap_or(W::ZERO);
			let mut cand = vec![W::ZERO, W::ONE, W::from(2u64), W::from(1000u64), W::from(1_000_000u64), mk, mk.shr(1), b.add(W::ONE), b.sub(W::ONE), b.shl(1), b.shr(1)];
			if *w > 64 {
				cand.extend([W::ONE.shl(40), W::ONE.shl(64), W::ONE.shl(90), W::ONE.shl(120)]);
			}
			for (o, ow) in &vs {
				if ow == w && o != v {
					cand.push(cur.get(o).copied().unwrap_or(W::ZERO));
				}
			}
			for k in cand {
				let mut m = cur.clone();
				m.insert(*v, k.and(mk));
				let sc = score(&m);
				if sc == q.len() {
					return Some(m);
				}
				if sc > best {
					best = sc;
					cur = m;
					improved = true;
				}
			}
		}
		if !improved {
			break;
		}
	}
	None
}
fn var_nodes(e: E) -> Vec<(u32, u32)> {
	let mut seen = HashSet::new();
	let mut st = vec![e];
	let mut out = vec![];
	while let Some(x) = st.pop() {
		if !seen.insert(x) {
			continue;
		}
		let n = nd(x);
		if n.op == Op::Var {
			out.push((n.a, n.w));
		}
		st.extend(kids(&n));
	}
	out
}
pub fn short(n: &str) -> String {
	// last readable path segments of a mangled name
	let mut out = vec![];
	let b = n.as_bytes();
	let mut i = 0;
	while i < b.len() {
		if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
			let mut j = i;
			let mut k = 0usize;
			while j < b.len() && b[j].is_ascii_digit() && k < 100 {
				k = k * 10 + (b[j] - b'0') as usize;
				j += 1;
			}
			let st = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
			if k >= 3 && st + k <= b.len() && b[st..st + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && b[st].is_ascii_alphabetic() {
				out.push(n[st..st + k].to_string());
				i = st + k;
				continue;
			}
			i = j;
			continue;
		}
		i += 1;
	}
	if out.is_empty() {
		n.chars().take(60).collect()
	} else {
		let k = out.len().min(4);
		out[..k].join("::")
	}
}
