//! Lazy parser for the textual LLVM IR that rustc emits after fat LTO.
use crate::expr::*;
use crate::w256::W;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
	Void,
	Int(u32),
	Ptr,
	Float(u32),
	Arr(u64, Rc<Ty>),
	Vec(u64, Rc<Ty>),
	Struct(Rc<Vec<Ty>>, bool),
	Label,
	Meta,
}
impl Ty {
	pub fn align(&self) -> u64 {
		match self {
			Ty::Int(n) => match n {
				0..=8 => 1,
				9..=16 => 2,
				17..=32 => 4,
				33..=64 => 8,
				_ => 16,
			},
			Ty::Ptr => 8,
			Ty::Float(n) => *n as u64 / 8,
			Ty::Arr(_, t) => t.align(),
			Ty::Vec(n, t) => (n * t.store_size()).next_power_of_two(),
			Ty::Struct(f, p) => {
				if *p {
					1
				} else {
					f.iter().map(|t| t.align()).max().unwrap_or(1)
				}
			},
			_ => 1,
		}
	}
	pub fn store_size(&self) -> u64 {
		match self {
			Ty::Int(n) => ((*n as u64) + 7) / 8,
			Ty::Vec(n, t) => match &**t {
				Ty::Int(1) => (n + 7) / 8,
				_ => n * t.store_size(),
			},
			_ => self.size(),
		}
	}
	pub fn size(&self) -> u64 {
		match self {
			Ty::Void | Ty::Label | Ty::Meta => 0,
			Ty::Int(_) => {
				let s = self.store_size();
				let a = self.align();
				(s + a - 1) / a * a
			},
			Ty::Ptr => 8,
			Ty::Float(n) => *n as u64 / 8,
			Ty::Arr(n, t) => n * t.size(),
			Ty::Vec(..) => self.store_size().next_power_of_two(),
			Ty::Struct(f, p) => {
				let mut o = 0u64;
				for t in f.iter() {
					if !*p {
						let a = t.align();
						o = (o + a - 1) / a * a;
					}
					o += t.size();
				}
				if !*p {
					let a = self.align();
					o = (o + a - 1) / a * a;
				}
				o
			},
		}
	}
	pub fn field_off(&self, i: usize) -> u64 {
		match self {
			Ty::Struct(f, p) => {
				let mut o = 0u64;
				for (k, t) in f.iter().enumerate() {
					if !*p {
						let a = t.align();
						o = (o + a - 1) / a * a;
					}
					if k == i {
						return o;
					}
					o += t.size();
				}
				o
			},
			Ty::Arr(_, t) => t.size() * i as u64,
			Ty::Vec(_, t) => t.store_size() * i as u64,
			_ => panic!("field_off {:?}", self),
		}
	}
	pub fn field(&self, i: usize) -> Ty {
		match self {
			Ty::Struct(f, _) => f[i].clone(),
			Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
			_ => panic!("field {:?}", self),
		}
	}
	pub fn nfields(&self) -> usize {
		match self {
			Ty::Struct(f, _) => f.len(),
			Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
			_ => 0,
		}
	}
	pub fn is_agg(&self) -> bool {
		matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
	}
	pub fn bits(&self) -> u32 {
		match self {
			Ty::Int(n) => *n,
			Ty::Ptr => 64,
			Ty::Float(n) => *n,
			_ => panic!("bits of {:?}", self),
		}
	}
}
#[derive(Clone, Debug)]
pub enum Val {
	E(E),
	Agg(Rc<Vec<Val>>),
	Undef,
}
#[derive(Clone, Debug)]
pub enum Opnd {
	Reg(u32),
	C(Val),
}
#[derive(Clone, Debug)]
pub enum Ins {
	Bin(Op2, u32, Ty, Opnd, Opnd, u8), // flags bit0: disjoint
	Icmp(Pred, u32, Ty, Opnd, Opnd),
	Cast(CastK, u32, Ty, Opnd, Ty),
	Select(u32, Opnd, Ty, Opnd, Opnd, bool),
	Load(u32, Ty, Opnd),
	Store(Ty, Opnd, Opnd),
	Alloca(u32, u64),
	Gep(u32, Ty, Opnd, Vec<(Ty, Opnd)>),
	Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Opnd, Option<u64>)>, normal: Option<u32> },
	ExtractV(u32, Opnd, Ty, Vec<usize>),
	InsertV(u32, Ty, Opnd, Opnd, Vec<usize>),
	ExtractE(u32, Ty, Opnd, Opnd),
	InsertE(u32, Ty, Opnd, Opnd, Opnd),
	Shuffle(u32, Ty, Opnd, Opnd, Vec<i64>),
	Freeze(u32, Ty, Opnd),
	Rmw(u32, String, Ty, Opnd, Opnd),
	CmpXchg(u32, Ty, Opnd, Opnd, Opnd),
	Fence,
	Br(u32),
	CondBr(Opnd, u32, u32),
	Switch(Ty, Opnd, u32, Vec<(W, u32)>),
	Ret(Ty, Option<Opnd>),
	Unreachable,
	Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Callee {
	Direct(String),
	Ind(Opnd),
	Asm,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op2 {
	Add,
	Sub,
	Mul,
	UDiv,
	SDiv,
	URem,
	SRem,
	And,
	Or,
	Xor,
	Shl,
	LShr,
	AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
	Eq,
	Ne,
	Ult,
	Ule,
	Ugt,
	Uge,
	Slt,
	Sle,
	Sgt,
	Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
	Zext,
	Sext,
	Trunc,
	Same,
}
#[derive(Debug)]
pub struct Phi {
	pub dst: u32,
	pub ty: Ty,
	pub inc: Vec<(Opnd, u32)>,
}
#[derive(Debug, Default)]
pub struct Block {
	pub phis: Vec<Phi>,
	pub ins: Vec<Ins>,
}
#[derive(Debug)]
pub struct Func {
	pub name: String,
	pub params: Vec<(u32, Ty, Option<u64>)>,
	pub blocks: Vec<Block>,
	pub nregs: u32,
}
pub struct Module {
	pub text: String,
	pub fdefs: HashMap<String, (usize, usize)>,
	pub fdecls: std::collections::HashSet<String>,
	pub gdefs: HashMap<String, (usize, usize)>,
	pub types: HashMap<String, String>,
	pub aliases: HashMap<String, String>,
	pub funcs: HashMap<String, Rc<Func>>,
	pub fn_ids: HashMap<String, u64>,
	pub fn_names: Vec<String>,
	pub g_ids: HashMap<String, u32>, // global name -> object id
	pub g_names: Vec<String>,
}
pub const FN_BASE: u64 = 0x7f00_0000_0000_0000;
pub const OBJ_SHIFT: u32 = 32;
pub fn obj_base(id: u32) -> u64 {
	((id as u64) + 1) << OBJ_SHIFT
}

#[derive(Clone, Debug, PartialEq)]
enum T {
	Loc(String),
	Glob(String),
	Word(String),
	Num(String),
	Str(Vec<u8>),
	P(char),
	Meta,
	Attr,
	Eof,
}
fn ident_char(c: u8) -> bool {
	c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-'
}
fn lex(s: &[u8]) -> Vec<T> {
	let mut i = 0;
	let mut out = vec![];
	while i < s.len() {
		let c = s[i];
		match c {
			b' ' | b'\t' | b'\n' | b'\r' => i += 1,
			b';' => {
				while i < s.len() && s[i] != b'\n' {
					i += 1;
				}
			},
			b'%' | b'@' => {
				i += 1;
				let name;
				if i < s.len() && s[i] == b'"' {
					let st = i + 1;
					i += 1;
					while s[i] != b'"' {
						i += 1;
					}
					name = String::from_utf8_lossy(&s[st..i]).into_owned();
					i += 1;
				} else {
					let st = i;
					while i < s.len() && ident_char(s[i]) {
						i += 1;
					}
					name = String::from_utf8_lossy(&s[st..i]).into_owned();
				}
				out.push(if c == b'%' { T::Loc(name) } else { T::Glob(name) });
			},
			b'!' => {
				i += 1;
				while i < s.len() && ident_char(s[i]) {
					i += 1;
				}
				out.push(T::Meta);
			},
			b'#' => {
				i += 1;
				while i < s.len() && ident_char(s[i]) {
					i += 1;
				}
				out.push(T::Attr);
			},
			b'"' => {
				let (b, n) = lex_str(&s[i..]);
				i += n;
				out.push(T::Str(b));
			},
			b'c' if i + 1 < s.len() && s[i + 1] == b'"' => {
				let (b, n) = lex_str(&s[i + 1..]);
				i += n + 1;
				out.push(T::Word("c".into()));
				out.push(T::Str(b));
			},
			b'0'..=b'9' | b'-' => {
				let st = i;
				i += 1;
				while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'.' || s[i] == b'+' || (s[i] == b'-' && s[i - 1] == b'e')) {
					i += 1;
				}
				out.push(T::Num(String::from_utf8_lossy(&s[st..i]).into_owned()));
			},
			_ if ident_char(c) => {
				let st = i;
				while i < s.len() && ident_char(s[i]) {
					i += 1;
				}
				out.push(T::Word(String::from_utf8_lossy(&s[st..i]).into_owned()));
			},
			_ => {
				out.push(T::P(c as char));
				i += 1;
			},
		}
	}
	out
}
fn lex_str(s: &[u8]) -> (Vec<u8>, usize) {
	let mut i = 1;
	let mut b = vec![];
	while s[i] != b'"' {
		if s[i] == b'\\' {
			if s[i + 1] == b'\\' {
				b.push(b'\\');
				i += 2;
			} else {
				let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
				b.push(u8::from_str_radix(h, 16).unwrap());
				i += 3;
			}
		} else {
			b.push(s[i]);
			i += 1;
		}
	}
	(b, i + 1)
}
pub struct Ps<'a> {
	t: Vec<T>,
	i: usize,
	m: &'a mut Module,
	regs: HashMap<String, u32>,
}
impl<'a> Ps<'a> {
	fn peek(&self) -> &T {
		self.t.get(self.i).unwrap_or(&T::Eof)
	}
	fn peek_n(&self, k: usize) -> &T {
		self.t.get(self.i + k).unwrap_or(&T::Eof)
	}
	fn next(&mut self) -> T {
		let t = self.peek().clone();
		self.i += 1;
		t
	}
	fn isp(&self, c: char) -> bool {
		*self.peek() == T::P(c)
	}
	fn isw(&self, w: &str) -> bool {
		matches!(self.peek(), T::Word(x) if x == w)
	}
	fn eat(&mut self, c: char) -> bool {
		if self.isp(c) {
			self.i += 1;
			true
		} else {
			false
		}
	}
	fn eatw(&mut self, w: &str) -> bool {
		if self.isw(w) {
			self.i += 1;
			true
		} else {
			false
		}
	}
	fn exp(&mut self, c: char) {
		if !self.eat(c) {
			panic!("expected {:?} got {:?} near {:?}", c, self.peek(), &self.t[self.i.saturating_sub(12)..(self.i + 6).min(self.t.len())]);
		}
	}
	fn reg(&mut self, n: &str) -> u32 {
		let k = self.regs.len() as u32;
		*self.regs.entry(n.to_string()).or_insert(k)
	}
	fn ty(&mut self) -> Ty {
		let t = self.next();
		let base = match t {
			T::Word(w) => match w.as_str() {
				"void" => Ty::Void,
				"ptr" => {
					if self.isw("addrspace") {
						self.i += 1;
						self.skip_paren();
					}
					Ty::Ptr
				},
				"float" => Ty::Float(32),
				"double" => Ty::Float(64),
				"half" => Ty::Float(16),
				"fp128" => Ty::Float(128),
				"label" => Ty::Label,
				"metadata" => Ty::Meta,
				"token" => Ty::Meta,
				_ if w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
				_ => panic!("type? {} near {:?}", w, &self.t[self.i.saturating_sub(10)..(self.i + 6).min(self.t.len())]),
			},
			T::Loc(n) => {
				let def = self.m.types.get(&n).unwrap_or_else(|| panic!("type %{}", n)).clone();
				let toks = lex(def.as_bytes());
				let st = std::mem::replace(&mut self.t, toks);
				let i = std::mem::replace(&mut self.i, 0);
				let t = self.ty();
				self.t = st;
				self.i = i;
				t
			},
			T::P('[') => {
				let n = match self.next() {
					T::Num(n) => n.parse().unwrap(),
					x => panic!("arr {:?}", x),
				};
				assert!(self.eatw("x"));
				let t = self.ty();
				self.exp(']');
				Ty::Arr(n, Rc::new(t))
			},
			T::P('<') => {
				if self.isp('{') {
					let t = self.ty();
					self.exp('>');
					if let Ty::Struct(f, _) = t {
						Ty::Struct(f, true)
					} else {
						unreachable!()
					}
				} else {
					let n = match self.next() {
						T::Num(n) => n.parse().unwrap(),
						x => panic!("vec {:?}", x),
					};
					assert!(self.eatw("x"));
					let t = self.ty();
					self.exp('>');
					Ty::Vec(n, Rc::new(t))
				}
			},
			T::P('{') => {
				let mut f = vec![];
				while !self.eat('}') {
					f.push(self.ty());
					self.eat(',');
				}
				Ty::Struct(Rc::new(f), false)
			},
			x => panic!("type tok {:?} near {:?}", x, &self.t[self.i.saturating_sub(10)..(self.i + 6).min(self.t.len())]),
		};
		base
	}
	fn skip_paren(&mut self) {
		self.exp('(');
		let mut d = 1;
		while d > 0 {
			match self.next() {
				T::P('(') => d += 1,
				T::P(')') => d -= 1,
				T::Eof => panic!("eof in paren"),
				_ => {},
			}
		}
	}
	/// skip parameter / return attributes; returns byval size and sret ignored
	fn attrs(&mut self) -> Option<u64> {
		let mut byval = None;
		loop {
			match self.peek().clone() {
				T::Word(w) => match w.as_str() {
					"true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "c" | "getelementptr" | "ptrtoint" | "inttoptr"
					| "trunc" | "sub" | "add" | "asm" | "splat" | "bitcast" | "none" | "blockaddress" | "dso_local_equivalent" => return byval,
					"void" | "ptr" | "float" | "double" | "half" => return byval,
					_ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()) => return byval,
					"align" | "alignstack" | "dereferenceable" if !matches!(self.peek_n(1), T::P('(')) => {
						self.i += 2;
					},
					"byval" => {
						self.i += 1;
						self.exp('(');
						let t = self.ty();
						self.exp(')');
						byval = Some(t.size());
					},
					_ => {
						self.i += 1;
						if self.isp('(') {
							self.skip_paren();
						}
					},
				},
				T::Str(_) => {
					self.i += 1;
					if self.eat('=') {
						self.i += 1;
					}
				},
				T::Attr => self.i += 1,
				_ => return byval,
			}
		}
	}
	fn int(s: &str, w: u32) -> E {
		let (neg, d) = if let Some(r) = s.strip_prefix('-') { (true, r) } else { (false, s) };
		let mut v = W::parse_dec(d);
		if neg {
			v = v.neg();
		}
		konst(w, v)
	}
	fn zero(t: &Ty) -> Val {
		match t {
			Ty::Int(n) if *n > 256 => Val::Undef,
			Ty::Int(_) | Ty::Ptr | Ty::Float(_) => Val::E(konst(t.bits(), W::ZERO)),
			_ => Val::Agg(Rc::new((0..t.nfields()).map(|i| Self::zero(&t.field(i))).collect())),
		}
	}
	fn cval(&mut self, t: &Ty) -> Val {
		match self.opnd(t) {
			Opnd::C(v) => v,
			Opnd::Reg(_) => panic!("non-const"),
		}
	}
	fn cu64(v: &Val) -> u64 {
		match v {
			Val::E(e) => is_const(*e).expect("const expr").lo as u64,
			_ => panic!("cu64"),
		}
	}
	fn opnd(&mut self, t: &Ty) -> Opnd {
		let tok = self.next();
		let v = match tok {
			T::Loc(n) => return Opnd::Reg(self.reg(&n)),
			T::Num(s) => match t {
				Ty::Int(w) => Val::E(Self::int(&s, *w)),
				Ty::Float(w) => Val::E(konst(*w, W::ZERO)),
				Ty::Ptr => Val::E(Self::int(&s, 64)),
				_ => panic!("num for {:?}", t),
			},
			T::Glob(n) => Val::E(ku(64, self.m.addr_of(&n))),
			T::Word(w) => match w.as_str() {
				"true" => Val::E(ku(1, 1)),
				"false" => Val::E(ku(1, 0)),
				"null" => Val::E(ku(64, 0)),
				"undef" | "poison" => {
					if t.is_agg() {
						Val::Agg(Rc::new(vec![Val::Undef; t.nfields()]))
					} else {
						Val::Undef
					}
				},
				"zeroinitializer" | "none" => Self::zero(t),
				"c" => match self.next() {
					T::Str(b) => Val::Agg(Rc::new(b.iter().map(|x| Val::E(byte_const(*x))).collect())),
					x => panic!("c {:?}", x),
				},
				"splat" => {
					self.exp('(');
					let et = self.ty();
					let v = self.cval(&et);
					self.exp(')');
					Val::Agg(Rc::new(vec![v; t.nfields()]))
				},
				"getelementptr" => {
					while !self.isp('(') {
						self.i += 1;
						// inrange(...) handled below
						if matches!(self.t.get(self.i - 1), Some(T::Word(w)) if w == "inrange") {
							self.skip_paren();
						}
					}
					self.exp('(');
					let et = self.ty();
					self.exp(',');
					let pt = self.ty();
					let p = self.cval(&pt);
					let mut a = Self::cu64(&p);
					let mut cur = et.clone();
					let mut first = true;
					while self.eat(',') {
						let it = self.ty();
						let iv = self.cval(&it);
						let k = match iv {
							Val::E(e) => is_const(e).unwrap().sext(it.bits()).lo as i128 as i64,
							_ => 0,
						};
						if first {
							a = a.wrapping_add((k as u64).wrapping_mul(et.size()));
							first = false;
						} else {
							a = a.wrapping_add(match &cur {
								Ty::Struct(..) => cur.field_off(k as usize),
								_ => (cur.field(0).size() as i64).wrapping_mul(k) as u64,
							});
							cur = cur.field(if matches!(cur, Ty::Struct(..)) { k as usize } else { 0 });
						}
					}
					self.exp(')');
					Val::E(ku(64, a))
				},
				"ptrtoint" | "inttoptr" | "bitcast" | "trunc" => {
					self.exp('(');
					let st = self.ty();
					let v = self.cval(&st);
					assert!(self.eatw("to"));
					let dt = self.ty();
					self.exp(')');
					match v {
						Val::E(e) => {
							let x = is_const(e).unwrap();
							if w == "trunc" && st.bits() == 64 && dt.bits() == 32 && (x.lo >> 32) as u32 != 0 {
								// an entry of a relative lookup table: the distance of two objects, which does not fit
								// here; kept as the difference of their ids (see load.relative)
								assert!(x.lo as u32 == 0, "relative table entry with an offset");
								return Opnd::C(Val::E(ku(32, (x.lo >> 32) as u32 as u64)));
							}
							Val::E(konst(dt.bits(), x))
						},
						v => v,
					}
				},
				"sub" | "add" => {
					self.attrs_until_paren();
					self.exp('(');
					let t1 = self.ty();
					let a = self.cval(&t1);
					self.exp(',');
					let t2 = self.ty();
					let b = self.cval(&t2);
					self.exp(')');
					match (a, b) {
						(Val::E(a), Val::E(b)) => Val::E(if w == "sub" { sub(a, b) } else { add(a, b) }),
						_ => Val::Undef,
					}
				},
				_ => panic!("operand word {} type {:?} near {:?}", w, t, &self.t[self.i.saturating_sub(10)..(self.i + 6).min(self.t.len())]),
			},
			T::P('<') if self.isp('{') => {
				self.i += 1;
				let v = self.agg('}');
				self.exp('>');
				v
			},
			T::P('{') => self.agg('}'),
			T::P('[') => self.agg(']'),
			T::P('<') => self.agg('>'),
			x => panic!("operand {:?} near {:?}", x, &self.t[self.i.saturating_sub(14)..(self.i + 6).min(self.t.len())]),
		};
		Opnd::C(v)
	}
	fn attrs_until_paren(&mut self) {
		while !self.isp('(') {
			self.i += 1;
		}
	}
	fn agg(&mut self, close: char) -> Val {
		let mut v = vec![];
		while !self.eat(close) {
			let t = self.ty();
			v.push(self.cval(&t));
			self.eat(',');
		}
		Val::Agg(Rc::new(v))
	}
	fn tv(&mut self) -> (Ty, Opnd) {
		let t = self.ty();
		self.attrs();
		let o = self.opnd(&t);
		(t, o)
	}
	fn label(&mut self) -> String {
		assert!(self.eatw("label"));
		match self.next() {
			T::Loc(n) => n,
			x => panic!("label {:?}", x),
		}
	}
	fn flags(&mut self, fl: &[&str]) -> bool {
		let mut dis = false;
		loop {
			match self.peek() {
				T::Word(w) if fl.contains(&w.as_str()) => {
					if w == "disjoint" {
						dis = true;
					}
					self.i += 1;
					// fast-math style never has parens; inrange does
					if self.isp('(') {
						self.skip_paren();
					}
				},
				_ => return dis,
			}
		}
	}
}
const FL: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "volatile", "inrange", "fast", "nnan", "ninf", "nsz"];
impl Module {
	pub fn load(path: &str) -> Module {
		let text = std::fs::read_to_string(path).expect("read ll");
		let mut m = Module {
			text: String::new(),
			fdefs: HashMap::new(),
			fdecls: Default::default(),
			gdefs: HashMap::new(),
			types: HashMap::new(),
			aliases: HashMap::new(),
			funcs: HashMap::new(),
			fn_ids: HashMap::new(),
			fn_names: vec![],
			g_ids: HashMap::new(),
			g_names: vec![],
		};
		let b = text.as_bytes();
		let mut i = 0;
		while i < b.len() {
			let e = memchr(b, i, b'\n');
			let line = &text[i..e];
			if line.starts_with("define ") {
				let name = fname(line);
				// find closing "\n}"
				let mut j = e;
				loop {
					let e2 = memchr(b, j + 1, b'\n');
					if b[j + 1] == b'}' {
						j = e2;
						break;
					}
					j = e2;
				}
				m.fdefs.insert(name, (i, j));
				i = j + 1;
				continue;
			} else if line.starts_with("declare ") {
				m.fdecls.insert(fname(line));
			} else if line.starts_with('@') {
				let name = gname(line);
				if line.contains(" alias ") && !line.contains("constant") {
					let tgt = line.rfind('@').map(|k| gname(&line[k..])).unwrap_or_default();
					m.aliases.insert(name, tgt);
				} else {
					m.gdefs.insert(name, (i, e));
				}
			} else if line.starts_with('%') {
				if let Some(k) = line.find(" = type ") {
					let mut n = line[1..k].to_string();
					if n.starts_with('"') {
						n = n.trim_matches('"').to_string();
					}
					m.types.insert(n, line[k + 8..].to_string());
				}
			}
			i = e + 1;
		}
		m.text = text;
		m
	}
	pub fn addr_of(&mut self, n: &str) -> u64 {
		let n = self.aliases.get(n).cloned().unwrap_or_else(|| n.to_string());
		if self.gdefs.contains_key(&n) {
			let k = self.g_ids.len() as u32;
			let id = *self.g_ids.entry(n.clone()).or_insert(k);
			if id == k {
				self.g_names.push(n);
			}
			obj_base(id)
		} else {
			let k = self.fn_ids.len() as u64;
			let id = *self.fn_ids.entry(n.clone()).or_insert(k);
			if id == k {
				self.fn_names.push(n);
			}
			FN_BASE + id * 16
		}
	}
	/// (type, initializer, is_const)
	pub fn global(&mut self, n: &str) -> (Ty, Val, bool) {
		let (a, b) = self.gdefs[n];
		let line = self.text[a..b].to_string();
		let toks = lex(line.as_bytes());
		let mut p = Ps { t: toks, i: 0, m: self, regs: HashMap::new() };
		p.next();
		p.exp('=');
		let mut ext = false;
		let mut cst = false;
		loop {
			match p.peek().clone() {
				T::Word(w) if w == "global" || w == "constant" => {
					cst = w == "constant";
					p.i += 1;
					break;
				},
				T::Word(w) => {
					if w == "external" || w == "extern_weak" {
						ext = true;
					}
					p.i += 1;
					if p.isp('(') {
						p.skip_paren();
					}
				},
				T::Attr => p.i += 1,
				x => panic!("global {:?} {}", x, line),
			}
		}
		let t = p.ty();
		let v = if ext || p.isp(',') || *p.peek() == T::Eof { Val::Undef } else { p.cval(&t) };
		(t, v, cst)
	}
	pub fn func(&mut self, name: &str) -> Option<Rc<Func>> {
		let name = self.aliases.get(name).cloned().unwrap_or_else(|| name.to_string());
		if let Some(f) = self.funcs.get(&name) {
			return Some(f.clone());
		}
		let (a, b) = *self.fdefs.get(&name)?;
		let text = self.text[a..b].to_string();
		let f = Rc::new(self.parse_func(&name, &text));
		self.funcs.insert(name, f.clone());
		Some(f)
	}
	fn parse_func(&mut self, name: &str, text: &str) -> Func {
		let mut lines = text.lines();
		let head = lines.next().unwrap();
		let mut p = Ps { t: lex(head.as_bytes()), i: 0, m: self, regs: HashMap::new() };
		// find the Glob token = name
		while !matches!(p.peek(), T::Glob(_)) {
			p.i += 1;
		}
		p.i += 1;
		p.exp('(');
		let mut params = vec![];
		let mut unnamed = 0;
		while !p.eat(')') {
			if p.eat('.') {
				continue;
			}
			if p.isw("...") {
				p.i += 1;
				continue;
			}
			let t = p.ty();
			let bv = p.attrs();
			let r = match p.peek().clone() {
				T::Loc(n) => {
					p.i += 1;
					if n.parse::<u32>().is_ok() {
						unnamed += 1;
					}
					p.reg(&n)
				},
				_ => {
					let n = unnamed.to_string();
					unnamed += 1;
					p.reg(&n)
				},
			};
			params.push((r, t, bv));
			p.eat(',');
		}
		// body: gather logical instructions
		let mut blocks: Vec<Block> = vec![];
		let mut names: HashMap<String, u32> = HashMap::new();
		let mut raw: Vec<Vec<String>> = vec![];
		let mut acc = String::new();
		for l in lines {
			let tr = l.trim_end();
			if tr.is_empty() {
				continue;
			}
			let fb = tr.as_bytes()[0];
			if fb == b';' || fb == b'}' && acc.is_empty() {
				continue;
			}
			if fb != b' ' && acc.is_empty() {
				// label
				let lab = match tr.find(':') {
					Some(k) => tr[..k].trim_matches('"').to_string(),
					None => continue,
				};
				names.insert(lab, raw.len() as u32);
				raw.push(vec![]);
				continue;
			}
			if raw.is_empty() {
				names.insert(unnamed.to_string(), 0);
				raw.push(vec![]);
			}
			let tl = tr.trim_start();
			if tl.starts_with("#dbg") || tl.starts_with(';') {
				continue;
			}
			if !acc.is_empty() {
				acc.push(' ');
				acc.push_str(tl);
				if tl.starts_with(']') {
					raw.last_mut().unwrap().push(std::mem::take(&mut acc));
				}
				continue;
			}
			if tl.starts_with("switch ") && !tl.contains(']') {
				acc = tl.to_string();
				continue;
			}
			// continuation lines of invoke / landingpad
			if tl.starts_with("to label ") || tl.starts_with("cleanup") || tl.starts_with("catch ") || tl.starts_with("filter ") {
				let last = raw.last_mut().unwrap().last_mut().unwrap();
				last.push(' ');
				last.push_str(tl);
				continue;
			}
			raw.last_mut().unwrap().push(tl.to_string());
		}
		for b in raw {
			let mut blk = Block::default();
			for l in b {
				p.t = lex(l.as_bytes());
				p.i = 0;
				p.ins(&names, &mut blk, &l);
			}
			blocks.push(blk);
		}
		let nregs = p.regs.len() as u32;
		Func { name: name.to_string(), params, blocks, nregs }
	}
}
fn memchr(b: &[u8], from: usize, c: u8) -> usize {
	b[from..].iter().position(|x| *x == c).map(|k| k + from).unwrap_or(b.len())
}
fn gname(line: &str) -> String {
	let s = &line[1..];
	if let Some(r) = s.strip_prefix('"') {
		r[..r.find('"').unwrap()].to_string()
	} else {
		s.bytes().take_while(|c| ident_char(*c)).map(|c| c as char).collect()
	}
}
fn fname(line: &str) -> String {
	gname(&line[line.find('@').unwrap()..])
}
fn op2(w: &str) -> Option<Op2> {
	Some(match w {
		"add" => Op2::Add,
		"sub" => Op2::Sub,
		"mul" => Op2::Mul,
		"udiv" => Op2::UDiv,
		"sdiv" => Op2::SDiv,
		"urem" => Op2::URem,
		"srem" => Op2::SRem,
		"and" => Op2::And,
		"or" => Op2::Or,
		"xor" => Op2::Xor,
		"shl" => Op2::Shl,
		"lshr" => Op2::LShr,
		"ashr" => Op2::AShr,
		_ => return None,
	})
}
impl<'a> Ps<'a> {
	fn ins(&mut self, names: &HashMap<String, u32>, blk: &mut Block, line: &str) {
		let lab = |n: &str| *names.get(n).unwrap_or_else(|| panic!("label {} in {}", n, line));
		let mut dst = None;
		if let (T::Loc(n), T::P('=')) = (self.peek().clone(), self.peek_n(1).clone()) {
			dst = Some(self.reg(&n));
			self.i += 2;
		}
		let w = match self.next() {
			T::Word(w) => w,
			x => panic!("ins {:?}: {}", x, line),
		};
		let d = dst.unwrap_or(u32::MAX);
		if let Some(op) = op2(&w) {
			let dis = self.flags(FL);
			let t = self.ty();
			let a = self.opnd(&t);
			self.exp(',');
			let b = self.opnd(&t);
			blk.ins.push(Ins::Bin(op, d, t, a, b, dis as u8));
			return;
		}
		let ins = match w.as_str() {
			"icmp" => {
				self.flags(FL);
				let pr = match self.next() {
					T::Word(w) => match w.as_str() {
						"eq" => Pred::Eq,
						"ne" => Pred::Ne,
						"ult" => Pred::Ult,
						"ule" => Pred::Ule,
						"ugt" => Pred::Ugt,
						"uge" => Pred::Uge,
						"slt" => Pred::Slt,
						"sle" => Pred::Sle,
						"sgt" => Pred::Sgt,
						"sge" => Pred::Sge,
						_ => panic!("pred"),
					},
					_ => panic!("pred"),
				};
				let t = self.ty();
				let a = self.opnd(&t);
				self.exp(',');
				let b = self.opnd(&t);
				Ins::Icmp(pr, d, t, a, b)
			},
			"zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
				self.flags(FL);
				let (t, o) = self.tv();
				assert!(self.eatw("to"));
				let t2 = self.ty();
				let k = match w.as_str() {
					"zext" => CastK::Zext,
					"sext" => CastK::Sext,
					"trunc" => CastK::Trunc,
					_ => {
						if t.is_agg() || t2.is_agg() {
							if t == t2 {
								CastK::Same
							} else {
								blk.ins.push(Ins::Unsupported(line.into()));
								return;
							}
						} else if t.bits() < t2.bits() {
							CastK::Zext
						} else if t.bits() > t2.bits() {
							CastK::Trunc
						} else {
							CastK::Same
						}
					},
				};
				Ins::Cast(k, d, t, o, t2)
			},
			"select" => {
				self.flags(FL);
				let (ct, c) = self.tv();
				self.exp(',');
				let (t, a) = self.tv();
				self.exp(',');
				let (_, b) = self.tv();
				Ins::Select(d, c, t, a, b, ct.is_agg())
			},
			"load" => {
				self.eatw("atomic");
				self.eatw("volatile");
				let t = self.ty();
				self.exp(',');
				let (_, p) = self.tv();
				Ins::Load(d, t, p)
			},
			"store" => {
				self.eatw("atomic");
				self.eatw("volatile");
				let (t, v) = self.tv();
				self.exp(',');
				let (_, p) = self.tv();
				Ins::Store(t, v, p)
			},
			"alloca" => {
				self.eatw("inalloca");
				let t = self.ty();
				let mut n = 1;
				if self.eat(',') && !self.isw("align") && !matches!(self.peek(), T::Meta) {
					let it = self.ty();
					n = Ps::cu64(&self.cval(&it));
				}
				Ins::Alloca(d, t.size() * n)
			},
			"getelementptr" => {
				self.flags(FL);
				let t = self.ty();
				self.exp(',');
				let (_, p) = self.tv();
				let mut ix = vec![];
				while self.eat(',') {
					if matches!(self.peek(), T::Meta) {
						break;
					}
					ix.push(self.tv());
				}
				Ins::Gep(d, t, p, ix)
			},
			"phi" => {
				self.flags(FL);
				let t = self.ty();
				let mut inc = vec![];
				loop {
					self.exp('[');
					let v = self.opnd(&t);
					self.exp(',');
					let l = match self.next() {
						T::Loc(n) => n,
						x => panic!("phi {:?}", x),
					};
					self.exp(']');
					inc.push((v, lab(&l)));
					if !self.eat(',') || !self.isp('[') {
						break;
					}
				}
				blk.phis.push(Phi { dst: d, ty: t, inc });
				return;
			},
			"br" => {
				if self.isw("label") {
					let l = self.label();
					Ins::Br(lab(&l))
				} else {
					let (_, c) = self.tv();
					self.exp(',');
					let a = self.label();
					self.exp(',');
					let b = self.label();
					Ins::CondBr(c, lab(&a), lab(&b))
				}
			},
			"switch" => {
				let (t, v) = self.tv();
				self.exp(',');
				let dl = self.label();
				self.exp('[');
				let mut cs = vec![];
				while !self.eat(']') {
					let ct = self.ty();
					let cv = self.cval(&ct);
					self.exp(',');
					let l = self.label();
					if let Val::E(e) = cv {
						cs.push((is_const(e).unwrap(), lab(&l)));
					}
				}
				Ins::Switch(t, v, lab(&dl), cs)
			},
			"ret" => {
				let t = self.ty();
				if t == Ty::Void {
					Ins::Ret(t, None)
				} else {
					self.attrs();
					let o = self.opnd(&t);
					Ins::Ret(t, Some(o))
				}
			},
			"unreachable" => Ins::Unreachable,
			"extractvalue" => {
				let (t, o) = self.tv();
				let mut ix = vec![];
				while self.eat(',') {
					if let T::Num(n) = self.peek().clone() {
						self.i += 1;
						ix.push(n.parse().unwrap());
					} else {
						break;
					}
				}
				Ins::ExtractV(d, o, t, ix)
			},
			"insertvalue" => {
				let (t, a) = self.tv();
				self.exp(',');
				let (_, b) = self.tv();
				let mut ix = vec![];
				while self.eat(',') {
					if let T::Num(n) = self.peek().clone() {
						self.i += 1;
						ix.push(n.parse().unwrap());
					} else {
						break;
					}
				}
				Ins::InsertV(d, t, a, b, ix)
			},
			"extractelement" => {
				let (t, a) = self.tv();
				self.exp(',');
				let (_, b) = self.tv();
				Ins::ExtractE(d, t, a, b)
			},
			"insertelement" => {
				let (t, a) = self.tv();
				self.exp(',');
				let (_, b) = self.tv();
				self.exp(',');
				let (_, c) = self.tv();
				Ins::InsertE(d, t, a, b, c)
			},
			"shufflevector" => {
				let (t, a) = self.tv();
				self.exp(',');
				let (_, b) = self.tv();
				self.exp(',');
				let (mt, mv) = self.tv();
				let mut mask = vec![];
				if let Opnd::C(Val::Agg(v)) = mv {
					for x in v.iter() {
						mask.push(match x {
							Val::E(e) => is_const(*e).unwrap().lo as i64,
							_ => -1,
						});
					}
				} else {
					mask = vec![0; mt.nfields()];
				}
				Ins::Shuffle(d, t, a, b, mask)
			},
			"freeze" => {
				let (t, a) = self.tv();
				Ins::Freeze(d, t, a)
			},
			"fence" => Ins::Fence,
			"atomicrmw" => {
				self.eatw("volatile");
				let op = match self.next() {
					T::Word(w) => w,
					_ => panic!(),
				};
				let (_, p) = self.tv();
				self.exp(',');
				let (t, v) = self.tv();
				Ins::Rmw(d, op, t, p, v)
			},
			"cmpxchg" => {
				self.eatw("weak");
				self.eatw("volatile");
				let (_, p) = self.tv();
				self.exp(',');
				let (t, a) = self.tv();
				self.exp(',');
				let (_, b) = self.tv();
				Ins::CmpXchg(d, t, p, a, b)
			},
			"tail" | "musttail" | "notail" | "call" | "invoke" => {
				if w != "call" && w != "invoke" {
					self.next();
				}
				// calling conv / fast-math / ret attrs, then type
				loop {
					let tok = self.peek().clone();
					match tok {
						T::Word(x) => {
							if x == "void" || x == "ptr" || x == "float" || x == "double" || x == "half"
								|| (x.starts_with('i') && x.len() > 1 && x[1..].bytes().all(|b| b.is_ascii_digit()))
							{
								break;
							}
							self.i += 1;
							if x == "align" && !self.isp('(') {
								self.i += 1;
							}
							if self.isp('(') {
								self.skip_paren();
							}
						},
						T::Attr | T::Meta => self.i += 1,
						_ => break,
					}
				}
				let ret = self.ty();
				// optional function type "(ptr, i64) "
				if self.isp('(') {
					self.skip_paren();
				}
				let callee = match self.next() {
					T::Glob(n) => Callee::Direct(self.m.aliases.get(&n).cloned().unwrap_or(n)),
					T::Loc(n) => Callee::Ind(Opnd::Reg(self.reg(&n))),
					T::Word(x) if x == "asm" => {
						// asm [sideeffect ...] "..", ".."(args)
						while !self.isp('(') {
							self.i += 1;
						}
						Callee::Asm
					},
					T::Word(x) if x == "inttoptr" || x == "null" || x == "poison" || x == "undef" => {
						blk.ins.push(Ins::Unsupported(line.into()));
						return;
					},
					x => panic!("callee {:?} in {}", x, line),
				};
				self.exp('(');
				let mut args = vec![];
				while !self.eat(')') {
					let t = self.ty();
					if t == Ty::Meta {
						let mut dep = 0;
						loop {
							match self.peek() {
								T::P('(') => dep += 1,
								T::P(')') if dep == 0 => break,
								T::P(')') => dep -= 1,
								T::P(',') if dep == 0 => break,
								T::Eof => break,
								_ => {},
							}
							self.i += 1;
						}
						self.eat(',');
						continue;
					}
					let bv = self.attrs();
					let o = self.opnd(&t);
					args.push((t, o, bv));
					self.eat(',');
				}
				let mut normal = None;
				if w == "invoke" {
					while !self.isw("to") {
						if *self.peek() == T::Eof {
							panic!("invoke {}", line);
						}
						self.i += 1;
					}
					self.i += 1;
					let l = self.label();
					normal = Some(lab(&l));
				}
				Ins::Call { dst, ret, callee, args, normal }
			},
			_ => Ins::Unsupported(line.into()),
		};
		blk.ins.push(ins);
	}
}
