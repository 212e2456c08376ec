//! A rustc driver that behaves as rustc and, for the crate named in `MIRDUMP_CRATE`, also writes the
//! monomorphised MIR of everything reachable from that crate's harness functions (names starting with
//! `MIRDUMP_PREFIX`, default `h_`) as JSON to `MIRDUMP_OUT`.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, LayoutShape, Primitive, Scalar, TagEncoding, ValueRepr, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::run_with_tcx;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

#[derive(Default)]
struct Dump {
	tys: HashMap<Ty, usize>,
	ty_json: Vec<String>,
	insts: HashMap<Instance, usize>,
	inst_json: Vec<String>,
	queue: VecDeque<(Instance, usize)>,
	statics: HashMap<rustc_public::mir::mono::StaticDef, usize>,
	static_json: Vec<String>,
	stop: Vec<String>,
}

impl Dump {
	fn ty(&mut self, t: Ty) -> usize {
		if let Some(i) = self.tys.get(&t) {
			return *i;
		}
		let id = self.ty_json.len();
		self.tys.insert(t, id);
		self.ty_json.push(String::new());
		let j = self.ty_desc(t);
		self.ty_json[id] = j;
		id
	}
	fn list(&mut self, ts: &[Ty]) -> String {
		let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
		format!("[{}]", v.join(","))
	}
	fn ty_desc(&mut self, t: Ty) -> String {
		let kind = t.kind();
		let (size, align) = match t.layout() {
			Ok(l) => {
				let s = l.shape();
				if s.is_sized() {
					(s.size.bytes() as i64, s.abi_align as i64)
				} else {
					(-1, s.abi_align as i64)
				}
			}
			Err(_) => (-2, 1),
		};
		let base = format!("\"sz\":{},\"al\":{},\"n\":{}", size, align, esc(&format!("{}", t)));
		let TyKind::RigidTy(r) = kind else {
			return format!("{{\"k\":\"other\",{}}}", base);
		};
		match r {
			RigidTy::Bool => format!("{{\"k\":\"bool\",{}}}", base),
			RigidTy::Char => format!("{{\"k\":\"char\",{}}}", base),
			RigidTy::Int(i) => format!("{{\"k\":\"int\",\"b\":{},{}}}", i.num_bytes() * 8, base),
			RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"b\":{},{}}}", i.num_bytes() * 8, base),
			RigidTy::Float(_) => format!("{{\"k\":\"float\",{}}}", base),
			RigidTy::Adt(def, args) => {
				let k = match def.kind() {
					AdtKind::Enum => "enum",
					AdtKind::Struct => "struct",
					AdtKind::Union => "union",
				};
				let mut vs = vec![];
				for v in def.variants() {
					let fs: Vec<Ty> = v.fields().iter().map(|f| f.ty_with_args(&args)).collect();
					let names: Vec<String> = v.fields().iter().map(|f| esc(&f.name)).collect();
					let d = if matches!(def.kind(), AdtKind::Enum) {
						def.discriminant_for_variant(v.idx()).val.to_string()
					} else {
						"0".into()
					};
					let fl = self.list(&fs);
					vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{},\"fn\":[{}]}}", esc(&v.name()), d, fl, names.join(",")));
				}
				let targs: Vec<String> = args
					.0
					.iter()
					.filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None })
					.map(|t| self.ty(t).to_string())
					.collect();
				format!(
					"{{\"k\":\"{}\",\"v\":[{}],\"ta\":[{}],\"p\":{},{}}}",
					k,
					vs.join(","),
					targs.join(","),
					esc(&def.name()),
					base
				)
			}
			RigidTy::Str => format!("{{\"k\":\"str\",{}}}", base),
			RigidTy::Array(e, n) => {
				let n = n.eval_target_usize().map(|x| x as i128).unwrap_or(-1);
				let e = self.ty(e);
				format!("{{\"k\":\"array\",\"e\":{},\"len\":{},{}}}", e, n, base)
			}
			RigidTy::Slice(e) => {
				let e = self.ty(e);
				format!("{{\"k\":\"slice\",\"e\":{},{}}}", e, base)
			}
			RigidTy::RawPtr(e, _) => {
				let e = self.ty(e);
				format!("{{\"k\":\"ptr\",\"e\":{},{}}}", e, base)
			}
			RigidTy::Ref(_, e, _) => {
				let e = self.ty(e);
				format!("{{\"k\":\"ref\",\"e\":{},{}}}", e, base)
			}
			RigidTy::FnDef(def, args) => {
				let i = match Instance::resolve(def, &args) {
					Ok(i) => self.inst(i) as i64,
					Err(_) => -1,
				};
				format!("{{\"k\":\"fndef\",\"i\":{},{}}}", i, base)
			}
			RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",{}}}", base),
			RigidTy::Closure(_, args) => {
				// upvars: last generic arg is the tuple of captured types
				let mut ups = "[]".to_string();
				if let Some(GenericArgKind::Type(t)) = args.0.last() {
					if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
						ups = self.list(&ts);
					}
				}
				format!("{{\"k\":\"closure\",\"f\":{},{}}}", ups, base)
			}
			RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",{}}}", base),
			RigidTy::Never => format!("{{\"k\":\"never\",{}}}", base),
			RigidTy::Tuple(ts) => {
				let l = self.list(&ts);
				format!("{{\"k\":\"tuple\",\"f\":{},{}}}", l, base)
			}
			RigidTy::Pat(inner, _) => {
				let e = self.ty(inner);
				format!("{{\"k\":\"pat\",\"e\":{},{}}}", e, base)
			}
			_ => format!("{{\"k\":\"other\",{}}}", base),
		}
	}

	fn inst(&mut self, i: Instance) -> usize {
		if let Some(id) = self.insts.get(&i) {
			return *id;
		}
		let id = self.inst_json.len();
		self.insts.insert(i, id);
		self.inst_json.push(String::new());
		self.queue.push_back((i, id));
		id
	}

	fn stopped(&self, name: &str) -> bool {
		self.stop.iter().any(|s| name.contains(s.as_str()))
	}

	fn emit_inst(&mut self, i: Instance, id: usize) {
		let name = i.name();
		let intr = i.intrinsic_name();
		let kind = match i.kind {
			InstanceKind::Item => "item".to_string(),
			InstanceKind::Intrinsic => "intrinsic".to_string(),
			InstanceKind::LlvmIntrinsic => "llvm".to_string(),
			InstanceKind::Virtual { idx } => format!("virtual{}", idx),
			InstanceKind::Shim => "shim".to_string(),
		};
		let targs: Vec<Ty> = i
			.args()
			.0
			.iter()
			.filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None })
			.collect();
		let cargs: Vec<String> = i
			.args()
			.0
			.iter()
			.filter_map(|a| {
				if let GenericArgKind::Const(c) = a {
					Some(match c.kind() {
						TyConstKind::Value(_, al) => al.read_uint().map(|x| x.to_string()).unwrap_or("null".into()),
						_ => "null".into(),
					})
				} else {
					None
				}
			})
			.collect();
		let is_closure = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
		let targs = self.list(&targs);
		let mut s = format!(
			"{{\"n\":{},\"m\":{},\"k\":\"{}\",\"ta\":{},\"ca\":[{}],\"cl\":{},\"in\":{}",
			esc(&name),
			esc(&i.mangled_name()),
			kind,
			targs,
			cargs.join(","),
			is_closure,
			intr.as_ref().map(|x| esc(x)).unwrap_or("null".into())
		);
		let file = i.def.span().get_filename();
		let _ = write!(s, ",\"file\":{}", esc(&file));
		let want = !self.stopped(&name) && !matches!(i.kind, InstanceKind::Virtual { .. });
		if want {
			if let Some(b) = i.body() {
				let locals: Vec<Ty> = b.locals().iter().map(|l| l.ty).collect();
				let l = self.list(&locals);
				let _ = write!(s, ",\"l\":{},\"ac\":{},\"sp\":{}", l, b.arg_locals().len(), b.spread_arg().map(|x| x as i64).unwrap_or(-1));
				let mut bl = vec![];
				for bb in &b.blocks {
					let mut st = vec![];
					for x in &bb.statements {
						if let Some(j) = self.stmt(x, b.locals()) {
							st.push(j);
						}
					}
					let t = self.term(&bb.terminator, b.locals());
					bl.push(format!("{{\"s\":[{}],\"t\":{}}}", st.join(","), t));
				}
				let _ = write!(s, ",\"b\":[{}]", bl.join(",\n"));
			}
		}
		s.push('}');
		self.inst_json[id] = s;
	}

	fn place(&mut self, p: &Place) -> String {
		if p.projection.is_empty() {
			return format!("[{}]", p.local);
		}
		let mut v = vec![p.local.to_string()];
		for e in &p.projection {
			v.push(match e {
				ProjectionElem::Deref => "[\"*\"]".into(),
				ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
				ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
				ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
					format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
				}
				ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
				ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
				ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
			});
		}
		format!("[{}]", v.join(","))
	}

	fn op(&mut self, o: &Operand) -> String {
		match o {
			Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
			Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
			Operand::Constant(c) => {
				let t = c.const_.ty();
				let tid = self.ty(t);
				let v = self.konst(&c.const_);
				format!("[\"k\",{},{}]", tid, v)
			}
			Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
		}
	}

	fn konst(&mut self, c: &MirConst) -> String {
		match c.kind() {
			ConstantKind::Allocated(a) => self.read(c.ty(), a, 0),
			ConstantKind::ZeroSized => "[\"z\"]".into(),
			ConstantKind::Ty(tc) => match tc.kind() {
				TyConstKind::Value(t, a) => self.read(*t, a, 0),
				TyConstKind::ZSTValue(_) => "[\"z\"]".into(),
				k => format!("[\"x\",{}]", esc(&format!("{:?}", k))),
			},
			k => format!("[\"x\",{}]", esc(&format!("{:?}", k))),
		}
	}

	fn rd(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
		if n == 0 || n > 16 {
			return None;
		}
		a.read_partial_uint(off..off + n).ok()
	}

	fn prov(&self, a: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
		a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
	}

	fn scalar_size(&self, s: &Scalar) -> usize {
		let p = match s {
			Scalar::Initialized { value, .. } => value,
			Scalar::Union { value } => value,
		};
		match p {
			Primitive::Int { length, .. } => length.bits() / 8,
			Primitive::Float { .. } => 8,
			Primitive::Pointer(_) => 8,
		}
	}

	fn read(&mut self, t: Ty, a: &Allocation, off: usize) -> String {
		let Ok(l) = t.layout() else { return "[\"x\",\"nolayout\"]".into() };
		let sh = l.shape();
		let TyKind::RigidTy(r) = t.kind() else { return "[\"x\",\"kind\"]".into() };
		match r {
			RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match self.rd(a, off, sh.size.bytes()) {
				Some(v) => v.to_string(),
				None => "[\"u\"]".into(),
			},
			RigidTy::Pat(i, _) => self.read(i, a, off),
			RigidTy::Int(_) => match self.rd(a, off, sh.size.bytes()) {
				Some(v) => {
					let n = sh.size.bytes() as u32 * 8;
					let sv = if n == 128 { v as i128 } else { ((v << (128 - n)) as i128) >> (128 - n) };
					sv.to_string()
				}
				None => "[\"u\"]".into(),
			},
			RigidTy::Float(_) => match self.rd(a, off, sh.size.bytes()) {
				Some(v) => format!("[\"fl\",{}]", v),
				None => "[\"u\"]".into(),
			},
			RigidTy::Tuple(ts) => self.read_fields(&ts, &sh, a, off),
			RigidTy::Closure(_, args) => {
				if let Some(GenericArgKind::Type(t)) = args.0.last() {
					if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
						return self.read_fields(&ts, &sh, a, off);
					}
				}
				"[\"x\",\"closure\"]".into()
			}
			RigidTy::FnDef(..) => "[\"z\"]".into(),
			RigidTy::Array(e, n) => {
				let n = n.eval_target_usize().unwrap_or(0) as usize;
				let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
				if n > 4096 {
					return "[\"x\",\"bigarray\"]".into();
				}
				let v: Vec<String> = (0..n).map(|i| self.read(e, a, off + i * es)).collect();
				format!("[\"s\",[{}]]", v.join(","))
			}
			RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => self.read_ptr(e, a, off),
			RigidTy::FnPtr(_) => match self.prov(a, off) {
				Some(id) => match GlobalAlloc::from(id) {
					GlobalAlloc::Function(i) => format!("[\"fn\",{}]", self.inst(i)),
					_ => "[\"x\",\"fnptr\"]".into(),
				},
				None => "[\"x\",\"fnptr\"]".into(),
			},
			RigidTy::Adt(def, args) => match def.kind() {
				AdtKind::Struct => {
					let vs = def.variants();
					let ts: Vec<Ty> = vs[0].fields().iter().map(|f| f.ty_with_args(&args)).collect();
					self.read_fields(&ts, &sh, a, off)
				}
				AdtKind::Union => {
					let vs = def.variants();
					let ts: Vec<Ty> = vs[0].fields().iter().map(|f| f.ty_with_args(&args)).collect();
					let v: Vec<String> = ts
						.iter()
						.map(|t| {
							let n = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
							if n > 0 && a.bytes[off..off + n].iter().any(|b| b.is_none()) { "[\"u\"]".to_string() } else { self.read(*t, a, off) }
						})
						.collect();
					format!("[\"s\",[{}]]", v.join(","))
				}
				AdtKind::Enum => {
					let (idx, offs): (usize, Vec<usize>) = match &sh.variants {
						VariantsShape::Empty => return "[\"x\",\"empty\"]".into(),
						VariantsShape::Single { index } => {
							let o = match &sh.fields {
								FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
								_ => vec![],
							};
							(index.to_index(), o)
						}
						VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
							let toff = match &sh.fields {
								FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
								_ => 0,
							};
							let n = self.scalar_size(tag);
							let has_prov = self.prov(a, off + toff).is_some();
							let raw = self.rd(a, off + toff, n);
							let idx = match tag_encoding {
								TagEncoding::Direct => {
									let Some(raw) = raw else { return "[\"u\"]".into() };
									let mask = if n == 16 { u128::MAX } else { (1u128 << (n * 8)) - 1 };
									let mut f = None;
									for v in def.variants() {
										if def.discriminant_for_variant(v.idx()).val & mask == raw {
											f = Some(v.idx().to_index());
										}
									}
									match f {
										Some(i) => i,
										None => return "[\"x\",\"tag\"]".into(),
									}
								}
								TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
									if has_prov {
										untagged_variant.to_index()
									} else {
										let Some(raw) = raw else { return "[\"u\"]".into() };
										let mask = if n == 16 { u128::MAX } else { (1u128 << (n * 8)) - 1 };
										let rel = raw.wrapping_sub(*niche_start) & mask;
										let (s, e) = (niche_variants.start().to_index(), niche_variants.end().to_index());
										if rel <= (e - s) as u128 {
											s + rel as usize
										} else {
											untagged_variant.to_index()
										}
									}
								}
							};
							(idx, variants[idx].offsets.iter().map(|x| x.bytes()).collect())
						}
					};
					let vs = def.variants();
					let ts: Vec<Ty> = vs[idx].fields().iter().map(|f| f.ty_with_args(&args)).collect();
					let mut v = vec![];
					for (k, t) in ts.iter().enumerate() {
						let o = offs.get(k).copied().unwrap_or(0);
						v.push(self.read(*t, a, off + o));
					}
					format!("[\"e\",{},[{}]]", idx, v.join(","))
				}
			},
			_ => format!("[\"x\",{}]", esc(&format!("{:?}", r))),
		}
	}

	fn read_fields(&mut self, ts: &[Ty], sh: &LayoutShape, a: &Allocation, off: usize) -> String {
		let offs: Vec<usize> = match &sh.fields {
			FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
			_ => vec![0; ts.len()],
		};
		let v: Vec<String> = ts.iter().zip(offs).map(|(t, o)| self.read(*t, a, off + o)).collect();
		format!("[\"s\",[{}]]", v.join(","))
	}

	fn read_ptr(&mut self, e: Ty, a: &Allocation, off: usize) -> String {
		let Some(raw) = self.rd(a, off, 8) else { return "[\"u\"]".into() };
		let unsized_slice = match e.kind() {
			TyKind::RigidTy(RigidTy::Slice(x)) => Some((x, false)),
			TyKind::RigidTy(RigidTy::Str) => Some((e, true)),
			_ => None,
		};
		let Some(id) = self.prov(a, off) else {
			if let Some((x, is_str)) = unsized_slice {
				if self.rd(a, off + 8, 8) == Some(0) {
					return if is_str { "[\"str\",\"\"]".into() } else { format!("[\"rs\",[],{}]", self.ty(x)) };
				}
			}
			return format!("[\"null\",{}]", raw);
		};
		match GlobalAlloc::from(id) {
			GlobalAlloc::Memory(al) => match unsized_slice {
				Some((_, true)) => {
					let n = self.rd(a, off + 8, 8).unwrap_or(0) as usize;
					let bytes: Vec<u8> = al.bytes[raw as usize..raw as usize + n].iter().map(|b| b.unwrap_or(0)).collect();
					format!("[\"str\",{}]", esc(&String::from_utf8_lossy(&bytes)))
				}
				Some((x, false)) => {
					let n = self.rd(a, off + 8, 8).unwrap_or(0) as usize;
					let es = x.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
					if n > 4096 {
						return "[\"x\",\"bigslice\"]".into();
					}
					let v: Vec<String> = (0..n).map(|i| self.read(x, &al, raw as usize + i * es)).collect();
					format!("[\"rs\",[{}],{}]", v.join(","), self.ty(x))
				}
				None => {
					if matches!(e.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) {
						return "[\"x\",\"dyn\"]".into();
					}
					let v = self.read(e, &al, raw as usize);
					format!("[\"r\",{},{}]", v, self.ty(e))
				}
			},
			GlobalAlloc::Static(s) => {
				let id = self.stat(s);
				format!("[\"st\",{}]", id)
			}
			GlobalAlloc::Function(i) => format!("[\"fn\",{}]", self.inst(i)),
			_ => "[\"x\",\"galloc\"]".into(),
		}
	}

	fn stat(&mut self, s: rustc_public::mir::mono::StaticDef) -> usize {
		if let Some(i) = self.statics.get(&s) {
			return *i;
		}
		let id = self.static_json.len();
		self.statics.insert(s, id);
		self.static_json.push(String::new());
		let t = s.ty();
		let tid = self.ty(t);
		let v = match s.eval_initializer() {
			Ok(a) => self.read(t, &a, 0),
			Err(_) => "[\"x\",\"static\"]".into(),
		};
		self.static_json[id] = format!("{{\"n\":{},\"ty\":{},\"v\":{}}}", esc(&s.name()), tid, v);
		id
	}

	fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
		match r {
			Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
			Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
			Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
			Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
			Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
			Rvalue::Aggregate(k, ops) => {
				let o: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
				let o = o.join(",");
				match k {
					AggregateKind::Array(_) => format!("[\"agg\",\"arr\",0,[{}]]", o),
					AggregateKind::Tuple => format!("[\"agg\",\"tup\",0,[{}]]", o),
					AggregateKind::Adt(def, v, args, _, f) => {
						let t = def.ty_with_args(args);
						let kk = match def.kind() {
							AdtKind::Enum => "enum",
							AdtKind::Struct => "struct",
							AdtKind::Union => "union",
						};
						let tid = self.ty(t);
						format!("[\"agg\",\"{}\",{},[{}],{},{}]", kk, v.to_index(), o, tid, f.map(|x| x as i64).unwrap_or(-1))
					}
					AggregateKind::Closure(..) => format!("[\"agg\",\"clo\",0,[{}]]", o),
					AggregateKind::RawPtr(t, _) => format!("[\"agg\",\"ptr\",{},[{}]]", self.ty(*t), o),
					_ => "[\"x\",\"coroutine\"]".into(),
				}
			}
			Rvalue::BinaryOp(b, x, y) => {
				let t = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
				let t2 = y.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
				format!("[\"bin\",\"{:?}\",{},{},{},{}]", b, self.op(x), self.op(y), t, t2)
			}
			Rvalue::CheckedBinaryOp(b, x, y) => {
				let t = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
				format!("[\"chk\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t)
			}
			Rvalue::UnaryOp(u, x) => {
				let t = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
				format!("[\"un\",\"{:?}\",{},{}]", u, self.op(x), t)
			}
			Rvalue::Cast(k, x, t) => {
				let ft = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
				let o = self.op(x);
				let tid = self.ty(*t);
				let (kn, extra) = match k {
					CastKind::PointerCoercion(p) => {
						let mut e = "-1".to_string();
						match p {
							PointerCoercion::ReifyFnPointer(_) => {
								if let Ok(t) = x.ty(locals) {
									if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
										if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
											e = self.inst(i).to_string();
										}
									}
								}
								("reify", e)
							}
							PointerCoercion::ClosureFnPointer(_) => {
								if let Ok(t) = x.ty(locals) {
									if let TyKind::RigidTy(RigidTy::Closure(d, a)) = t.kind() {
										if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
											e = self.inst(i).to_string();
										}
									}
								}
								("clofn", e)
							}
							PointerCoercion::Unsize => ("unsize", e),
							_ => ("ptr", e),
						}
					}
					CastKind::IntToInt => ("int", "-1".into()),
					CastKind::PtrToPtr | CastKind::FnPtrToPtr => ("ptr", "-1".into()),
					CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => ("trans", "-1".into()),
					CastKind::PointerExposeAddress => ("expose", "-1".into()),
					CastKind::PointerWithExposedProvenance => ("withexp", "-1".into()),
					_ => ("float", "-1".into()),
				};
				format!("[\"cast\",\"{}\",{},{},{},{}]", kn, o, ft, tid, extra)
			}
			Rvalue::Discriminant(p) => {
				let t = p.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
				format!("[\"disc\",{},{}]", self.place(p), t)
			}
			Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
			Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().unwrap_or(0)),
			Rvalue::ThreadLocalRef(_) => "[\"x\",\"tls\"]".into(),
		}
	}

	fn stmt(&mut self, s: &Statement, locals: &[LocalDecl]) -> Option<String> {
		match &s.kind {
			StatementKind::Assign(p, r) => {
				let t = p.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
				Some(format!("[\"=\",{},{},{}]", self.place(p), self.rv(r, locals), t))
			}
			StatementKind::SetDiscriminant { place, variant_index } => {
				let t = place.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
				Some(format!("[\"sd\",{},{},{}]", self.place(place), variant_index.to_index(), t))
			}
			StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
				let t = c.src.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
				Some(format!("[\"cno\",{},{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count), t))
			}
			_ => None,
		}
	}

	/// Drops with an effect on data that outlives the value: guards of the standard library's loops, RefCell borrows,
	/// and anything in the code under check that implements Drop.
	fn drop_matters(&mut self, t: Ty, depth: usize) -> bool {
		if depth > 16 {
			return false;
		}
		match t.kind() {
			TyKind::RigidTy(RigidTy::Adt(def, args)) => {
				let n = def.name();
				if n.ends_with("OnDrop") || n.ends_with("Guard") || n.ends_with("Hole") || n.ends_with("MergeState") {
					return true;
				}
				if n.ends_with("Vec") || n.ends_with("Box") || n.contains("ManuallyDrop") {
					return false;
				}
				let mut fs = vec![];
				for v in def.variants() {
					for f in v.fields() {
						fs.push(f.ty_with_args(&args));
					}
				}
				fs.into_iter().any(|f| self.drop_matters(f, depth + 1))
			}
			TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().any(|f| self.drop_matters(*f, depth + 1)),
			TyKind::RigidTy(RigidTy::Closure(_, args)) => {
				if let Some(GenericArgKind::Type(t)) = args.0.last() {
					return self.drop_matters(*t, depth + 1);
				}
				false
			}
			_ => false,
		}
	}

	fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> String {
		match &t.kind {
			TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
			TerminatorKind::SwitchInt { discr, targets } => {
				let b: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
				let ty = discr.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
				format!("[\"sw\",{},[{}],{},{}]", self.op(discr), b.join(","), targets.otherwise(), ty)
			}
			TerminatorKind::Resume => "[\"resume\"]".into(),
			TerminatorKind::Abort => "[\"abort\"]".into(),
			TerminatorKind::Return => "[\"ret\"]".into(),
			TerminatorKind::Unreachable => "[\"unr\"]".into(),
			TerminatorKind::Drop { target, place, .. } => {
				let t = place.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
				let mut i = -1i64;
				if let Ok(ty) = place.ty(locals) {
					if self.drop_matters(ty, 0) {
						i = self.inst(Instance::resolve_drop_in_place(ty)) as i64;
					}
				}
				format!("[\"drop\",{},{},{},{}]", target, t, self.place(place), i)
			}
			TerminatorKind::Call { func, args, destination, target, .. } => {
				let fty = func.ty(locals);
				let mut f = None;
				let mut nm = String::new();
				if let Ok(t) = &fty {
					if let TyKind::RigidTy(RigidTy::FnDef(def, ga)) = t.kind() {
						match Instance::resolve(def, &ga) {
							Ok(i) => {
								if target.is_none() {
									nm = i.name();
									f = Some("-1".to_string());
								} else {
									f = Some(self.inst(i).to_string());
								}
							}
							Err(_) => {
								nm = format!("unresolved {}", def.name());
								f = Some("-2".to_string());
							}
						}
					}
				}
				let f = match f {
					Some(f) => f,
					None => self.op(func),
				};
				let dt = destination.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
				let a: Vec<String> = if f == "-1" {
					vec![]
				} else {
					args.iter().map(|o| self.op(o)).collect()
				};
				let at: Vec<String> = if f == "-1" { vec![] } else { args.iter().map(|o| o.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1).to_string()).collect() };
				format!(
					"[\"call\",{},[{}],{},{},{},{},[{}]]",
					f,
					a.join(","),
					self.place(destination),
					target.map(|x| x as i64).unwrap_or(-1),
					esc(&nm),
					dt,
					at.join(",")
				)
			}
			TerminatorKind::Assert { cond, expected, msg, target, .. } => {
				let m = msg.description().unwrap_or("assert");
				format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, esc(m), target)
			}
			TerminatorKind::InlineAsm { .. } => "[\"x\",\"asm\"]".into(),
		}
	}
}

fn dump(out: &str) {
	let prefix = std::env::var("MIRDUMP_PREFIX").unwrap_or("h_".into());
	let mut d = Dump::default();
	if let Ok(f) = std::env::var("MIRDUMP_STOP") {
		d.stop = std::fs::read_to_string(f).expect("stop file").lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect();
	}
	let mut roots = vec![];
	for item in rustc_public::all_local_items() {
		if item.kind() != ItemKind::Fn {
			continue;
		}
		let n = item.name();
		let last = n.rsplit("::").next().unwrap_or("");
		if !last.starts_with(&prefix) {
			continue;
		}
		if let Ok(i) = Instance::try_from(item) {
			let id = d.inst(i);
			roots.push(format!("[{},{}]", esc(last), id));
		}
	}
	while let Some((i, id)) = d.queue.pop_front() {
		d.emit_inst(i, id);
	}
	let s = format!(
		"{{\"roots\":[{}],\n\"types\":[\n{}],\n\"statics\":[{}],\n\"insts\":[\n{}]}}\n",
		roots.join(","),
		d.ty_json.join(",\n"),
		d.static_json.join(",\n"),
		d.inst_json.join(",\n")
	);
	std::fs::write(out, s).expect("write dump");
	let _ = ValueRepr::Aggregate { sized: true };
}

fn main() {
	let mut args: Vec<String> = std::env::args().collect();
	// as RUSTC_WRAPPER / RUSTC_WORKSPACE_WRAPPER: args[1] is the rustc path
	let mut rustc = None;
	if args.len() > 1 && args[1].ends_with("rustc") {
		rustc = Some(args.remove(1));
	}
	let want = std::env::var("MIRDUMP_CRATE").ok();
	let mut name = None;
	for w in args.windows(2) {
		if w[0] == "--crate-name" {
			name = Some(w[1].clone());
		}
	}
	args.push("-Zalways-encode-mir".into());
	let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
	let do_dump = want.is_some() && want == name && !out.is_empty();
	if !do_dump {
		if let Some(r) = rustc {
			// any other crate: the real compiler, keeping the MIR of every function in its metadata
			let st = std::process::Command::new(r).args(&args[1..]).status().expect("rustc");
			std::process::exit(st.code().unwrap_or(1));
		}
	}
	let r = run_with_tcx!(&args, |_tcx| {
		if do_dump {
			dump(&out);
		}
		ControlFlow::<(), ()>::Continue(())
	});
	match r {
		Ok(_) => {}
		Err(_) => std::process::exit(1),
	}
}
