#![feature(rustc_private)]
//! Dumps the type-checked, trait-resolved MIR of every function of a crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: for crates selected by MIRDUMP_CRATES it compiles normally up to analysis
//! and writes `$MIRDUMP_OUT/<crate>-<type>.json`.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_attr_ir;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, GlobalId, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			'\r' => o.push_str("\\r"),
			c if (c as u32) < 0x20 => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			},
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn list(items: impl IntoIterator<Item = String>) -> String {
	let v: Vec<String> = items.into_iter().collect();
	format!("[{}]", v.join(","))
}

/// Modules of the standard library whose functions are followed into (their MIR is dumped too).
const FOLLOW: &[&str] = &[
	"core::option", "core::result", "core::ops::control_flow", "core::ops::range", "core::ops::function", "core::ops::try_trait",
	"core::convert", "core::iter", "core::cmp", "core::mem::replace", "core::mem::take", "core::mem::swap", "core::num", "core::array",
	"core::bool", "core::clone", "core::borrow", "core::default", "core::mem::maybe_uninit", "core::mem::manually_drop",
	"core::slice::iter::", "core::time", "core::slice::<impl [T]>", "core::ops::deref", "core::ops::index", "core::tuple",
	"core::cell", "core::ops::bit", "core::ops::arith", "core::char", "core::net", "core::intrinsics::fallback", "core::hint", "core::marker",
];
const NOFOLLOW: &[&str] = &["core::num::fmt", "core::num::dec2flt", "core::num::flt2dec", "core::num::imp", "core::iter::traits::collect::Extend"];

struct Dump<'tcx> {
	tcx: TyCtxt<'tcx>,
	types: Vec<String>,
	type_ids: HashMap<(usize, Ty<'tcx>), usize>,
	bodies: Vec<Option<String>>,
	body_ids: HashMap<(usize, Instance<'tcx>), usize>,
	queue: VecDeque<(usize, usize, Instance<'tcx>, TypingEnv<'tcx>)>,
	root: usize,
	env: TypingEnv<'tcx>,
	envs: Vec<(ty::ParamEnv<'tcx>, usize)>,
	depth: usize,
}

impl<'tcx> Dump<'tcx> {
	fn path(&self, d: DefId) -> String {
		let tcx = self.tcx;
		ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(ty::print::with_no_visible_paths!(tcx.def_path_str(d))))
	}

	fn span(&self, sp: Span) -> String {
		let sm = self.tcx.sess.source_map();
		let sp = sp.source_callsite();
		let lo = sm.lookup_char_pos(sp.lo());
		let name = lo.file.name.prefer_local_unconditionally().to_string();
		esc(&format!("{}:{}", name, lo.line))
	}

	fn norm_ty(&self, t: Ty<'tcx>) -> Ty<'tcx> {
		match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)) {
			Ok(x) => x,
			Err(_) => t,
		}
	}

	fn instance_ref(&mut self, inst: Instance<'tcx>) -> String {
		match inst.def {
			InstanceKind::Item(d) => {
				if self.should_follow(d) {
					return self.body_id(inst).to_string();
				}
				"null".into()
			},
			InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ty::ShimKind::Clone(..)) | InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => {
				self.body_id(inst).to_string()
			},
			_ => "null".into(),
		}
	}

	fn should_follow(&self, d: DefId) -> bool {
		let tcx = self.tcx;
		if d.is_local() {
			return tcx.is_mir_available(d);
		}
		if !tcx.is_mir_available(d) {
			return false;
		}
		let p = self.path(d);
		let trimmed = p.trim_start_matches('<');
		let krate = tcx.crate_name(d.krate);
		let k = krate.as_str();
		if k != "core" && k != "std" && k != "alloc" {
			return false;
		}
		// The module path of the definition, independent of how impl paths are printed.
		let mut m = d;
		loop {
			match tcx.opt_parent(m) {
				Some(par) => {
					m = par;
					if tcx.def_kind(m) == DefKind::Mod {
						break;
					}
				},
				None => break,
			}
		}
		let mp = self.path(m);
		let full = format!("{}::{}", mp, tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default());
		if NOFOLLOW.iter().any(|f| trimmed.starts_with(f) || mp.starts_with(f)) {
			return false;
		}
		FOLLOW.iter().any(|f| trimmed.starts_with(f) || full.starts_with(f) || mp == *f || mp.starts_with(&format!("{}::", f)))
	}

	fn body_id(&mut self, inst: Instance<'tcx>) -> usize {
		let key = (self.root, inst);
		if let Some(&i) = self.body_ids.get(&key) {
			return i;
		}
		let i = self.bodies.len();
		self.bodies.push(None);
		self.body_ids.insert(key, i);
		self.queue.push_back((i, self.root, inst, self.env));
		i
	}

	fn ty(&mut self, t: Ty<'tcx>) -> usize {
		let t = self.tcx.erase_and_anonymize_regions(t);
		let t = self.norm_ty(t);
		let key = (self.root, t);
		if let Some(&i) = self.type_ids.get(&key) {
			return i;
		}
		let i = self.types.len();
		self.types.push(String::new());
		self.type_ids.insert(key, i);
		self.depth += 1;
		let s = self.ty_json(t);
		self.depth -= 1;
		self.types[i] = s;
		i
	}

	fn ty_json(&mut self, t: Ty<'tcx>) -> String {
		let tcx = self.tcx;
		let name = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(t.to_string()));
		let name = esc(&name);
		if self.depth > 40 {
			return format!("{{\"k\":\"other\",\"name\":{name}}}");
		}
		match *t.kind() {
			ty::Bool => "{\"k\":\"bool\"}".into(),
			ty::Char => "{\"k\":\"char\"}".into(),
			ty::Int(_) | ty::Uint(_) => format!("{{\"k\":\"int\",\"name\":{name}}}"),
			ty::Str => "{\"k\":\"str\"}".into(),
			ty::Never => "{\"k\":\"never\"}".into(),
			ty::Float(_) => format!("{{\"k\":\"float\",\"name\":{name}}}"),
			ty::Ref(_, inner, m) => {
				let inner = self.ty(inner);
				format!("{{\"k\":\"ref\",\"mut\":{},\"ty\":{},\"name\":{name}}}", m.is_mut(), inner)
			},
			ty::RawPtr(inner, m) => {
				let inner = self.ty(inner);
				format!("{{\"k\":\"ptr\",\"mut\":{},\"ty\":{},\"name\":{name}}}", m.is_mut(), inner)
			},
			ty::Slice(inner) => {
				let inner = self.ty(inner);
				format!("{{\"k\":\"slice\",\"ty\":{},\"name\":{name}}}", inner)
			},
			ty::Array(inner, len) => {
				let inner = self.ty(inner);
				let len = self.ty_const(len);
				format!("{{\"k\":\"array\",\"ty\":{},\"len\":{},\"name\":{name}}}", inner, len)
			},
			ty::Tuple(tys) => {
				let tys: Vec<_> = tys.iter().collect();
				let l = list(tys.into_iter().map(|x| self.ty(x).to_string()));
				format!("{{\"k\":\"tuple\",\"tys\":{},\"name\":{name}}}", l)
			},
			ty::Param(p) => format!("{{\"k\":\"param\",\"name\":{}}}", esc(p.name.as_str())),
			ty::Alias(..) => format!("{{\"k\":\"alias\",\"name\":{name}}}"),
			ty::FnDef(d, args) => {
				let args = args.skip_binder();
				let c = self.callee(d, args);
				format!("{{\"k\":\"fndef\",\"callee\":{},\"name\":{name}}}", c)
			},
			ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"name\":{name}}}"),
			ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"name\":{name}}}"),
			ty::Closure(d, args) => {
				let up = args.as_closure().upvar_tys();
				let l = list(up.iter().collect::<Vec<_>>().into_iter().map(|x| self.ty(x).to_string()));
				let inst = Instance::new_raw(d, args);
				let b = if tcx.is_mir_available(d) { self.body_id(inst).to_string() } else { "null".into() };
				let kind = format!("{:?}", args.as_closure().kind());
				format!(
					"{{\"k\":\"closure\",\"path\":{},\"upvars\":{},\"body\":{},\"kind\":{},\"name\":{name}}}",
					esc(&self.path(d)), l, b, esc(&kind)
				)
			},
			ty::Adt(def, args) => {
				let path = self.path(def.did());
				let mut vs = Vec::new();
				let local_or_std = true;
				let _ = local_or_std;
				let discrs: Vec<String> = if def.is_enum() {
					def.discriminants(tcx).map(|(_, d)| {
						let mut s = String::new();
						let _ = write!(s, "{}", d);
						s
					}).collect()
				} else {
					vec![]
				};
				for (i, v) in def.variants().iter_enumerated() {
					let mut fs = Vec::new();
					for f in v.fields.iter() {
						let fty = f.ty(tcx, args).skip_norm_wip();
						let id = self.ty(fty);
						fs.push(format!("{{\"name\":{},\"ty\":{}}}", esc(f.name.as_str()), id));
					}
					let discr = discrs.get(i.as_usize()).cloned().unwrap_or("0".into());
					let discr: String = discr.chars().filter(|c| c.is_ascii_digit() || *c == '-').collect();
					vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), if discr.is_empty() { "0".into() } else { discr }, list(fs)));
				}
				let args_j = list(args.iter().collect::<Vec<_>>().into_iter().filter_map(|a| match a.kind() {
					ty::GenericArgKind::Type(x) => Some(self.ty(x).to_string()),
					ty::GenericArgKind::Const(c) => Some(self.ty_const(c)),
					_ => None,
				}));
				// Drop implementation.
				let mut drop = "null".to_string();
				if let Some(dtor) = tcx.adt_destructor(def.did()) {
					if def.did().is_local() {
						// args of impl: resolve Drop::drop for Self = t.
						let drop_trait = tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::Drop, rustc_span::DUMMY_SP);
						let m = tcx.associated_item_def_ids(drop_trait)[0];
						let targs = tcx.mk_args(&[t.into()]);
						if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, m, targs) {
							drop = self.instance_ref(inst);
						}
						let _ = dtor;
					} else {
						drop = "\"external\"".into();
					}
				}
				let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
				let needs_drop = t.needs_drop(tcx, self.env);
				format!(
					"{{\"k\":\"adt\",\"path\":{},\"kind\":\"{}\",\"args\":{},\"variants\":{},\"drop\":{},\"local\":{},\"needs_drop\":{},\"manually_drop\":{},\"name\":{name}}}",
					esc(&path), kind, args_j, list(vs), drop, def.did().is_local(), needs_drop, def.is_manually_drop()
				)
			},
			_ => format!("{{\"k\":\"other\",\"name\":{name}}}"),
		}
	}

	fn ty_const(&mut self, c: ty::Const<'tcx>) -> String {
		let c = match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(c)) {
			Ok(x) => x,
			Err(_) => c,
		};
		if let Some(v) = c.try_to_target_usize(self.tcx) {
			return format!("{{\"k\":\"int\",\"v\":\"{}\"}}", v);
		}
		let s = ty::print::with_no_trimmed_paths!(c.to_string());
		format!("{{\"k\":\"sym\",\"name\":{}}}", esc(&s))
	}

	fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
		let tcx = self.tcx;
		let orig = self.path(d);
		let args = tcx.erase_and_anonymize_regions(args);
		let args = match tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)) {
			Ok(x) => x,
			Err(_) => args,
		};
		let mut path = orig.clone();
		let mut inst_s = "null".to_string();
		let mut kind = "unresolved".to_string();
		let mut rargs = "[]".to_string();
		let mut alt = "null".to_string();
		if tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Struct, rustc_hir::def::CtorKind::Fn)
			|| tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Variant, rustc_hir::def::CtorKind::Fn)
		{
			kind = "ctor".into();
		} else if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
			path = self.path(inst.def_id());
			kind = match inst.def {
				InstanceKind::Item(_) => "item".into(),
				InstanceKind::Intrinsic(_) => "intrinsic".into(),
				InstanceKind::Virtual(..) => "virtual".into(),
				InstanceKind::Shim(s) => match s {
					ty::ShimKind::ClosureOnce { .. } => "closure_once".into(),
					ty::ShimKind::Clone(..) => "clone_shim".into(),
					ty::ShimKind::DropGlue(..) => "drop_glue".into(),
					ty::ShimKind::FnPtr(..) => "fnptr_shim".into(),
					_ => "shim".into(),
				},
				_ => "other".into(),
			};
			inst_s = self.instance_ref(inst);
			rargs = list(inst.args.iter().collect::<Vec<_>>().into_iter().filter_map(|a| match a.kind() {
				ty::GenericArgKind::Type(x) => Some(self.ty(x).to_string()),
				ty::GenericArgKind::Const(c) => Some(self.ty_const(c)),
				_ => None,
			}));
		}
		// Default body of Iterator-like trait methods, for receivers that are modelled natively.
		if let Some(tr) = tcx.trait_of_assoc(d) {
			let tp = self.path(tr);
			if tp == "core::iter::traits::iterator::Iterator"
				|| tp == "core::iter::traits::double_ended::DoubleEndedIterator"
				|| tp == "core::iter::traits::exact_size::ExactSizeIterator"
			{
				if tcx.is_mir_available(d) && tcx.defaultness(d).has_value() {
					let inst = Instance::new_raw(d, args);
					alt = self.body_id(inst).to_string();
				}
			}
		}
		let oargs = list(args.iter().collect::<Vec<_>>().into_iter().filter_map(|a| match a.kind() {
			ty::GenericArgKind::Type(x) => Some(self.ty(x).to_string()),
			ty::GenericArgKind::Const(c) => Some(self.ty_const(c)),
			_ => None,
		}));
		let ctor = if kind == "ctor" {
			let parent = tcx.parent(d);
			let (adt, v) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
				let e = tcx.parent(parent);
				let idx = tcx.adt_def(e).variant_index_with_id(parent).as_usize();
				(e, idx)
			} else {
				(parent, 0)
			};
			let aty = tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip();
			format!(",\"ctor\":[{},{}]", self.ty(aty), v)
		} else {
			String::new()
		};
		format!(
			"{{\"orig\":{},\"path\":{},\"kind\":\"{}\",\"inst\":{},\"alt\":{},\"args\":{},\"rargs\":{},\"local\":{}{}}}",
			esc(&orig), esc(&path), kind, inst_s, alt, oargs, rargs, d.is_local(), ctor
		)
	}

	fn place(&mut self, p: &Place<'tcx>) -> String {
		let mut proj = Vec::new();
		for e in p.projection.iter() {
			proj.push(match e {
				ProjectionElem::Deref => "[\"deref\"]".to_string(),
				ProjectionElem::PhantomDeref => "[\"pderef\"]".to_string(),
				ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
				ProjectionElem::Index(l) => format!("[\"idx\",{}]", l.as_usize()),
				ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
					format!("[\"cidx\",{},{},{}]", offset, min_length, from_end)
				},
				ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
				ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
				_ => "[\"cast\"]".to_string(),
			});
		}
		format!("[{},{}]", p.local.as_usize(), list(proj))
	}

	fn const_value(&mut self, val: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
		let tcx = self.tcx;
		let t = self.norm_ty(t);
		// Integers restricted to a range (inside of `Duration`, for example).
		let t = match *t.kind() {
			ty::Pat(base, _) => base,
			_ => t,
		};
		let tid = self.ty(t);
		if depth > 12 {
			return format!("{{\"k\":\"opaque\",\"ty\":{tid}}}");
		}
		match *t.kind() {
			ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) => {
				if let Some(s) = val.try_to_scalar_int().or_else(|| match val {
					ConstValue::Indirect { alloc_id, offset } => self.read_scalar(alloc_id, offset, t),
					_ => None,
				}) {
					let size = s.size();
					let v = if t.is_signed() { s.to_int(size).to_string() } else { s.to_uint(size).to_string() };
					return format!("{{\"k\":\"int\",\"v\":\"{}\",\"ty\":{tid}}}", v);
				}
			},
			ty::FnDef(..) => return format!("{{\"k\":\"zst\",\"ty\":{tid}}}"),
			ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
				if let ty::Array(elem, _) = t.kind() {
					if matches!(elem.kind(), ty::Uint(ty::UintTy::U8)) || matches!(elem.kind(), ty::Uint(_)) {
						if let ConstValue::Indirect { alloc_id, offset } = val {
							if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
								let es = match elem.kind() {
									ty::Uint(u) => u.bit_width().unwrap_or(64) / 8,
									_ => 1,
								};
								if let ty::Array(_, n) = t.kind() {
									if let Some(n) = n.try_to_target_usize(tcx) {
										let a = a.inner();
										let start = offset.bytes() as usize;
										let len = (n * es) as usize;
										let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(start..start + len);
										let vals = bytes.chunks(es as usize).map(|c| {
											let mut x: u128 = 0;
											for (i, b) in c.iter().enumerate() {
												x |= (*b as u128) << (8 * i);
											}
											x.to_string()
										});
										return format!("{{\"k\":\"uarr\",\"v\":{},\"ty\":{tid}}}", list(vals));
									}
								}
							}
						}
					}
				}
				if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
					let fields: Vec<(ConstValue, Ty<'tcx>)> = d.fields.to_vec();
					if fields.len() < 2000 {
						let fs = list(fields.into_iter().map(|(v, ft)| self.const_value(v, ft, depth + 1)));
						let var = d.variant.map(|v| v.as_usize().to_string()).unwrap_or("null".into());
						return format!("{{\"k\":\"agg\",\"variant\":{},\"fields\":{},\"ty\":{tid}}}", var, fs);
					}
				}
			},
			ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
				let inner = self.norm_ty(inner);
				// Slices and strings.
				if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
					let (alloc_id, off, len) = match val {
						ConstValue::Slice { alloc_id, meta } => (Some(alloc_id), 0usize, meta as usize),
						ConstValue::Indirect { alloc_id, offset } => match self.read_fat(alloc_id, offset) {
							Some((a, o, l)) => (Some(a), o, l),
							None => (None, 0, 0),
						},
						_ => (None, 0, 0),
					};
					if let Some(id) = alloc_id {
						if let GlobalAlloc::Memory(a) = tcx.global_alloc(id) {
							let a = a.inner();
							match inner.kind() {
								ty::Str => {
									let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len);
									let s = String::from_utf8_lossy(b).to_string();
									return format!("{{\"k\":\"str\",\"v\":{},\"ty\":{tid}}}", esc(&s));
								},
								ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
									let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len);
									return format!("{{\"k\":\"bytes\",\"v\":{},\"ty\":{tid}}}", list(b.iter().map(|x| x.to_string())));
								},
								ty::Slice(e) if matches!(e.kind(), ty::Uint(_)) => {
									let es = match e.kind() {
										ty::Uint(u) => u.bit_width().unwrap_or(64) as usize / 8,
										_ => 1,
									};
									let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len * es);
									let vals = b.chunks(es).map(|c| {
										let mut x: u128 = 0;
										for (i, b) in c.iter().enumerate() {
											x |= (*b as u128) << (8 * i);
										}
										x.to_string()
									});
									let sid = self.ty(inner);
									return format!("{{\"k\":\"ref\",\"to\":{{\"k\":\"uarr\",\"v\":{},\"ty\":{sid}}},\"ty\":{tid}}}", list(vals));
								},
								_ => {},
							}
						}
					}
					return format!("{{\"k\":\"opaque\",\"ty\":{tid}}}");
				}
				let ptr = match val {
					ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
					ConstValue::Indirect { alloc_id, offset } => self.read_ptr(alloc_id, offset),
					_ => None,
				};
				if let Some(p) = ptr {
					let (prov, off) = p.into_raw_parts();
					let id = prov.alloc_id();
					match tcx.global_alloc(id) {
						GlobalAlloc::Memory(_) => {
							let v = self.const_value(ConstValue::Indirect { alloc_id: id, offset: off }, inner, depth + 1);
							return format!("{{\"k\":\"ref\",\"to\":{},\"ty\":{tid}}}", v);
						},
						GlobalAlloc::Static(d) => {
							return format!("{{\"k\":\"static\",\"path\":{},\"id\":{},\"ty\":{tid}}}", esc(&self.path(d)), esc(&format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())));
						},
						_ => {},
					}
				}
			},
			_ => {},
		}
		if matches!(val, ConstValue::ZeroSized) {
			return format!("{{\"k\":\"zst\",\"ty\":{tid}}}");
		}
		format!("{{\"k\":\"opaque\",\"ty\":{tid}}}")
	}

	fn read_scalar(&self, id: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, t: Ty<'tcx>) -> Option<ty::ScalarInt> {
		let tcx = self.tcx;
		let size = match *t.kind() {
			ty::Bool => 1,
			ty::Char => 4,
			ty::Uint(u) => u.bit_width().unwrap_or(64) / 8,
			ty::Int(u) => u.bit_width().unwrap_or(64) / 8,
			_ => return None,
		};
		if let GlobalAlloc::Memory(a) = tcx.global_alloc(id) {
			let a = a.inner();
			let s = off.bytes() as usize;
			let b = a.inspect_with_uninit_and_ptr_outside_interpreter(s..s + size as usize);
			let mut x: u128 = 0;
			for (i, v) in b.iter().enumerate() {
				x |= (*v as u128) << (8 * i);
			}
			return ty::ScalarInt::try_from_uint(x, rustc_abi::Size::from_bytes(size));
		}
		None
	}

	fn read_ptr(&self, id: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size) -> Option<rustc_middle::mir::interpret::Pointer> {
		if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) {
			let a = a.inner();
			let prov = a.provenance().ptrs().get(&off)?;
			let s = off.bytes() as usize;
			let b = a.inspect_with_uninit_and_ptr_outside_interpreter(s..s + 8);
			let mut x = 0u64;
			for (i, v) in b.iter().enumerate() {
				x |= (*v as u64) << (8 * i);
			}
			return Some(rustc_middle::mir::interpret::Pointer::new(*prov, rustc_abi::Size::from_bytes(x)));
		}
		None
	}

	fn read_fat(&self, id: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size) -> Option<(rustc_middle::mir::interpret::AllocId, usize, usize)> {
		let p = self.read_ptr(id, off)?;
		if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) {
			let a = a.inner();
			let s = off.bytes() as usize + 8;
			let b = a.inspect_with_uninit_and_ptr_outside_interpreter(s..s + 8);
			let mut x = 0u64;
			for (i, v) in b.iter().enumerate() {
				x |= (*v as u64) << (8 * i);
			}
			let (prov, o) = p.into_raw_parts();
			return Some((prov.alloc_id(), o.bytes() as usize, x as usize));
		}
		None
	}

	fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
		let tcx = self.tcx;
		let t = c.const_.ty();
		let tid = self.ty(t);
		if let ty::FnDef(..) = t.kind() {
			return format!("{{\"k\":\"zst\",\"ty\":{tid}}}");
		}
		// Symbolic (generic) constants.
		let name = ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
		let def = match c.const_ {
			Const::Unevaluated(u, _) => Some(u.def),
			_ => None,
		};
		// A promoted constant belongs to the function it was found in.
		// The compiler resolves the function again, and would end up in a different one for the provided method of a trait.
		let value = match c.const_ {
			Const::Unevaluated(u, _) if u.promoted.is_some_and(|_| !matches!(Instance::try_resolve(tcx, self.env, u.def, u.args), Ok(Some(i)) if i.def_id() == u.def)) => {
				if u.promoted.is_some_and(|p| p.as_usize() >= tcx.promoted_mir(u.def).len()) {
					return format!("{{\"k\":\"sym\",\"name\":{},\"ty\":{tid}}}", esc(&name));
				}
				let id = GlobalId { instance: Instance::new_raw(u.def, u.args), promoted: u.promoted };
				tcx.const_eval_global_id(self.env, id, c.span)
			},
			_ => c.const_.eval(tcx, self.env, c.span),
		};
		match value {
			Ok(v) => {
				let mut s = self.const_value(v, t, 0);
				if let Some(d) = def {
					s.pop();
					let _ = write!(s, ",\"def\":{}}}", esc(&self.path(d)));
				}
				s
			},
			Err(_) => {
				let mut extra = String::new();
				if let Const::Unevaluated(u, _) = c.const_ {
					let b = if tcx.is_mir_available(u.def) {
						"true"
					} else {
						"false"
					};
					let _ = write!(extra, ",\"def\":{},\"promoted\":{},\"has_mir\":{}", esc(&self.path(u.def)), u.promoted.is_some(), b);
					// Generic associated constant: name it by trait path and Self type.
					let args = list(u.args.iter().collect::<Vec<_>>().into_iter().filter_map(|a| match a.kind() {
						ty::GenericArgKind::Type(x) => Some(self.ty(x).to_string()),
						_ => None,
					}));
					let _ = write!(extra, ",\"args\":{}", args);
					if let Some(p) = u.promoted {
						let ms = tcx.promoted_mir(u.def);
						let _ = write!(extra, ",\"promoted_idx\":{}", p.as_usize());
						let _ = ms;
						let id = self.promoted_id(u.def, p, u.args);
						let _ = write!(extra, ",\"pbody\":{}", id);
					} else {
						let inst = match Instance::try_resolve(tcx, self.env, u.def, u.args) {
							Ok(Some(i)) => Some(i),
							_ => None,
						};
						if let Some(i) = inst {
							if i.def_id().is_local() {
								let id = self.body_id(i);
								let _ = write!(extra, ",\"cbody\":{}", id);
							}
						}
					}
				}
				format!("{{\"k\":\"sym\",\"name\":{},\"ty\":{tid}{}}}", esc(&name), extra)
			},
		}
	}

	fn promoted_id(&mut self, def: DefId, p: Promoted, args: GenericArgsRef<'tcx>) -> usize {
		let tcx = self.tcx;
		let i = self.bodies.len();
		self.bodies.push(None);
		let body = tcx.promoted_mir(def)[p].clone();
		let inst = Instance::new_raw(def, args);
		let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body)) {
			Ok(b) => b,
			Err(_) => return i,
		};
		let s = self.body_json(i, inst, &body, "promoted");
		self.bodies[i] = Some(s);
		i
	}

	fn operand(&mut self, o: &Operand<'tcx>) -> String {
		match o {
			Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
			Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
			Operand::Constant(c) => format!("[\"const\",{}]", self.constant(c)),
			Operand::RuntimeChecks(r) => format!("[\"rtc\",{}]", esc(&format!("{:?}", r))),
		}
	}

	fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
		match r {
			Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
			Rvalue::Repeat(o, c) => format!("[\"repeat\",{},{}]", self.operand(o), self.ty_const(*c)),
			Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", esc(&format!("{:?}", bk)), self.place(p)),
			Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
			Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), self.ty(*t)),
			Rvalue::BinaryOp(op, b) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(&b.0), self.operand(&b.1)),
			Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(o)),
			Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
			Rvalue::Aggregate(k, ops) => {
				let l = list(ops.iter().map(|o| self.operand(o)).collect::<Vec<_>>());
				let kind = match **k {
					AggregateKind::Array(t) => format!("\"array\",{}", self.ty(t)),
					AggregateKind::Tuple => "\"tuple\",null".into(),
					AggregateKind::Adt(d, v, args, _, active) => {
						let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
						let t = self.ty(t);
						format!("\"adt\",[{},{},{}]", t, v.as_usize(), active.map(|a| a.as_usize().to_string()).unwrap_or("null".into()))
					},
					AggregateKind::Closure(d, args) => {
						let t = Ty::new_closure(self.tcx, d, args);
						format!("\"closure\",{}", self.ty(t))
					},
					AggregateKind::RawPtr(t, _) => format!("\"rawptr\",{}", self.ty(t)),
					_ => "\"other\",null".into(),
				};
				format!("[\"agg\",{},{}]", kind, l)
			},
			Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
			Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
			other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
		}
	}

	fn unwind(&self, u: &UnwindAction) -> String {
		match u {
			UnwindAction::Cleanup(b) => b.as_usize().to_string(),
			_ => "null".into(),
		}
	}

	fn body_json(&mut self, id: usize, inst: Instance<'tcx>, body: &Body<'tcx>, kind: &str) -> String {
		let tcx = self.tcx;
		let def = inst.def_id();
		let locals = list(body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect::<Vec<_>>());
		let mut names = Vec::new();
		for v in &body.var_debug_info {
			if let VarDebugInfoContents::Place(p) = &v.value {
				names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
			}
		}
		let mut blocks = Vec::new();
		for bb in body.basic_blocks.iter() {
			let mut stmts = Vec::new();
			for s in &bb.statements {
				let sp = self.span(s.source_info.span);
				match &s.kind {
					StatementKind::Assign(b) => {
						let (p, r) = &**b;
						stmts.push(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), sp));
					},
					StatementKind::SetDiscriminant { place, variant_index } => {
						stmts.push(format!("[\"setdiscr\",{},{},{}]", self.place(place), variant_index.as_usize(), sp));
					},
					StatementKind::StorageLive(l) => stmts.push(format!("[\"live\",{}]", l.as_usize())),
					StatementKind::StorageDead(l) => stmts.push(format!("[\"dead\",{}]", l.as_usize())),
					StatementKind::Intrinsic(i) => match &**i {
						NonDivergingIntrinsic::Assume(o) => stmts.push(format!("[\"assume\",{},{}]", self.operand(o), sp)),
						NonDivergingIntrinsic::CopyNonOverlapping(_) => stmts.push(format!("[\"copynonoverlapping\",{}]", sp)),
					},
					_ => {},
				}
			}
			let t = bb.terminator();
			let sp = self.span(t.source_info.span);
			let term = match &t.kind {
				TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
				TerminatorKind::SwitchInt { discr, targets } => {
					let vals = list(targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect::<Vec<_>>());
					format!("[\"switch\",{},{},{},{}]", self.operand(discr), vals, targets.otherwise().as_usize(), sp)
				},
				TerminatorKind::Return => "[\"return\"]".into(),
				TerminatorKind::Unreachable => format!("[\"unreachable\",{}]", sp),
				TerminatorKind::UnwindResume => "[\"resume\"]".into(),
				TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
				TerminatorKind::Drop { place, target, unwind, .. } => {
					let pt = place.ty(&body.local_decls, tcx).ty;
					format!("[\"drop\",{},{},{},{},{}]", self.place(place), target.as_usize(), self.unwind(unwind), self.ty(pt), sp)
				},
				TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
					let fty = func.ty(&body.local_decls, tcx);
					let callee = match fty.kind() {
						ty::FnDef(d, a) => {
							let a = a.skip_binder();
							self.callee(*d, a)
						},
						_ => format!("{{\"kind\":\"indirect\",\"op\":{}}}", self.operand(func)),
					};
					let al = list(args.iter().map(|a| self.operand(&a.node)).collect::<Vec<_>>());
					let dt = destination.ty(&body.local_decls, tcx).ty;
					let dty = self.ty(dt);
					let _ = fn_span;
					format!(
						"[\"call\",{},{},{},{},{},{},{}]",
						callee, al, self.place(destination), target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()), self.unwind(unwind), sp, dty
					)
				},
				TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
					let m = match &**msg {
						AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)),
						AssertKind::Overflow(op, a, b) => format!("[\"overflow\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(a), self.operand(b)),
						AssertKind::OverflowNeg(_) => "[\"overflowneg\"]".into(),
						AssertKind::DivisionByZero(_) => "[\"divzero\"]".into(),
						AssertKind::RemainderByZero(_) => "[\"remzero\"]".into(),
						_ => "[\"other\"]".into(),
					};
					format!("[\"assert\",{},{},{},{},{},{}]", self.operand(cond), expected, m, target.as_usize(), self.unwind(unwind), sp)
				},
				TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
				TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
				other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
			};
			blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", list(stmts), term, bb.is_cleanup));
		}
		let path = self.path(def);
		let inst_name = ty::print::with_no_trimmed_paths!(format!("{}", inst));
		let args = list(inst.args.iter().collect::<Vec<_>>().into_iter().filter_map(|a| match a.kind() {
			ty::GenericArgKind::Type(x) => Some(self.ty(x).to_string()),
			ty::GenericArgKind::Const(c) => Some(self.ty_const(c)),
			_ => None,
		}));
		format!(
			"{{\"id\":{},\"path\":{},\"inst\":{},\"kind\":{},\"local\":{},\"args\":{},\"nargs\":{},\"spread\":{},\"locals\":{},\"names\":{},\"span\":{},\"blocks\":{}}}",
			id, esc(&path), esc(&inst_name), esc(kind), def.is_local(), args, body.arg_count,
			body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
			locals, list(names), self.span(body.span), list(blocks)
		)
	}

	fn run_queue(&mut self) {
		let tcx = self.tcx;
		while let Some((id, root, inst, env)) = self.queue.pop_front() {
			self.root = root;
			self.env = env;
			let body: Body<'tcx> = match inst.def {
				InstanceKind::Item(d) => match tcx.def_kind(d) {
					DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => tcx.instance_mir(inst.def).clone(),
					_ => tcx.mir_for_ctfe(d).clone(),
				},
				_ => tcx.instance_mir(inst.def).clone(),
			};
			let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body)) {
				Ok(b) => b,
				Err(_) => {
					self.bodies[id] = None;
					continue;
				},
			};
			let kind = match inst.def {
				InstanceKind::Item(_) => "item",
				_ => "shim",
			};
			// A function the compiler can not show to us is left out (and whatever calls it stays undecided).
			self.bodies[id] = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.body_json(id, inst, &body, kind))).ok();
		}
	}
}

struct Cb;

impl rustc_driver_impl::Callbacks for Cb {
	fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
		let out = match std::env::var("MIRDUMP_OUT") {
			Ok(x) => x,
			Err(_) => return rustc_driver_impl::Compilation::Continue,
		};
		let krate = tcx.crate_name(LOCAL_CRATE).to_string();
		let ctype = if tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable") { "bin" } else { "lib" };
		let only = std::env::var("MIRDUMP_ROOTS").ok();
		let mut d = Dump {
			tcx,
			types: vec![],
			type_ids: HashMap::new(),
			bodies: vec![],
			body_ids: HashMap::new(),
			queue: VecDeque::new(),
			root: 0,
			env: TypingEnv::fully_monomorphized(),
			envs: vec![],
			depth: 0,
		};
		let mut roots = Vec::new();
		let mut fns: Vec<DefId> = Vec::new();
		for l in tcx.mir_keys(()) {
			let def = l.to_def_id();
			match tcx.def_kind(def) {
				DefKind::Fn | DefKind::AssocFn => fns.push(def),
				_ => {},
			}
		}
		fns.sort_by_key(|d| tcx.def_path_str(*d));
		for def in fns {
			let path = d.path(def);
			// Skip formatting and derived implementations.
			let mut derived = false;
			let mut trait_path = String::new();
			let mut self_ty = String::new();
			if let Some(imp) = tcx.impl_of_assoc(def) {
				if tcx.is_automatically_derived(imp) {
					derived = true;
				}
				if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
					let tr = tr.instantiate_identity().skip_norm_wip();
					trait_path = ty::print::with_no_trimmed_paths!(tr.to_string());
				}
				self_ty = ty::print::with_no_trimmed_paths!(tcx.type_of(imp).instantiate_identity().skip_norm_wip().to_string());
			}
			let is_fmt = trait_path.contains("core::fmt::") || trait_path.contains("std::fmt::");
			if is_fmt && derived {
				continue;
			}
			if let Some(o) = &only {
				if !o.split(',').any(|x| path.contains(x)) {
					continue;
				}
			}
			if !tcx.is_mir_available(def) {
				continue;
			}
			let args = ty::GenericArgs::identity_for_item(tcx, def);
			let args = tcx.erase_and_anonymize_regions(args);
			let env = TypingEnv::post_analysis(tcx, def);
			// Functions with the same set of where clauses share the environment and thereby their instances.
			let key = env.param_env;
			let root = match d.envs.iter().find(|(e, _)| *e == key) {
				Some((_, i)) => *i,
				None => {
					let i = d.envs.len();
					d.envs.push((key, i));
					i
				},
			};
			d.root = root;
			d.env = env;
			let inst = Instance::new_raw(def, args);
			let id = d.body_id(inst);
			let vis = tcx.visibility(def).is_public();
			let eff = tcx.effective_visibilities(()).is_reachable(def.expect_local());
			let sig = ty::print::with_no_trimmed_paths!(tcx.fn_sig(def).instantiate_identity().skip_norm_wip().to_string());
			let is_test = false;
			// Lifetimes of the signature: of each argument (outermost reference, inside) and of the result.
			let fsig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
			let esig = tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(def).instantiate_identity().skip_norm_wip()));
			let inputs = list(fsig.inputs().iter().zip(esig.inputs()).map(|(t, e)| {
				let (r, m, inner) = match *t.kind() {
					ty::Ref(r, u, m) => (esc(&format!("{r:?}")), m.is_mut(), u),
					_ => ("null".to_string(), false, *t),
				};
				let tid = d.ty(match *e.kind() { ty::Ref(_, u, _) => u, _ => *e });
				format!("{{\"ref\":{r},\"mut\":{m},\"ty\":{tid},\"regions\":{}}}", list(regions_of(tcx, def, inner).iter().map(|x| esc(x))))
			}).collect::<Vec<_>>().into_iter());
			let output = {
				let t = fsig.output();
				let tid = d.ty(esig.output());
				format!("{{\"ty\":{tid},\"regions\":{}}}", list(regions_of(tcx, def, t).iter().map(|x| esc(x))))
			};
			roots.push(format!(
				"{{\"path\":{},\"body\":{},\"pub\":{},\"reachable\":{},\"trait\":{},\"self_ty\":{},\"derived\":{},\"fmt\":{},\"test\":{},\"sig\":{},\"span\":{},\"name\":{},\"unsafe\":{},\"in\":{},\"out\":{}}}",
				esc(&path), id, vis, eff, esc(&trait_path), esc(&self_ty), derived, is_fmt, is_test, esc(&sig), d.span(tcx.def_span(def)),
				esc(tcx.item_name(def).as_str()), tcx.fn_sig(def).skip_binder().safety().is_unsafe(),
				inputs, output
			));
			d.run_queue();
		}
		// Associated constants of trait implementations.
		let mut aconsts = Vec::new();
		let mut defs: Vec<DefId> = tcx.mir_keys(()).iter().map(|l| l.to_def_id()).filter(|x| matches!(tcx.def_kind(*x), DefKind::AssocConst { .. })).collect();
		defs.sort_by_key(|x| tcx.def_path_str(*x));
		for def in defs {
			let Some(imp) = tcx.impl_of_assoc(def) else { continue };
			let Some(tr) = tcx.impl_opt_trait_ref(imp) else { continue };
			let tr = ty::print::with_no_trimmed_paths!(tr.instantiate_identity().skip_norm_wip().to_string());
			let self_ty = ty::print::with_no_trimmed_paths!(tcx.type_of(imp).instantiate_identity().skip_norm_wip().to_string());
			let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, def));
			let env = TypingEnv::post_analysis(tcx, def);
			let key = env.param_env;
			let root = match d.envs.iter().find(|(e, _)| *e == key) {
				Some((_, i)) => *i,
				None => {
					let i = d.envs.len();
					d.envs.push((key, i));
					i
				},
			};
			d.root = root;
			d.env = env;
			let inst = Instance::new_raw(def, args);
			let id = d.body_id(inst);
			let path = d.path(def);
			aconsts.push(format!(
				"{{\"path\":{},\"body\":{},\"trait\":{},\"self_ty\":{},\"name\":{},\"span\":{},\"pub\":true,\"derived\":false,\"fmt\":false}}",
				esc(&path), id, esc(&tr), esc(&self_ty), esc(tcx.item_name(def).as_str()), d.span(tcx.def_span(def))
			));
			d.run_queue();
		}
		let features: Vec<String> = tcx.sess.config.iter().filter_map(|(k, v)| {
			if k.as_str() == "feature" { v.map(|x| esc(x.as_str())) } else { None }
		}).collect();
		let mut consts = Vec::new();
		for l in tcx.hir_crate_items(()).definitions() {
			let def = l.to_def_id();
			if let DefKind::Const { .. } = tcx.def_kind(def) {
				if tcx.generics_of(def).count() == 0 {
					d.env = TypingEnv::fully_monomorphized();
					d.root = usize::MAX;
					if let Ok(v) = tcx.const_eval_poly(def) {
						let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
						let s = d.const_value(v, t, 0);
						consts.push(format!("[{},{}]", esc(&d.path(def)), s));
					}
				}
			}
		}
		// Static items: memory, initial contents, kind of storage.
		let mut statics = Vec::new();
		for l in tcx.hir_crate_items(()).definitions() {
			let def = l.to_def_id();
			if !matches!(tcx.def_kind(def), DefKind::Static { .. }) { continue }
			d.env = TypingEnv::fully_monomorphized();
			d.root = usize::MAX;
			let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
			let ty = d.ty(t);
			let thread_local = tcx.is_thread_local_static(def);
			let (size, zero, bytes) = match tcx.eval_static_initializer(def) {
				Ok(a) => {
					let a = a.inner();
					let n = a.len();
					let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
					let init = a.init_mask().is_range_initialized(rustc_middle::mir::interpret::AllocRange { start: rustc_abi::Size::ZERO, size: rustc_abi::Size::from_bytes(n as u64) }).is_ok();
					let plain = a.provenance().ptrs().is_empty();
					(n, init && plain && b.iter().all(|x| *x == 0), if n <= 16 && init && plain { list(b.iter().map(|x| x.to_string())) } else { "null".into() })
				},
				Err(_) => (0, false, "null".into()),
			};
			statics.push(format!(
				"{{\"id\":{},\"path\":{},\"ty\":{ty},\"mutable\":{},\"thread_local\":{thread_local},\"size\":{size},\"zero\":{zero},\"bytes\":{bytes},\"span\":{}}}",
				esc(&format!("{}{}", tcx.crate_name(def.krate), tcx.def_path(def).to_string_no_crate_verbose())), esc(&d.path(def)), tcx.is_mutable_static(def), d.span(tcx.def_span(def))
			));
		}
		d.run_queue();
		let json = format!(
			"{{\"crate\":{},\"type\":\"{}\",\"features\":{},\"roots\":{},\"consts\":{},\"aconsts\":{},\"statics\":{},\"types\":{},\"bodies\":{}}}",
			esc(&krate), ctype, list(features), list(roots), list(consts), list(aconsts), list(statics),
			list(d.types.iter().cloned()),
			list(d.bodies.iter().map(|b| b.clone().unwrap_or("null".into())))
		);
		let file = format!("{}/{}-{}.json", out, krate, ctype);
		std::fs::write(&file, json).unwrap();
		rustc_driver_impl::Compilation::Continue
	}
}

/// The lifetimes in a type, except those of static strings. Associated types of the enclosing implementation are looked up.
fn regions_of<'tcx>(tcx: TyCtxt<'tcx>, def: DefId, t: Ty<'tcx>) -> Vec<String> {
	let mut out = Vec::new();
	let mut skip = 0;
	let mut queue = vec![t];
	let mut budget = 1000;
	while let Some(t) = queue.pop() {
		let mut walk = t.walk();
		while let Some(a) = walk.next() {
			budget -= 1;
			if budget == 0 { return out }
			match a.kind() {
				ty::GenericArgKind::Lifetime(r) => {
					if r.is_static() && skip > 0 { skip -= 1; continue }
					out.push(format!("{r:?}"));
				},
				ty::GenericArgKind::Type(u) => {
					if let ty::Ref(r, v, _) = *u.kind() {
						if r.is_static() && v.is_str() { skip += 1 }
					}
					if let ty::Alias(..) = *u.kind() {
						if let Some(v) = impl_assoc(tcx, def, u) {
							queue.push(v);
							walk.skip_current_subtree();
						}
					}
				},
				_ => {},
			}
		}
	}
	out
}

/// The type an associated type stands for, if the implementation around the function defines it.
fn impl_assoc<'tcx>(tcx: TyCtxt<'tcx>, def: DefId, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
	let imp = tcx.impl_of_assoc(def)?;
	let tr = tcx.impl_opt_trait_ref(imp)?.instantiate_identity().skip_norm_wip();
	let ty::Alias(_, al) = *t.kind() else { return None };
	let ty::AliasTyKind::Projection { def_id: id } = al.kind else { return None };
	let args = al.args;
	if tcx.opt_parent(id) != Some(tr.def_id) || args.types().next() != Some(tr.self_ty()) { return None }
	for it in tcx.associated_items(imp).in_definition_order() {
		if it.trait_item_def_id() == Some(id) {
			return Some(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip());
		}
	}
	None
}

fn main() {
	let mut args: Vec<String> = std::env::args().collect();
	// RUSTC_WORKSPACE_WRAPPER passes the path of rustc as first argument.
	if args.len() > 1 && args[1].ends_with("rustc") {
		args.remove(1);
	}
	let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
	let want = std::env::var("MIRDUMP_CRATES").unwrap_or_else(|_| "dynamixel2".into());
	let selected = want.split(',').any(|x| x == krate);
	if selected {
		args.push("-Zmir-opt-level=0".into());
		args.push("-Zinline-mir=no".into());
		args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
		rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
	} else {
		struct No;
		impl rustc_driver_impl::Callbacks for No {}
		rustc_driver_impl::compiler_entrypoint(&args, &mut No);
	}
}
