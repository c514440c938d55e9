// MIR exporter: a rustc driver (nightly, rustc_public) which, for every crate
// of the workspace under analysis, writes the monomorphised MIR of all local
// functions and of everything they can reach as JSON.  No code of the analysed
// crate is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_session;
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{run, CrateDef, CrateDefType, ItemKind};
use rustc_public::abi::{FieldsShape, VariantsShape, TagEncoding};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx {
    tys: Vec<String>,
    tymap: HashMap<Ty, usize>,
    fns: Vec<String>,
    fnmap: HashMap<String, usize>, // mangled name -> id
    work: Vec<(usize, Instance)>,
    files: Vec<String>,
    filemap: HashMap<String, usize>,
    krate: String,
    stops: Vec<String>,
    allocs: Vec<String>,
    allocmap: HashMap<String, usize>,
    models: HashMap<String, FnDef>,
}

impl Cx {
    fn span(&mut self, sp: &Span) -> String {
        let f = sp.get_filename().to_string();
        let id = match self.filemap.get(&f) {
            Some(i) => *i,
            None => {
                let i = self.files.len();
                self.files.push(f.clone());
                self.filemap.insert(f, i);
                i
            }
        };
        let l = sp.get_lines();
        format!("[{},{},{}]", id, l.start_line, l.start_col)
    }

    fn args_tys(&mut self, a: &GenericArgs) -> String {
        let mut v = Vec::new();
        for x in &a.0 {
            if let GenericArgKind::Type(t) = x {
                v.push(self.ty(*t).to_string());
            }
        }
        arr(v)
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.tymap.insert(t, id);
        self.tys.push(String::from("null"));
        let disp = js(&format!("{}", TyD(t)));
        let s = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => r#"{"k":"bool"}"#.to_string(),
                RigidTy::Char => r#"{"k":"char"}"#.to_string(),
                RigidTy::Int(i) => format!(r#"{{"k":"int","n":{},"b":{}}}"#, js(&format!("{:?}", i).to_lowercase()), i.num_bytes() * 8),
                RigidTy::Uint(i) => format!(r#"{{"k":"uint","n":{},"b":{}}}"#, js(&format!("{:?}", i).to_lowercase()), i.num_bytes() * 8),
                RigidTy::Float(f) => format!(r#"{{"k":"float","n":{}}}"#, js(&format!("{:?}", f).to_lowercase())),
                RigidTy::Str => r#"{"k":"str"}"#.to_string(),
                RigidTy::Never => r#"{"k":"never"}"#.to_string(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let n = n.eval_target_usize().map(|x| x as i64).unwrap_or(-1);
                    format!(r#"{{"k":"array","e":{},"n":{}}}"#, e, n)
                }
                RigidTy::Slice(e) => format!(r#"{{"k":"slice","e":{}}}"#, self.ty(e)),
                RigidTy::RawPtr(e, m) => format!(r#"{{"k":"ptr","e":{},"m":{}}}"#, self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!(r#"{{"k":"ref","e":{},"m":{}}}"#, self.ty(e), m == Mutability::Mut),
                RigidTy::Tuple(v) => {
                    let v: Vec<String> = v.iter().map(|x| self.ty(*x).to_string()).collect();
                    format!(r#"{{"k":"tuple","f":{}}}"#, arr(v))
                }
                RigidTy::FnDef(d, a) => {
                    let at = self.args_tys(&a);
                    let inst = self.resolve(d, &a);
                    let f = match inst {
                        Some(i) => self.func(i).to_string(),
                        None => "null".to_string(),
                    };
                    format!(r#"{{"k":"fndef","t":{},"a":{},"fn":{}}}"#, js(&d.name()), at, f)
                }
                RigidTy::Closure(d, a) => {
                    let inst = Instance::resolve_closure(d, &a, ClosureKind::Fn).ok();
                    let f = match inst {
                        Some(i) => self.func(i).to_string(),
                        None => "null".to_string(),
                    };
                    // Upvar types: the last generic argument is the tuple of upvars.
                    let up = match a.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(),
                        _ => "null".into(),
                    };
                    format!(r#"{{"k":"closure","n":{},"fn":{},"up":{}}}"#, js(&d.name()), f, up)
                }
                RigidTy::Adt(d, a) => {
                    let at = self.args_tys(&a);
                    let ak = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let mut vs = Vec::new();
                    for v in d.variants_iter() {
                        let dv = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val } else { 0 };
                        let mut fs = Vec::new();
                        for f in v.fields() {
                            let ft = f.ty_with_args(&a);
                            fs.push(format!("[{},{}]", js(&f.name), self.ty(ft)));
                        }
                        vs.push(format!(r#"{{"n":{},"d":{},"f":{}}}"#, js(&v.name()), js(&dv.to_string()), arr(fs)));
                    }
                    format!(
                        r#"{{"k":"adt","n":{},"ak":"{}","a":{},"v":{},"box":{}}}"#,
                        js(&d.name()), ak, at, arr(vs), d.is_box()
                    )
                }
                RigidTy::FnPtr(_) => r#"{"k":"fnptr"}"#.to_string(),
                RigidTy::Dynamic(..) => format!(r#"{{"k":"dyn"}}"#),
                _ => r#"{"k":"other"}"#.to_string(),
            },
            _ => r#"{"k":"param"}"#.to_string(),
        };
        let s = format!("{},\"d\":{}}}", &s[..s.len() - 1], disp);
        self.tys[id] = s;
        id
    }

    // The model substituted for a library routine, if any.
    fn model(&self, path: &str, a: &GenericArgs) -> Option<FnDef> {
        let tys: Vec<Ty> = a.0.iter().filter_map(|x| x.ty().copied()).collect();
        let coll = |t: &Ty| {
            let mut d = format!("{}", t);
            loop {
                // the collections inside an Option or a Result
                let q = ["Option<", "std::option::Option<", "Result<", "std::result::Result<"].iter().find_map(|p| d.strip_prefix(p).map(|x| x.to_string()));
                match q {
                    Some(x) => d = x,
                    None => break,
                }
            }
            ["Vec<", "std::vec::Vec<", "String", "std::string::String", "HashMap<", "HashSet<", "BTreeMap<", "BTreeSet<", "VecDeque<",
             "std::collections::"].iter().any(|p| d.starts_with(p))
        };
        let name = if let Some(m) = path.strip_prefix("std::iter::Iterator::") {
            match m {
                "any" | "all" | "find" | "find_map" | "position" | "count" | "fold" | "for_each" | "last" | "nth" | "max_by" | "zip" | "try_fold" | "try_for_each" => m.to_string(),
                "rposition" | "min_by_key" | "max_by_key" | "unzip" | "eq" | "ne" => format!("iter_{}", m),
                "collect" if tys.len() == 2 && coll(&tys[1]) => "collect".into(),
                "next" if tys.len() == 1 && format!("{}", tys[0]).contains("Zip<") && format!("{}", tys[0]).trim_start_matches("std::iter::").starts_with("Zip<") => "zip_next".into(),
                _ => return None,
            }
        } else if let Some(m) = path.strip_prefix("std::iter::DoubleEndedIterator::") {
            match m {
                "rfold" | "try_rfold" | "rfind" | "nth_back" => m.to_string(),
                _ => return None,
            }
        } else if let Some(m) = path.strip_prefix("core::slice::<impl [T]>::").or(path.strip_prefix("std::slice::<impl [T]>::")) {
            match m {
                "sort_by_key" | "sort_by_cached_key" | "sort_unstable_by_key" => "sort_by_key".into(),
                "binary_search" | "partition_point" | "fill" | "split_at" | "split_first" | "split_last" | "is_sorted" => m.to_string(),
                "split" => "slice_split".into(),
                "contains" => "slice_contains".into(),
                _ => return None,
            }
        } else if let Some(m) = path.strip_prefix("std::vec::Vec::<T, A>::") {
            match m {
                "dedup_by_key" | "dedup_by" | "resize_with" | "retain_mut" => m.to_string(),
                _ => return None,
            }
        } else if let Some(m) = path.strip_prefix("std::collections::BinaryHeap::<T, A>::") {
            match m {
                "pop" | "peek" => format!("heap_{}", m),
                _ => return None,
            }
        } else if let Some(m) = path.strip_prefix("std::collections::HashSet::<T, S, A>::") {
            match m {
                "is_subset" | "is_superset" | "is_disjoint" => m.to_string(),
                "difference" | "union" | "intersection" => format!("set_{}", m),
                _ => return None,
            }
        } else if let Some(m) = path.strip_prefix("core::f64::<impl f64>::").or(path.strip_prefix("std::f64::<impl f64>::")) {
            match m {
                "clamp" | "mul_add" | "recip" => format!("f64_{}", m),
                _ => return None,
            }
        } else if let Some(m) = path.strip_prefix("core::num::<impl usize>::") {
            match m {
                "pow" | "div_ceil" | "rem_euclid" | "div_euclid" | "is_multiple_of" | "abs_diff" => format!("usize_{}", m),
                _ => return None,
            }
        } else if let Some(m) = path.strip_prefix("core::num::<impl i32>::") {
            match m {
                "abs" | "signum" => format!("i32_{}", m),
                _ => return None,
            }
        } else if let Some(m) = path.strip_prefix("std::char::methods::<impl char>::") {
            match m {
                "to_digit" | "from_digit" => m.to_string(),
                "to_ascii_uppercase" => "ascii_upper".into(),
                "to_ascii_lowercase" => "ascii_lower".into(),
                _ => return None,
            }
        } else {
            match path {
                "std::iter::FromIterator::from_iter" if coll(&tys[0]) => "from_iter".into(),
                "std::iter::Extend::extend" if coll(&tys[0]) => "extend".into(),
                _ => return None,
            }
        };
        self.models.get(&name).copied()
    }

    fn resolve(&mut self, d: FnDef, a: &GenericArgs) -> Option<Instance> {
        let path = d.name();
        if let Some(m) = self.model(&path, a) {
            let mut ga = GenericArgs(a.0.iter().filter(|x| x.ty().is_some()).cloned().collect());
            if m.name().ends_with("::zip_next") {
                // [Zip<A, B>] -> [A, B]
                let t = *ga.0[0].expect_ty();
                if let TyKind::RigidTy(RigidTy::Adt(_, b)) = t.kind() {
                    ga = GenericArgs(b.0.iter().filter(|x| x.ty().is_some()).cloned().collect());
                }
            }
            if ["is_subset", "is_superset", "is_disjoint", "set_difference", "set_union", "set_intersection"].iter().any(|x| m.name().ends_with(&format!("::{}", x))) {
                ga.0.truncate(1);
            }
            if let Ok(i) = Instance::resolve(m, &ga) {
                return Some(i);
            }
        }
        Instance::resolve(d, a).ok()
    }

    fn func(&mut self, i: Instance) -> usize {
        let key = format!("{}|{:?}", i.mangled_name(), i.kind);
        if let Some(x) = self.fnmap.get(&key) {
            return *x;
        }
        let id = self.fns.len();
        self.fnmap.insert(key, id);
        self.fns.push("null".into());
        self.work.push((id, i));
        id
    }

    fn stopped(&self, name: &str) -> bool {
        self.stops.iter().any(|s| name.starts_with(s.as_str()))
    }

    fn process(&mut self, id: usize, i: Instance) {
        let name = i.name();
        let defname = i.def.name();
        let krate = i.def.krate().name;
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic".to_string(),
            InstanceKind::Virtual { .. } => "virtual".to_string(),
            InstanceKind::Shim => "shim".to_string(),
        };
        let local = krate == self.krate;
        let mut body = None;
        let want = match i.kind {
            InstanceKind::Item => {
                local || (["core", "alloc", "std", "models"].contains(&krate.as_str()) && !self.stopped(&name) && !self.stopped(&defname))
                    || (["core", "alloc", "std", "models"].contains(&krate.as_str()) && name.contains(&format!("{}::", self.krate)) && !self.stopped(&name))
            }
            InstanceKind::Shim => {
                // clone shims, closure-once shims, fn pointer shims
                !name.starts_with("std::ptr::drop") && !name.starts_with("core::ptr::drop") && !i.is_empty_shim()
                    && !name.contains("drop_in_place") && !name.contains("drop_glue")
            }
            _ => false,
        };
        if want && i.has_body() {
            body = i.body();
        }
        let sp = i.def.span();
        let spj = self.span(&sp);
        let fargs = self.args_tys(&i.args());
        let b = match body {
            None => String::new(),
            Some(b) => self.body(&b),
        };
        self.fns[id] = format!(
            r#"{{"id":{},"n":{},"t":{},"crate":{},"kind":"{}","local":{},"a":{},"span":{}{}}}"#,
            id, js(&name), js(&defname), js(&krate), kind, local, fargs, spj, b
        );
    }

    fn body(&mut self, b: &Body) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.entry(l).or_insert(v.name.clone());
            }
        }
        let mut locals = Vec::new();
        for (k, l) in b.locals().iter().enumerate() {
            let t = self.ty(l.ty);
            let n = names.get(&k).map(|s| js(s)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", t, n));
        }
        let mut bbs = Vec::new();
        for bb in &b.blocks {
            let mut ss = Vec::new();
            for s in &bb.statements {
                if let Some(x) = self.stmt(s) {
                    ss.push(x);
                }
            }
            let t = self.term(&bb.terminator, b);
            bbs.push(format!(r#"{{"s":{},"t":{}}}"#, arr(ss), t));
        }
        let spread = match b.spread_arg() { Some(x) => x.to_string(), None => "null".into() };
        format!(
            r#","nargs":{},"spread":{},"locals":{},"bbs":{}"#,
            b.arg_locals().len(), spread, arr(locals), arr(bbs)
        )
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            });
        }
        arr(v)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tid = self.ty(t);
                let v = self.konst(&c.const_);
                format!("[\"k\",{},{}]", tid, v)
            }
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", js(&format!("{:?}", r))),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, c.ty(), 0),
            ConstantKind::ZeroSized => "[\"zst\"]".into(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t, 0),
                TyConstKind::ZSTValue(_) => "[\"zst\"]".into(),
                TyConstKind::Param(p) => format!("[\"cparam\",{}]", js(&p.name)),
                _ => "[\"?\"]".into(),
            },
            ConstantKind::Unevaluated(_) => "[\"uneval\"]".into(),
            ConstantKind::Param(p) => format!("[\"cparam\",{}]", js(&p.name)),
        }
    }

    fn size_of(t: Ty) -> Option<usize> {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.layout().ok().map(|l| l.shape().size.bytes()))).ok().flatten()
    }

    fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if n == 0 { return Some(0); }
        a.read_partial_uint(off..off + n).ok()
    }

    // Decode bytes of an allocation at a type into a JSON tree.
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 40 {
            return "[\"deep\"]".into();
        }
        let TyKind::RigidTy(r) = t.kind() else { return "[\"?\"]".into() };
        match r {
            RigidTy::Bool => match Self::uint(a, off, 1) {
                Some(v) => format!("[\"b\",{}]", v != 0),
                None => "[\"undef\"]".into(),
            },
            RigidTy::Char => match Self::uint(a, off, 4) {
                Some(v) => format!("[\"ch\",{}]", v),
                None => "[\"undef\"]".into(),
            },
            RigidTy::Uint(u) => match Self::uint(a, off, u.num_bytes()) {
                Some(v) => format!("[\"i\",{}]", js(&v.to_string())),
                None => "[\"undef\"]".into(),
            },
            RigidTy::Int(u) => match Self::uint(a, off, u.num_bytes()) {
                Some(v) => {
                    let bits = u.num_bytes() * 8;
                    let s = if bits < 128 && (v >> (bits - 1)) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                    format!("[\"i\",{}]", js(&s.to_string()))
                }
                None => "[\"undef\"]".into(),
            },
            RigidTy::Float(f) => {
                let n = match f { FloatTy::F32 => 4, FloatTy::F64 => 8, _ => return "[\"?\"]".into() };
                match Self::uint(a, off, n) {
                    Some(v) => {
                        let x = if n == 8 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                        format!("[\"f\",{}]", js(&format!("{:?}", x)))
                    }
                    None => "[\"undef\"]".into(),
                }
            }
            RigidTy::Tuple(ts) => {
                if ts.is_empty() { return "[\"t\",[]]".into(); }
                let Ok(l) = t.layout() else { return "[\"?\"]".into() };
                let FieldsShape::Arbitrary { offsets } = l.shape().fields else { return "[\"?\"]".into() };
                let v: Vec<String> = ts.iter().enumerate().map(|(i, x)| self.decode(a, off + offsets[i].bytes(), *x, depth + 1)).collect();
                format!("[\"t\",{}]", arr(v))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let Some(sz) = Self::size_of(e) else { return "[\"?\"]".into() };
                if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = e.kind() {
                    let v: Vec<String> = (0..n).map(|i| Self::uint(a, off + i, 1).map(|x| x.to_string()).unwrap_or("-1".into())).collect();
                    return format!("[\"bytes\",{}]", arr(v));
                }
                let v: Vec<String> = (0..n).map(|i| self.decode(a, off + i * sz, e, depth + 1)).collect();
                format!("[\"arr\",{}]", arr(v))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => self.decode_ptr(a, off, e, depth),
            RigidTy::Adt(d, args) => {
                let Ok(l) = t.layout() else { return "[\"?\"]".into() };
                let sh = l.shape();
                match d.kind() {
                    AdtKind::Struct => {
                        let FieldsShape::Arbitrary { offsets } = sh.fields else { return "[\"?\"]".into() };
                        let v = d.variants();
                        let fs = v[0].fields();
                        let o: Vec<String> = fs.iter().enumerate().map(|(i, f)| {
                            let ft = f.ty_with_args(&args);
                            self.decode(a, off + offsets[i].bytes(), ft, depth + 1)
                        }).collect();
                        let tid = self.ty(t);
                        format!("[\"adt\",{},0,{}]", tid, arr(o))
                    }
                    AdtKind::Enum => {
                        let tid = self.ty(t);
                        let (idx, offs): (usize, Vec<usize>) = match &sh.variants {
                            VariantsShape::Single { index } => {
                                let FieldsShape::Arbitrary { offsets } = &sh.fields else { return "[\"?\"]".into() };
                                (index.to_index(), offsets.iter().map(|x| x.bytes()).collect())
                            }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let FieldsShape::Arbitrary { offsets } = &sh.fields else { return "[\"?\"]".into() };
                                let toff = offsets[*tag_field].bytes();
                                let mi = rustc_public::target::MachineInfo::target();
                                let prim = match tag {
                                    rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                                    rustc_public::abi::Scalar::Union { value } => *value,
                                };
                                let tsz = prim.size(&mi).bytes();
                                // Pointer niches: provenance => non-null payload
                                let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                let Some(tv) = Self::uint(a, off + toff, tsz) else { return "[\"undef\"]".into() };
                                let idx = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let mut r = None;
                                        for v in d.variants_iter() {
                                            let dv = d.discriminant_for_variant(v.idx()).val;
                                            let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                            if dv & mask == tv { r = Some(v.idx().to_index()); }
                                        }
                                        match r { Some(x) => x, None => return "[\"?\"]".into() }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        if has_prov {
                                            untagged_variant.to_index()
                                        } else {
                                            let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                            let rel = tv.wrapping_sub(*niche_start) & mask;
                                            let s = niche_variants.start().to_index();
                                            let e = niche_variants.end().to_index();
                                            if rel <= (e - s) as u128 { s + rel as usize } else { untagged_variant.to_index() }
                                        }
                                    }
                                };
                                (idx, variants[idx].offsets.iter().map(|x| x.bytes()).collect())
                            }
                            _ => return "[\"?\"]".into(),
                        };
                        let v = d.variants();
                        let fs = v[idx].fields();
                        let o: Vec<String> = fs.iter().enumerate().map(|(i, f)| {
                            let ft = f.ty_with_args(&args);
                            if i < offs.len() { self.decode(a, off + offs[i], ft, depth + 1) } else { "[\"?\"]".into() }
                        }).collect();
                        format!("[\"adt\",{},{},{}]", tid, idx, arr(o))
                    }
                    AdtKind::Union => "[\"union\"]".into(),
                }
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => "[\"zst\"]".into(),
            RigidTy::FnPtr(..) => {
                if let Some((_, p)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                        let id = self.func(i);
                        return format!("[\"fnptr\",{}]", id);
                    }
                }
                "[\"?\"]".into()
            }
            _ => "[\"?\"]".into(),
        }
    }

    fn decode_ptr(&mut self, a: &Allocation, off: usize, e: Ty, depth: usize) -> String {
        let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1 .0);
        let Some(pid) = prov else {
            // dangling / null pointer
            if let TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) = e.kind() {
                let len = Self::uint(a, off + 8, 8).unwrap_or(0);
                if len == 0 {
                    if let TyKind::RigidTy(RigidTy::Str) = e.kind() { return "[\"s\",\"\"]".into(); }
                    return "[\"rslice\",[]]".into();
                }
            }
            return "[\"nullptr\"]".into();
        };
        let poff = Self::uint(a, off, 8).unwrap_or(0) as usize;
        match GlobalAlloc::from(pid) {
            GlobalAlloc::Memory(m) => match e.kind() {
                TyKind::RigidTy(RigidTy::Str) => {
                    let len = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                    let by: Vec<u8> = (0..len).map(|i| Self::uint(&m, poff + i, 1).unwrap_or(63) as u8).collect();
                    format!("[\"s\",{}]", js(&String::from_utf8_lossy(&by)))
                }
                TyKind::RigidTy(RigidTy::Slice(et)) => {
                    let len = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                    if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = et.kind() {
                        let v: Vec<String> = (0..len).map(|i| Self::uint(&m, poff + i, 1).unwrap_or(63).to_string()).collect();
                        return format!("[\"rbytes\",{}]", arr(v));
                    }
                    let Some(sz) = Self::size_of(et) else { return "[\"?\"]".into() };
                    let v: Vec<String> = (0..len).map(|i| self.decode(&m, poff + i * sz, et, depth + 1)).collect();
                    format!("[\"rslice\",{}]", arr(v))
                }
                TyKind::RigidTy(RigidTy::Dynamic(..)) => "[\"dyn\"]".into(),
                _ => {
                    let v = self.decode(&m, poff, e, depth + 1);
                    format!("[\"r\",{}]", v)
                }
            },
            GlobalAlloc::Static(s) => {
                let id = self.stat(s);
                format!("[\"static\",{}]", id)
            }
            GlobalAlloc::Function(i) => format!("[\"fnptr\",{}]", self.func(i)),
            GlobalAlloc::VTable(..) => "[\"vtable\"]".into(),
            GlobalAlloc::TypeId { .. } => "[\"typeid\"]".into(),
        }
    }

    fn stat(&mut self, s: StaticDef) -> usize {
        let name = s.name();
        if let Some(i) = self.allocmap.get(&name) {
            return *i;
        }
        let id = self.allocs.len();
        self.allocmap.insert(name.clone(), id);
        self.allocs.push("null".into());
        let t = s.ty();
        let tid = self.ty(t);
        let v = match s.eval_initializer() {
            Ok(a) => self.decode(&a, 0, t, 0),
            Err(_) => "[\"?\"]".into(),
        };
        let krate = s.krate().name;
        let m = false;
        self.allocs[id] = format!(r#"{{"n":{},"ty":{},"crate":{},"mut":{},"v":{}}}"#, js(&name), tid, js(&krate), m, v);
        id
    }

    fn stmt(&mut self, s: &Statement) -> Option<String> {
        let sp = self.span(&s.source_info.span);
        Some(match &s.kind {
            StatementKind::Assign(p, r) => {
                let ps = self.place(p);
                let rs = self.rvalue(r);
                format!("[\"=\",{},{},{}]", ps, rs, sp)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                format!("[\"sd\",{},{},{}]", self.place(place), variant_index.to_index(), sp)
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                format!("[\"assume\",{},{}]", self.operand(o), sp)
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => format!("[\"copynonoverlap\",{}]", sp),
            StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
            StatementKind::StorageLive(l) => format!("[\"live\",{}]", l),
            _ => return None,
        })
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", *m == Mutability::Mut, {
                let mut q = p.clone();
                q.projection.push(ProjectionElem::Deref);
                self.place(&q)
            }),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x)).collect();
                let o = arr(o);
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},{}]", self.ty(*t), o),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,{}]", o),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!("[\"agg\",\"adt\",{},{},{},{}]", t, o, v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"agg\",\"closure\",{},{}]", t, o)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"agg\",\"rawptr\",{},{}]", self.ty(*t), o),
                    _ => format!("[\"agg\",\"other\",null,{}]", o),
                }
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(x)),
            Rvalue::Cast(k, o, t) => {
                let kn = match k {
                    CastKind::PointerCoercion(c) => format!("pc:{:?}", c),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", js(&kn), self.operand(o), self.ty(*t))
            }
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x as i64).unwrap_or(-1);
                format!("[\"rep\",{},{}]", self.operand(o), n)
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }

    fn term(&mut self, t: &Terminator, b: &Body) -> String {
        let sp = self.span(&t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let br: Vec<String> = targets.branches().map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b)).collect();
                format!("[\"switch\",{},{},{},{},{}]", self.operand(discr), arr(br), targets.otherwise(), ty, sp)
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"drop\",{},{},{},{}]", self.place(place), target, ty, sp)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = self.operand(func);
                let a: Vec<String> = args.iter().map(|x| self.operand(x)).collect();
                format!(
                    "[\"call\",{},{},{},{},{}]",
                    f, arr(a), self.place(destination),
                    target.map(|x| x.to_string()).unwrap_or("null".into()), sp
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let k = format!("{:?}", msg);
                let k: String = k.chars().take_while(|c| c.is_alphanumeric()).collect();
                let extra = match msg {
                    AssertMessage::Overflow(op, x, y) => format!("[\"{:?}\",{},{}]", op, self.operand(x), self.operand(y)),
                    AssertMessage::BoundsCheck { len, index } => format!("[\"idx\",{},{}]", self.operand(len), self.operand(index)),
                    AssertMessage::DivisionByZero(x) | AssertMessage::RemainderByZero(x) | AssertMessage::OverflowNeg(x) => format!("[\"z\",{}]", self.operand(x)),
                    _ => "null".into(),
                };
                format!("[\"assert\",{},{},{},{},{},{}]", self.operand(cond), expected, js(&k), extra, target, sp)
            }
            TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
        }
    }
}

struct TyD(Ty);
impl std::fmt::Display for TyD {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

fn analyze(out: String) -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    let stops = std::env::var("MIRDUMP_STOPS").unwrap_or_default();
    let mut cx = Cx {
        tys: vec![], tymap: HashMap::new(), fns: vec![], fnmap: HashMap::new(), work: vec![],
        files: vec![], filemap: HashMap::new(), krate: krate.name.clone(),
        stops: stops.split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        allocs: vec![], allocmap: HashMap::new(), models: HashMap::new(),
    };
    for c in rustc_public::find_crates("models") {
        for f in c.fn_defs() {
            let n = f.name();
            if let Some(m) = n.strip_prefix("models::") {
                if !m.contains("::") {
                    cx.models.insert(m.to_string(), f);
                }
            }
        }
    }
    let mut roots = Vec::new();
    let mut poly = Vec::new();
    for item in rustc_public::all_local_items() {
        match item.kind() {
            ItemKind::Fn => {
                if item.requires_monomorphization() {
                    let sp = item.span();
                    let s = cx.span(&sp);
                    poly.push(format!("[{},{}]", js(&item.name()), s));
                } else if let Ok(i) = Instance::try_from(item) {
                    roots.push(cx.func(i).to_string());
                }
            }
            ItemKind::Static => {
                if let Ok(s) = StaticDef::try_from(item) {
                    cx.stat(s);
                }
            }
            _ => {}
        }
    }
    while let Some((id, i)) = cx.work.pop() {
        cx.process(id, i);
    }
    // local statics again (name -> id) and trait impls of the crate
    let mut impls = Vec::new();
    for im in krate.trait_impls() {
        let tr = im.trait_impl();
        let v = tr.value;
        let selft = v.self_ty();
        let t = cx.ty(selft);
        impls.push(format!("[{},{}]", js(&v.def_id.name()), t));
    }
    while let Some((id, i)) = cx.work.pop() {
        cx.process(id, i);
    }
    let files: Vec<String> = cx.files.iter().map(|f| js(f)).collect();
    let s = format!(
        "{{\"crate\":{},\"files\":{},\n\"roots\":{},\n\"poly\":{},\n\"impls\":{},\n\"statics\":[\n{}],\n\"tys\":[\n{}],\n\"fns\":[\n{}]}}\n",
        js(&krate.name), arr(files), arr(roots), arr(poly), arr(impls),
        cx.allocs.join(",\n"), cx.tys.join(",\n"), cx.fns.join(",\n")
    );
    std::fs::write(&out, s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    // argv: mirdump <rustc> args...
    let mut args: Vec<String> = std::env::args().collect();
    let real = args.remove(1);
    let want: Vec<String> = std::env::var("MIRDUMP_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut cname = None;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            cname = Some(w[1].clone());
        }
    }
    let is_bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    match cname {
        Some(c) if want.contains(&c) => {
            let dir = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            let out = format!("{}/{}.{}.json", dir, c, if is_bin { "bin" } else { "lib" });
            args[0] = "rustc".into();
            args.push("-Zmir-opt-level=0".into());
            args.push("-Awarnings".into());
            if let Ok(m) = std::env::var("MIRDUMP_MODELS") {
                args.push("--extern".into());
                args.push(format!("force:models={}", m));
                if let Some(d) = std::path::Path::new(&m).parent() {
                    args.push("-L".into());
                    args.push(d.display().to_string());
                }
                args.push("-Zunstable-options".into());
            }
            let r = run!(&args, move || analyze(out));
            if r.is_err() {
                std::process::exit(101);
            }
        }
        _ => {
            let st = std::process::Command::new(real).args(&args[1..]).status().expect("rustc");
            std::process::exit(st.code().unwrap_or(1));
        }
    }
}
