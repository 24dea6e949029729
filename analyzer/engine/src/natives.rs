//! Calls: dispatch and the semantics of standard-library functions without a dumped body.
use crate::dom::*;
use crate::interp::*;
use crate::ir::*;
use crate::num::*;
use crate::state::*;
use std::collections::BTreeMap;
use std::rc::Rc;

type Rets = Vec<(State, Val)>;
const CAPN: usize = 16384;

fn opt(b: Lin, v: Val) -> Val {
    match b.konst() {
        Some(0) => none(),
        Some(_) => some(v),
        None => {
            let mut m = BTreeMap::new();
            m.insert(1, vec![v]);
            m.insert(0, vec![]);
            Val::Enum(b, Rc::new(m))
        }
    }
}
fn okv(v: Val) -> Val {
    variant(0, vec![v])
}
fn errv(v: Val) -> Val {
    variant(1, vec![v])
}
/// Ok(v) if c, else Err(e)
fn res(n: &Num, c: Lin, v: Val, e: Val) -> Val {
    match c.konst() {
        Some(0) => errv(e),
        Some(_) => okv(v),
        None => {
            let mut m = BTreeMap::new();
            m.insert(0, vec![v]);
            m.insert(1, vec![e]);
            Val::Enum(n.bnot(&c), Rc::new(m))
        }
    }
}

impl<'a> Interp<'a> {
    fn cur(&self) -> InstId {
        self.stack.last().map_or(0, |x| x.0)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn call(&mut self, mut st: State, f: &Callee, args: Vec<Val>, at: &[TyId], rty: TyId, sp: u32, fnval: Option<Val>, diverges: bool) -> Rets {
        match &f.k {
            CalleeK::Inst(i) => self.call_inst(st, *i, f, args, at, rty, sp, diverges),
            CalleeK::Ctor(t, v) => {
                let is_enum = self.tt.adt(*t).map_or(false, |a| a.3);
                vec![(st, if is_enum { variant(*v as u32, args) } else { agg(args) })]
            }
            CalleeK::Ptr(_) => match fnval {
                Some(Val::Fn(v)) => {
                    let mut out = vec![];
                    let n = v.len();
                    for i in v.iter() {
                        let mut s = st.clone();
                        // which target is not known exactly
                        let m = crate::pc::Fact::B(fresh_lin(0, 1, true), true);
                        if n > 1 {
                            s.num.pc = crate::pc::and(&s.num.pc, m.clone());
                        }
                        let dummy = Callee { k: CalleeK::Inst(*i), decl: String::new(), name: String::new(), args: vec![] };
                        let mut r = self.call_inst(s, *i, &dummy, args.clone(), at, rty, sp, diverges);
                        if n > 1 {
                            for x in r.iter_mut() {
                                x.0.num.pc = crate::pc::without(&x.0.num.pc, &m);
                            }
                        }
                        out.extend(r);
                    }
                    out
                }
                _ => self.unknown_call(st, "fn pointer", &args, at, rty, diverges),
            },
            CalleeK::Virtual(_) => {
                let dynty = match args.first() {
                    Some(Val::Ptr(p)) => p.dynty,
                    _ => None,
                };
                let tr = f.args.first().cloned().unwrap_or(0);
                if let Some(c) = dynty {
                    let hit = self.p.vt.get(&(c, tr)).and_then(|m| m.get(&f.name)).cloned().or_else(|| self.p.vt.iter().find(|(k, m)| k.0 == c && m.contains_key(&f.name)).and_then(|(_, m)| m.get(&f.name)).cloned());
                    if let Some(i) = hit {
                        let mut a = args;
                        if let Val::Ptr(p) = &a[0] {
                            let mut q = p.as_ref().clone();
                            q.dynty = None;
                            q.rty = c;
                            a[0] = Val::Ptr(Rc::new(q));
                        }
                        return self.call_inst(st, i, f, a, at, rty, sp, diverges);
                    }
                    // iterator objects: resolve by name among dumped instances
                    let want = self.p.insts.iter().position(|x| x.body.is_some() && x.name == f.name && x.selfty == c as i64);
                    if let Some(i) = want {
                        return self.call_inst(st, i, f, args, at, rty, sp, diverges);
                    }
                }
                // unknown object: every implementation is possible
                let cands: Vec<InstId> = self.p.vt.iter().filter(|(k, _)| k.1 == tr).filter_map(|(_, m)| m.get(&f.name)).cloned().collect();
                if self.debug {
                    *self.tops.entry(format!("virtual {} without object type ({} candidates)", f.decl, cands.len())).or_default() += 1;
                }
                let nm = format!("virtual {}", f.decl);
                self.unknown_call(st, &nm, &args, at, rty, diverges)
            }
            CalleeK::Intrinsic(n) => {
                let n = n.clone();
                if n == "integer_max" || n == "integer_min" {
                    if let (Val::Int(a), Val::Int(b)) = (&args[0], &args[1]) {
                        let (a, b) = (a.clone(), b.clone());
                        let c = st.num.ge0(&if n == "integer_max" { a.sub(&b) } else { b.sub(&a) });
                        return self.split2(st, &c, |_, _| Val::Int(a.clone()), |_, _| Val::Int(b.clone()));
                    }
                }
                match self.intrinsic(&mut st, &n, &args, at, rty) {
                    Some(v) => vec![(st, v)],
                    None => self.unknown_call(st, &format!("intrinsic {}", n), &args, at, rty, diverges),
                }
            }
            CalleeK::Unresolved => self.unknown_call(st, &f.decl.clone(), &args, at, rty, diverges),
        }
    }
    fn unknown_call(&mut self, mut st: State, what: &str, args: &[Val], _at: &[TyId], rty: TyId, diverges: bool) -> Rets {
        *self.unknown.entry(what.to_string()).or_default() += 1;
        if diverges {
            return vec![];
        }
        for a in args {
            self.havoc(&mut st, a, 0);
        }
        let v = self.tt.top(rty, true);
        vec![(st, v)]
    }
    fn havoc(&mut self, st: &mut State, v: &Val, d: u32) {
        if d > 4 {
            return;
        }
        match v {
            Val::Ptr(p) => {
                if let Root::Loc(..) = p.root {
                    let c = Loc { root: p.root.clone(), path: p.path.clone(), ty: p.rty, view: None, dynty: None, boxptr: false };
                    let inner = self.raw(st, &c);
                    if let Val::Ptr(_) = inner {
                        self.havoc(st, &inner, d + 1);
                    }
                    let t = self.tt.top(p.rty, true);
                    self.write(st, &c, t);
                }
            }
            Val::Agg(a) => {
                for x in a.iter() {
                    self.havoc(st, x, d + 1);
                }
            }
            _ => {}
        }
    }
    #[allow(clippy::too_many_arguments)]
    pub fn call_inst(&mut self, st: State, i: InstId, f: &Callee, mut args: Vec<Val>, at: &[TyId], rty: TyId, sp: u32, diverges: bool) -> Rets {
        let p = self.p;
        let inst = &p.insts[i];
        if inst.local && inst.path.starts_with("__verif::") {
            if let Some(r) = self.harness(&st, &inst.name, &args, rty, sp, diverges, f) {
                return r;
            }
        }
        if inst.kind == "fnptr" {
            return self.call_fn_value(st, args, at, rty, sp, diverges);
        }
        let mut st = st;
        if !inst.features.is_empty() && !self.gate(&mut st, i, sp) {
            return vec![];
        }
        if let Some(b) = &inst.body {
            // closure bodies take their arguments untupled
            if matches!(f.name.as_str(), "call" | "call_mut" | "call_once") && f.decl.starts_with("std::ops::Fn") && b.spread < 0 && args.len() == 2 && b.args != 2 {
                args = self.untuple(args, at);
            } else if matches!(f.name.as_str(), "call" | "call_mut" | "call_once") && f.decl.starts_with("std::ops::Fn") && b.spread < 0 && args.len() == 2 && b.args == 2 && inst.path.contains("{closure") {
                args = self.untuple(args, at);
            }
            if self.stack.len() > 60 {
                return self.unknown_call(st, "call depth", &args, at, rty, diverges);
            }
            return self.exec_fn(st, i, args);
        }
        if let Some(r) = self.native(&st, i, f, &args, at, rty, sp, diverges) {
            return r;
        }
        let path = inst.path.clone();
        self.unknown_call(st, &path, &args, at, rty, diverges)
    }
    /// code that needs a CPU feature is reached only where the feature was found present
    fn gate(&mut self, st: &mut State, i: InstId, sp: u32) -> bool {
        let p = self.p;
        let have: &[String] = match st.frames.last() {
            Some(f) => &p.insts[f.inst].features,
            None => return true,
        };
        if p.insts[self.cur()].features.is_empty() && !p.insts[self.cur()].local {
            return true;
        }
        for f in &p.insts[i].features {
            if BASELINE.contains(&f.as_str()) || have.iter().any(|h| h == f || implies(h, f)) {
                continue;
            }
            let g: Vec<(String, Lin)> = self.feat.iter().filter(|(h, _)| *h == f || implies(h, f)).map(|(h, l)| (h.clone(), l.clone())).collect();
            if g.iter().any(|(_, l)| st.num.konst(&st.num.norm(l)) == Some(1)) {
                let one = Lin::k(1);
                self.need(st, &one, "gate", sp, "");
                continue;
            }
            let c = match g.iter().find(|(h, _)| h == f).or(g.first()) {
                Some((_, l)) => st.num.norm(l),
                None => Lin::k(0),
            };
            let what = format!("{} needs the CPU feature {} and is called where it has not been detected", p.insts[i].path, f);
            if !self.need(st, &c, "gate", sp, &what) {
                return false;
            }
        }
        true
    }
    fn untuple(&self, mut args: Vec<Val>, at: &[TyId]) -> Vec<Val> {
        let t = args.pop().unwrap();
        match t {
            Val::Agg(v) => args.extend(v.iter().cloned()),
            _ => {
                if let Some(TyK::Tuple(e)) = at.get(1).map(|t| self.tt.k(*t)) {
                    for _ in e {
                        args.push(Val::Top);
                    }
                }
            }
        }
        args
    }
    /// call of a function item, closure or function pointer through the Fn traits
    fn call_fn_value(&mut self, mut st: State, args: Vec<Val>, at: &[TyId], rty: TyId, sp: u32, diverges: bool) -> Rets {
        let mut t = at[0];
        let mut v = args[0].clone();
        for _ in 0..3 {
            if let TyK::Ref(x, _) = self.tt.k(t) {
                let l = self.deref(&mut st, &v, t);
                v = self.read(&mut st, &l);
                t = *x;
            }
        }
        let tup = args.last().cloned().unwrap_or(Val::Top);
        let tt = at.last().cloned().unwrap_or(0);
        let (els, ets): (Vec<Val>, Vec<TyId>) = match (&tup, self.tt.k(tt)) {
            (Val::Agg(x), TyK::Tuple(e)) => (x.as_ref().clone(), e.clone()),
            (_, TyK::Tuple(e)) => (vec![Val::Top; e.len()], e.clone()),
            _ => (vec![tup.clone()], vec![tt]),
        };
        match self.tt.k(t) {
            TyK::FnDef(c) => {
                let c = c.as_ref().clone();
                self.call(st, &c, els, &ets, rty, sp, None, diverges)
            }
            TyK::FnPtr => {
                let c = Callee { k: CalleeK::Ptr(Box::new(OpBox(Op::Const(Const { t: 0, k: ConstK::Unk })))), decl: String::new(), name: String::new(), args: vec![] };
                self.call(st, &c, els, &ets, rty, sp, Some(v), diverges)
            }
            TyK::Closure(_, i) => {
                let i = *i;
                let mut a = vec![v];
                a.extend(els);
                if self.p.insts[i].body.is_some() { self.exec_fn(st, i, a) } else { self.unknown_call(st, "closure", &a, at, rty, diverges) }
            }
            _ => self.unknown_call(st, "callable", &args, at, rty, diverges),
        }
    }
    // ------------------------------------------------------------ harness
    #[allow(clippy::too_many_arguments)]
    fn harness(&mut self, st: &State, name: &str, args: &[Val], rty: TyId, sp: u32, _div: bool, f: &Callee) -> Option<Rets> {
        let mut st = st.clone();
        let gk = |v: &Val| if let Val::Int(l) = v { l.konst().unwrap_or(0) as u32 } else { 0 };
        let r = match name {
            "nd_bool" => Val::Int(fresh_lin(0, 1, false)),
            "nd_u8" => Val::Int(fresh_lin(0, 255, false)),
            "nd_u16" => Val::Int(fresh_lin(0, 65535, false)),
            "nd_usize" => Val::Int(fresh_lin(0, (1i128 << 64) - 1, false)),
            "nd_range" => {
                let (a, b) = (st.num.range(&self.int(&args[0], None)).0, st.num.range(&self.int(&args[1], None)).1);
                Val::Int(fresh_lin(a, b, false))
            }
            "weak_u8" => Val::Int(fresh_lin(0, 255, true)),
            "nd_transform" => {
                let n = self.tt.adt(rty).map_or(1, |a| a.2.len()) as i128;
                Val::Enum(fresh_lin(0, n - 1, false), Rc::new(BTreeMap::new()))
            }
            "nd_ioerror" => Val::Nat("ioerr", Rc::new(vec![])),
            "split" => {
                // explicit case split on a boolean
                let c = st.num.norm(&self.int(&args[0], Some(BOOL)));
                return match st.num.decide(&c) {
                    Some(b) => Some(vec![(st, kint(b as i128))]),
                    None => {
                        let mut o = st.clone();
                        let mut out = vec![];
                        if st.num.assume(&c, true) {
                            out.push((st, kint(1)));
                        }
                        if o.num.assume(&c, false) {
                            out.push((o, kint(0)));
                        }
                        Some(out)
                    }
                };
            }
            "assume" => {
                let c = self.int(&args[0], Some(BOOL));
                if !st.num.assume(&c, true) {
                    return Some(vec![]);
                }
                unit()
            }
            "check" | "check_eq" => {
                let id = self.lit(&args[args.len() - 1]);
                let c = if name == "check" {
                    self.int(&args[0], Some(BOOL))
                } else {
                    let (a, b) = (self.int(&args[0], None), self.int(&args[1], None));
                    st.num.eq0(&a.sub(&b))
                };
                let c = st.num.norm(&c);
                let cur = self.cur();
                let before: Vec<_> = self.obl.get(&(format!("check:{}", id), cur, sp)).map(|o| (o.proven, o.undecided, o.violated)).into_iter().collect();
                let _ = before;
                self.oblige(&mut st, &c, &format!("check:{}", id), cur, sp, "");
                let alive = st.num.assume(&c, true);
                if !alive {
                    return Some(vec![]);
                }
                unit()
            }
            "reach" => {
                let id = self.lit(&args[0]);
                if self.quiet == 0 {
                    self.reached.insert(id);
                }
                unit()
            }
            "dump_str" => {
                if self.debug && self.quiet == 0 {
                    eprintln!("dump {} : {:?} info {:?}", self.lit(&args[1]), args[0], if let Val::Int(l) = &args[0] { Some(st.num.range(l)) } else { None });
                }
                unit()
            }
            "ghost" => {
                let (k, v) = (gk(&args[0]), self.int(&args[1], None));
                let v = st.num.norm(&v);
                Rc::make_mut(&mut st.gnum).insert(k, v);
                unit()
            }
            // keep states with different values apart for good
            "part" => {
                let v = self.int(&args[1], None);
                let Some(v) = st.num.norm(&v).konst() else { return Some(vec![(st, unit())]) };
                Rc::make_mut(&mut st.ghosts).insert(gk(&args[0]), v);
                unit()
            }
            "part_of" => kint(st.ghosts.get(&gk(&args[0])).cloned().unwrap_or(0)),
            "pick" => {
                let (a, b) = (self.int(&args[1], None).konst().unwrap_or(0), self.int(&args[2], None).konst().unwrap_or(0));
                let mut out = vec![];
                for v in a..=b {
                    let mut s = st.clone();
                    Rc::make_mut(&mut s.ghosts).insert(gk(&args[0]), v);
                    out.push((s, kint(v)));
                }
                return Some(out);
            }
            "ghost_of" => {
                let k = gk(&args[0]);
                Val::Int(st.gnum.get(&k).cloned().unwrap_or(Lin::k(0)))
            }
            "stop" => return Some(vec![]),
            "bigbuf" => {
                // a slice of unbounded length with irrelevant content
                let s = summ(Lin::k(8192), Val::Undef);
                let rp = self.tt.pointee(rty).unwrap_or(rty);
                Val::Ptr(Rc::new(PtrV { root: Root::Cst(Rc::new(s)), path: vec![], view: Some((Lin::k(0), Lin::k(8192))), dynty: None, rty: rp }))
            }
            // the enclosing loop runs an unknown number of times
            "loop_nd" => {
                if let Some(x) = self.nd.last_mut() {
                    x.nd = true;
                }
                unit()
            }
            "native_next" => return Some(self.par_next(st, &args[0], f, rty)),
            _ => return None,
        };
        Some(vec![(st, r)])
    }
    fn lit(&self, v: &Val) -> String {
        if let Val::Ptr(p) = v {
            if let Root::Cst(c) = &p.root {
                if let Val::Seq(s) = c.as_ref() {
                    if let SeqD::Exact(e) = &s.d {
                        return e.iter().filter_map(|x| if let Val::Int(l) = x { l.konst().map(|k| k as u8 as char) } else { None }).collect();
                    }
                }
            }
        }
        String::new()
    }
    fn par_next(&mut self, mut st: State, itp: &Val, f: &Callee, rty: TyId) -> Rets {
        let t = f.args.first().cloned().unwrap_or(0);
        let pv = match itp {
            Val::Ptr(p) => p.clone(),
            _ => return vec![(st, self.tt.top(rty, true))],
        };
        let c = Loc { root: pv.root.clone(), path: pv.path.clone(), ty: t, view: None, dynty: None, boxptr: false };
        let v = self.read(&mut st, &c);
        match &v {
            Val::Nat("enum", a) => {
                let inner = a[0].clone();
                let k = self.int(&a[1], None);
                let rs = self.chunk_next(st, &inner);
                rs.into_iter()
                    .map(|(mut s, nv, r)| {
                        let kk = k.addk(1);
                        self.write(&mut s, &c, Val::Nat("enum", Rc::new(vec![nv, Val::Int(kk)])));
                        let r = match r {
                            Some(x) => some(agg(vec![Val::Int(k.clone()), x])),
                            None => none(),
                        };
                        (s, r)
                    })
                    .collect()
            }
            Val::Nat("chunks", _) => self
                .chunk_next(st, &v)
                .into_iter()
                .map(|(mut s, nv, r)| {
                    self.write(&mut s, &c, nv);
                    (s, r.map_or(none(), some))
                })
                .collect(),
            _ => vec![(st, self.tt.top(rty, true))],
        }
    }
    /// Nat("chunks",[ptr, n, exact]) -> (state, rest, item)
    fn chunk_next(&mut self, st: State, v: &Val) -> Vec<(State, Val, Option<Val>)> {
        let Val::Nat(_, a) = v else { return vec![] };
        let Val::Ptr(p) = &a[0] else { return vec![] };
        let n = self.int(&a[1], None);
        let exact = self.int(&a[2], None).konst() == Some(1);
        let (s0, len) = p.view.clone().unwrap();
        let mk = |s: Lin, l: Lin| Val::Ptr(Rc::new(PtrV { view: Some((s, l)), ..p.as_ref().clone() }));
        let mut out = vec![];
        let full = st.num.ge0(&len.sub(&n));
        let mut parts = vec![];
        match st.num.decide(&full) {
            Some(true) => parts.push((st, true)),
            Some(false) => parts.push((st, false)),
            None => {
                self.mark_inner();
                let mut a = st.clone();
                if a.num.assume(&full, true) {
                    parts.push((a, true));
                }
                let mut b = st;
                if b.num.assume(&full, false) {
                    parts.push((b, false));
                }
            }
        }
        for (s, fl) in parts {
            if fl {
                let item = mk(s0.clone(), n.clone());
                let rest = mk(s0.add(&n), len.sub(&n));
                out.push((s, Val::Nat("chunks", Rc::new(vec![rest, a[1].clone(), a[2].clone()])), Some(item)));
                continue;
            }
            let empty = Val::Nat("chunks", Rc::new(vec![mk(s0.add(&len), Lin::k(0)), a[1].clone(), a[2].clone()]));
            if exact {
                out.push((s, v.clone(), None));
                continue;
            }
            let some_left = s.num.ge0(&len.addk(-1));
            match s.num.decide(&some_left) {
                Some(true) => out.push((s, empty, Some(a[0].clone()))),
                Some(false) => out.push((s, v.clone(), None)),
                None => {
                    self.mark_inner();
                    let mut x = s.clone();
                    if x.num.assume(&some_left, true) {
                        out.push((x, empty.clone(), Some(a[0].clone())));
                    }
                    let mut y = s;
                    if y.num.assume(&some_left, false) {
                        out.push((y, v.clone(), None));
                    }
                }
            }
        }
        out
    }
    // ------------------------------------------------------------ helpers
    /// view of a reference to slice, array, vec
    pub fn sl(&mut self, st: &mut State, v: &Val, ty: TyId) -> Rc<PtrV> {
        match v {
            Val::Ptr(p) => {
                if p.view.is_some() {
                    return p.clone();
                }
                let t = self.tt.pointee(ty).unwrap_or(p.rty);
                let t = if matches!(self.tt.k(p.rty), TyK::Array(..)) || self.tt.is_vec(p.rty) { p.rty } else { t };
                let c = Loc { root: p.root.clone(), path: p.path.clone(), ty: t, view: None, dynty: None, boxptr: false };
                let n = self.len_of(st, &c);
                Rc::new(PtrV { view: Some((Lin::k(0), n)), rty: t, dynty: None, ..p.as_ref().clone() })
            }
            _ => {
                let t = self.tt.pointee(ty).unwrap_or(ty);
                Rc::new(PtrV { root: Root::Cst(Rc::new(summ(Lin::k(1 << 40), Val::Top))), path: vec![], view: Some((Lin::k(0), fresh_lin(0, 1 << 40, true))), dynty: None, rty: t })
            }
        }
    }
    fn eptr(&self, p: &PtrV, i: &Lin) -> Val {
        let mut path = p.path.clone();
        let s = p.view.as_ref().map_or(i.clone(), |v| v.0.add(i));
        path.push(Pe::I(s));
        Val::Ptr(Rc::new(PtrV { root: p.root.clone(), path, view: None, dynty: None, rty: self.tt.elem(p.rty).unwrap_or(p.rty) }))
    }
    fn sub(&self, p: &PtrV, s: &Lin, l: &Lin) -> Val {
        let (a, _) = p.view.clone().unwrap();
        Val::Ptr(Rc::new(PtrV { view: Some((a.add(s), l.clone())), ..p.clone() }))
    }
    fn cont(&self, p: &PtrV) -> Loc {
        Loc { root: p.root.clone(), path: p.path.clone(), ty: p.rty, view: None, dynty: None, boxptr: false }
    }
    /// the sequence a view covers, as a value
    pub fn seq_of(&mut self, st: &mut State, p: &PtrV) -> SeqV {
        let c = self.cont(p);
        let v = self.read(st, &c);
        let (s, l) = p.view.clone().unwrap();
        match v {
            Val::Seq(q) => match &q.d {
                SeqD::Exact(e) => {
                    if let (Some(a), Some(n)) = (st.num.konst(&s), st.num.konst(&l)) {
                        if a >= 0 && n >= 0 && (a + n) as usize <= e.len() {
                            return SeqV { len: Lin::k(n), d: SeqD::Exact(e[a as usize..(a + n) as usize].to_vec()) };
                        }
                    }
                    let mut acc = e.first().cloned().unwrap_or(Val::Undef);
                    for x in e.iter().skip(1) {
                        acc = tmpl(&st.num, &st.num, &acc, x);
                    }
                    SeqV { len: l, d: SeqD::Summ(acc) }
                }
                SeqD::Summ(e) => SeqV { len: l, d: SeqD::Summ(e.clone()) },
            },
            _ => SeqV { len: l, d: SeqD::Summ(Val::Top) },
        }
    }
    fn fold_elem(&self, n: &Num, s: &SeqV) -> Option<Val> {
        match &s.d {
            SeqD::Summ(Val::Undef) => None,
            SeqD::Summ(e) => Some(e.clone()),
            SeqD::Exact(e) => {
                let mut it = e.iter();
                let mut acc = it.next()?.clone();
                for x in it {
                    acc = tmpl(n, n, &acc, x);
                }
                Some(acc)
            }
        }
    }
    fn cat(&self, n: &Num, a: &SeqV, b: &SeqV) -> SeqV {
        if let (SeqD::Exact(x), SeqD::Exact(y)) = (&a.d, &b.d) {
            if x.len() + y.len() <= CAPN {
                let mut v = x.clone();
                v.extend(y.iter().cloned());
                return SeqV { len: Lin::k(v.len() as i128), d: SeqD::Exact(v) };
            }
        }
        let len = n.norm(&a.len.add(&b.len));
        if n.konst(&a.len) == Some(0) {
            return SeqV { len, d: b.d.clone() };
        }
        if n.konst(&b.len) == Some(0) {
            return SeqV { len, d: a.d.clone() };
        }
        let e = match (self.fold_elem(n, a), self.fold_elem(n, b)) {
            (None, None) => Val::Undef,
            (Some(x), None) | (None, Some(x)) => x,
            (Some(x), Some(y)) => tmpl(n, n, &x, &y),
        };
        SeqV { len, d: SeqD::Summ(e) }
    }
    fn get_seq(&mut self, st: &mut State, v: &Val, ty: TyId) -> (Loc, SeqV) {
        let c = self.deref(st, v, ty);
        let s = match self.read(st, &c) {
            Val::Seq(s) => s.as_ref().clone(),
            _ => SeqV { len: fresh_lin(0, 1 << 40, true), d: SeqD::Summ(Val::Top) },
        };
        (c, s)
    }
    /// write a sequence into a view
    pub fn store(&mut self, st: &mut State, p: &PtrV, src: &SeqV) {
        let c = self.cont(p);
        let (s, l) = p.view.clone().unwrap();
        let v = self.read(st, &c);
        if let Val::Seq(q) = v {
            let mut q = q.as_ref().clone();
            let whole = st.num.konst(&s) == Some(0) && st.num.decide(&st.num.eq0(&l.sub(&q.len))) == Some(true);
            if whole {
                q.d = match (&src.d, &q.d) {
                    (SeqD::Exact(e), _) => SeqD::Exact(e.clone()),
                    (SeqD::Summ(e), SeqD::Exact(o)) => SeqD::Exact(o.iter().map(|_| instantiate(&st.num, e)).collect()),
                    (SeqD::Summ(e), _) => SeqD::Summ(e.clone()),
                };
                self.write(st, &c, Val::Seq(Rc::new(q)));
                return;
            }
            if let (SeqD::Exact(o), Some(a), Some(n)) = (&mut q.d, st.num.konst(&s), st.num.konst(&l)) {
                if a >= 0 && n >= 0 && (a + n) as usize <= o.len() {
                    for k in 0..n as usize {
                        o[a as usize + k] = match &src.d {
                            SeqD::Exact(e) if k < e.len() => e[k].clone(),
                            SeqD::Summ(e) => instantiate(&st.num, e),
                            _ => Val::Top,
                        };
                    }
                    self.write(st, &c, Val::Seq(Rc::new(q)));
                    return;
                }
            }
            let own = self.fold_elem(&st.num, &q);
            let other = self.fold_elem(&st.num, src);
            let e = match (own, other) {
                (Some(x), Some(y)) => tmpl(&st.num, &st.num, &x, &y),
                (Some(x), None) | (None, Some(x)) => x,
                _ => Val::Undef,
            };
            q.d = SeqD::Summ(e);
            self.write(st, &c, Val::Seq(Rc::new(q)));
        }
    }
    fn mark_inner(&mut self) {
        if let Some(x) = self.nd.last_mut() {
            x.set();
        }
    }
    /// nd-marking decision on an iterator's "has next"
    fn more(&mut self, st: &State, l: &Lin) -> Lin {
        let b = st.num.norm(&st.num.ge0(&l.addk(-1)));
        match st.num.decide(&b) {
            Some(t) => Lin::k(t as i128),
            None => {
                self.mark_inner();
                b
            }
        }
    }
    fn split2(&mut self, st: State, b: &Lin, yes: impl FnOnce(&mut Self, &mut State) -> Val, no: impl FnOnce(&mut Self, &mut State) -> Val) -> Rets {
        match st.num.decide(b) {
            Some(true) => {
                let mut s = st;
                let v = yes(self, &mut s);
                vec![(s, v)]
            }
            Some(false) => {
                let mut s = st;
                let v = no(self, &mut s);
                vec![(s, v)]
            }
            None => {
                let mut out = vec![];
                let mut a = st.clone();
                let mut c = st;
                if a.num.assume(b, true) {
                    let v = yes(self, &mut a);
                    out.push((a, v));
                }
                if c.num.assume(b, false) {
                    let v = no(self, &mut c);
                    out.push((c, v));
                }
                out
            }
        }
    }
    fn need(&mut self, st: &mut State, c: &Lin, kind: &str, sp: u32, what: &str) -> bool {
        let i = self.cur();
        self.oblige(st, c, kind, i, sp, what)
    }
    /// (start, len) of a range argument over a sequence of length n, with bounds obligation
    fn range_arg(&mut self, st: &mut State, v: &Val, ty: TyId, n: &Lin, sp: u32, check: bool) -> Option<(Lin, Lin)> {
        let name = self.tt.short(ty).to_string();
        let g = |s: &Self, k: usize| -> Lin {
            match v {
                Val::Agg(a) if k < a.len() => s.int(&a[k], Some(U64)),
                _ => fresh_lin(0, 1 << 40, true),
            }
        };
        let (a, b) = match name.as_str() {
            "Range" => (g(self, 0), g(self, 1)),
            "RangeFrom" => (g(self, 0), n.clone()),
            "RangeTo" => (Lin::k(0), g(self, 0)),
            "RangeFull" => return Some((Lin::k(0), n.clone())),
            "RangeInclusive" => (g(self, 0), g(self, 1).addk(1)),
            "RangeToInclusive" => (Lin::k(0), g(self, 0).addk(1)),
            _ => return None,
        };
        let (a, b) = (st.num.norm(&a), st.num.norm(&b));
        if check {
            let c1 = st.num.ge0(&b.sub(&a));
            if !self.need(st, &c1, "bounds", sp, "slice range start after end") {
                return Some((Lin::k(0), Lin::k(-1)));
            }
            let c2 = st.num.ge0(&n.sub(&b));
            if !self.need(st, &c2, "bounds", sp, "slice range end past the end") {
                return Some((Lin::k(0), Lin::k(-1)));
            }
        }
        Some((a.clone(), b.sub(&a)))
    }
    pub fn default_of(&mut self, t: TyId) -> Val {
        if self.tt.ity(t).is_some() {
            return kint(0);
        }
        if self.tt.is_vec(t) {
            return seq(vec![]);
        }
        match self.tt.k(t) {
            TyK::Tuple(e) => {
                let e = e.clone();
                agg(e.into_iter().map(|x| self.default_of(x)).collect())
            }
            TyK::Array(e, n) if *n <= 1024 => {
                let (e, n) = (*e, *n);
                seq((0..n).map(|_| self.default_of(e)).collect())
            }
            TyK::Adt { .. } if self.tt.short(t) == "Option" => none(),
            TyK::Adt { args, .. } if self.tt.is_boxlike(t) => {
                let a = args[0];
                match self.tt.k(a) {
                    TyK::Slice(_) => Val::Box(Rc::new(seq(vec![])), None),
                    _ => {
                        let v = self.default_of(a);
                        Val::Box(Rc::new(v), None)
                    }
                }
            }
            TyK::Float => fx(Lin::k(0), 1),
            _ => self.tt.top(t, true),
        }
    }
    fn eq_vals(&mut self, st: &State, a: &Val, b: &Val) -> Lin {
        let weakbool = || fresh_lin(0, 1, true);
        match (a, b) {
            (Val::Int(x), Val::Int(y)) => st.num.norm(&st.num.eq0(&x.sub(y))),
            (Val::Seq(p), Val::Seq(q)) => {
                let (Some(m), Some(n)) = (st.num.konst(&p.len), st.num.konst(&q.len)) else {
                    let le = st.num.eq0(&p.len.sub(&q.len));
                    if st.num.decide(&le) == Some(false) {
                        return Lin::k(0);
                    }
                    return weakbool();
                };
                if m != n {
                    return Lin::k(0);
                }
                match (&p.d, &q.d) {
                    (SeqD::Exact(x), SeqD::Exact(y)) => {
                        let mut acc = Lin::k(1);
                        for (u, v) in x.iter().zip(y.iter()) {
                            let e = self.eq_vals(st, u, v);
                            acc = st.num.band(&acc, &e);
                            if acc.konst() == Some(0) {
                                return acc;
                            }
                        }
                        acc
                    }
                    _ if m == 0 => Lin::k(1),
                    _ => weakbool(),
                }
            }
            (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => {
                let mut acc = Lin::k(1);
                for (u, v) in x.iter().zip(y.iter()) {
                    let e = self.eq_vals(st, u, v);
                    acc = st.num.band(&acc, &e);
                }
                acc
            }
            (Val::Enum(d, p), Val::Enum(e, q)) => {
                if p.values().all(|v| v.is_empty()) && q.values().all(|v| v.is_empty()) {
                    return st.num.norm(&st.num.eq0(&d.sub(e)));
                }
                match (st.num.konst(d), st.num.konst(e)) {
                    (Some(i), Some(j)) if i != j => Lin::k(0),
                    (Some(i), Some(_)) => {
                        let z = vec![];
                        let (u, v) = (p.get(&(i as u32)).unwrap_or(&z).clone(), q.get(&(i as u32)).unwrap_or(&z).clone());
                        let mut acc = Lin::k(1);
                        if u.len() != v.len() {
                            return weakbool();
                        }
                        for (x, y) in u.iter().zip(v.iter()) {
                            let e = self.eq_vals(st, x, y);
                            acc = st.num.band(&acc, &e);
                        }
                        acc
                    }
                    _ => weakbool(),
                }
            }
            _ => weakbool(),
        }
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[Val], at: &[TyId], rty: TyId) -> Option<Val> {
        Some(match n {
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "forget" => unit(),
            "likely" | "unlikely" | "black_box" => args[0].clone(),
            "size_of" => return None,
            "discriminant_value" => {
                let c = self.deref(st, &args[0], at[0]);
                match self.read(st, &c) {
                    Val::Enum(d, _) => Val::Int(self.discr(&st.num, c.ty, &d)),
                    _ => self.tt.top(rty, true),
                }
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let i = self.tt.ity(at[0])?;
                let op = match n {
                    "add_with_overflow" => "Add",
                    "sub_with_overflow" => "Sub",
                    _ => "Mul",
                };
                let r = arith(&st.num, op, &self.int(&args[0], Some(i)), &self.int(&args[1], Some(i)), i);
                let f = self.fits(&st.num, &r, i);
                agg(vec![Val::Int(st.num.wrap(&r, i)), Val::Int(st.num.bnot(&f))])
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" => {
                let i = self.tt.ity(at[0])?;
                let op = match n.rsplit('_').next().unwrap() {
                    "add" => "Add",
                    "sub" => "Sub",
                    _ => "Mul",
                };
                let r = arith(&st.num, op, &self.int(&args[0], Some(i)), &self.int(&args[1], Some(i)), i);
                Val::Int(st.num.wrap(&r, i))
            }
            _ => return None,
        })
    }
    fn fits(&self, n: &Num, r: &Lin, i: ITy) -> Lin {
        let (lo, hi) = n.range(r);
        let under = if lo >= i.lo() { Lin::k(1) } else { n.ge0(&r.addk(-i.lo())) };
        let over = if hi <= i.hi() { Lin::k(1) } else { n.ge0(&r.neg().addk(i.hi())) };
        n.norm(&n.band(&under, &over))
    }
    // ------------------------------------------------------------ natives
    #[allow(clippy::too_many_arguments)]
    fn native(&mut self, st0: &State, i: InstId, f: &Callee, a: &[Val], at: &[TyId], rty: TyId, sp: u32, div: bool) -> Option<Rets> {
        let p = self.p;
        let inst = &p.insts[i];
        let path = inst.path.as_str();
        let n = inst.name.as_str();
        let mut st = st0.clone();
        let has = |s: &str| path.contains(s);
        let one = |st: State, v: Val| Some(vec![(st, v)]);
        // panics
        if has("panicking::") || n == "unwrap_failed" || n == "expect_failed" || n == "unwrap_failed_inner" || n == "panic_display" || n == "begin_panic" {
            let msg = a.first().map(|x| self.lit(x)).unwrap_or_default();
            let k = Lin::k(0);
            self.need(&mut st, &k, "panic", sp, &format!("{} {}", n, msg));
            return Some(vec![]);
        }
        if has("precondition_check") || has("unreachable_unchecked") {
            return one(st, unit());
        }
        // feature detection
        if has("__is_feature_detected") {
            let f = i_feature(path, n);
            let b = self.feat.entry(f).or_insert_with(|| fresh_lin(0, 1, false)).clone();
            return one(st, Val::Int(b));
        }
        if has("core::slice::") || has("std::slice::") || has("std::vec::") || has("std::array::") || has("alloc::") || has("std::collections::") || has("std::boxed::") {
            if let Some(r) = self.native_seq(&st, i, f, a, at, rty, sp) {
                return Some(r);
            }
        }
        if has("std::arch::") || has("core::arch::") {
            return self.native_simd(st, n, a, at, rty, sp);
        }
        if (has("core::num::") || has("std::num::")) && matches!(n, "saturating_sub" | "saturating_add" | "saturating_mul") && at.len() == 2 {
            if let Some(i) = self.tt.ity(at[0]) {
                let (x, y) = (st.num.norm(&self.int(&a[0], Some(i))), st.num.norm(&self.int(&a[1], Some(i))));
                let o = match n {
                    "saturating_sub" => "Sub",
                    "saturating_add" => "Add",
                    _ => "Mul",
                };
                let r = arith(&st.num, o, &x, &y, i);
                let (lo, hi) = st.num.range(&r);
                let (over, under) = (hi > i.hi(), lo < i.lo());
                if over != under && (n != "saturating_mul" || r.t.iter().all(|x| is_fresh(x.0))) {
                    let c = st.num.norm(&if under { st.num.ge0(&r.addk(-i.lo())) } else { st.num.ge0(&r.neg().addk(i.hi())) });
                    let k = if under { i.lo() } else { i.hi() };
                    return Some(self.split2(st, &c, |_, _| Val::Int(r), |_, _| kint(k)));
                }
            }
        }
        if has("core::num::") || has("std::num::") {
            if let Some(v) = self.native_int(&mut st, n, path, a, at, rty, sp) {
                return one(st, v);
            }
        }
        if has("f32") || has("f64") {
            if let Some(v) = self.native_float(&st, n, a) {
                return one(st, v);
            }
        }
        match n {
            "spec_next" | "spec_next_back" if has("Range<") => {
                let c = self.deref(&mut st, &a[0], at[0]);
                let v = self.read(&mut st, &c);
                let Val::Agg(x) = v else { return None };
                let et = self.tt.ity(self.tt.field(c.ty, None, 0)?);
                let (s, e) = (st.num.norm(&self.int(&x[0], et)), st.num.norm(&self.int(&x[1], et)));
                let b = self.more(&st, &e.sub(&s));
                let (ns, ne, it) = if n == "spec_next" { (s.add(&b), e.clone(), s.clone()) } else { (s.clone(), e.sub(&b), e.addk(-1)) };
                self.write(&mut st, &c, agg(vec![Val::Int(ns), Val::Int(ne)]));
                return one(st, opt(b, Val::Int(it)));
            }
            "spec_next" | "spec_next_back" if has("RangeInclusive<") => {
                let c = self.deref(&mut st, &a[0], at[0]);
                let v = self.read(&mut st, &c);
                let Val::Agg(x) = v else { return None };
                let et = self.tt.ity(self.tt.field(c.ty, None, 0)?);
                let (s, e, ex) = (st.num.norm(&self.int(&x[0], et)), st.num.norm(&self.int(&x[1], et)), self.int(&x[2], Some(BOOL)));
                let ne = st.num.bnot(&ex);
                let b = st.num.norm(&st.num.band(&ne, &st.num.ge0(&e.sub(&s))));
                if st.num.decide(&b).is_none() {
                    self.mark_inner();
                }
                let fwd = n == "spec_next";
                let last = st.num.eq0(&e.sub(&s));
                return Some(self.split2(
                    st,
                    &b,
                    |me, t| {
                        let l = t.num.norm(&last);
                        let step = t.num.bnot(&l);
                        let (s2, e2, it) = if fwd { (s.add(&step), e.clone(), s.clone()) } else { (s.clone(), e.sub(&step), e.clone()) };
                        me.write(t, &c, agg(vec![Val::Int(s2), Val::Int(e2), Val::Int(l)]));
                        some(Val::Int(it))
                    },
                    |_, _| none(),
                ));
            }
            "replace" if has("mem::") => {
                let c = self.deref(&mut st, &a[0], at[0]);
                let o = self.read(&mut st, &c);
                self.write(&mut st, &c, a[1].clone());
                return one(st, o);
            }
            "take" if has("mem::") => {
                let c = self.deref(&mut st, &a[0], at[0]);
                let o = self.read(&mut st, &c);
                let d = self.default_of(c.ty);
                self.write(&mut st, &c, d);
                return one(st, o);
            }
            "swap" if has("mem::") => {
                let c = self.deref(&mut st, &a[0], at[0]);
                let d = self.deref(&mut st, &a[1], at[1]);
                let x = self.read(&mut st, &c);
                let y = self.read(&mut st, &d);
                self.write(&mut st, &c, y);
                self.write(&mut st, &d, x);
                return one(st, unit());
            }
            "drop" | "forget" if has("mem::") => return one(st, unit()),
            "must_use" | "black_box" => return one(st, a[0].clone()),
            "new" if has("Box::<") || has("Arc::<") || has("Rc::<") || has("RefCell::<") => return one(st, Val::Box(Rc::new(a[0].clone()), None)),
            "new_uninit" if has("Box::<") => return one(st, Val::Box(Rc::new(Val::Undef), None)),
            "default" if has("::default") => {
                let v = self.default_of(rty);
                return one(st, v);
            }
            "borrow_mut" | "borrow" if has("RefCell") => {
                if let Val::Ptr(q) = &a[0] {
                    let mut path = q.path.clone();
                    path.push(Pe::B);
                    let rt = self.tt.pointee(q.rty).unwrap_or(q.rty);
                    return one(st, Val::Ptr(Rc::new(PtrV { root: q.root.clone(), path, view: None, dynty: None, rty: rt })));
                }
                return None;
            }
            "deref" | "deref_mut" if has("RefMut<") || has("Ref<") => {
                let c = self.deref(&mut st, &a[0], at[0]);
                let v = self.raw(&st, &c);
                if let Val::Ptr(_) = v {
                    return one(st, v);
                }
                return None;
            }
            "deref" | "deref_mut" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" if has("Arc<") || has("Rc<") || has("Box<") => {
                let c = self.deref(&mut st, &a[0], at[0]);
                let v = self.read(&mut st, &c);
                let dy = if let Val::Box(_, d) = &v { *d } else { None };
                let mut path = c.path.clone();
                path.push(Pe::B);
                let rt = self.tt.pointee(c.ty).unwrap_or(c.ty);
                let mut q = PtrV { root: c.root.clone(), path, view: None, dynty: dy, rty: rt };
                if let TyK::Slice(_) = self.tt.k(rt) {
                    let l = Loc { root: q.root.clone(), path: q.path.clone(), ty: rt, view: None, dynty: None, boxptr: false };
                    let len = self.len_of(&mut st, &l);
                    q.view = Some((Lin::k(0), len));
                }
                return one(st, Val::Ptr(Rc::new(q)));
            }
            "clone" => {
                let c = self.deref(&mut st, &a[0], at[0]);
                if c.view.is_none() {
                    let v = self.read(&mut st, &c);
                    return one(st, v);
                }
                return None;
            }
            // formatting and strings: irrelevant content
            "format" | "new_debug" | "new_display" | "new_lower_hex" | "new_upper_hex" | "from_str" | "to_string" | "debug_tuple_field1_finish" | "write_str" | "write_fmt" | "new_const" | "new_v1" | "as_bytes" => {
                let v = self.tt.top(rty, true);
                return one(st, v);
            }
            "new" if has("fmt::") => {
                let v = self.tt.top(rty, true);
                return one(st, v);
            }
            "fmt" => {
                let v = self.tt.top(rty, true);
                return one(st, v);
            }
            "to_owned" | "into" | "from" if has("str") || has("String") => {
                let v = self.tt.top(rty, true);
                return one(st, v);
            }
            "from" if has("io::Error") => {
                return one(st, Val::Nat("ioerr", Rc::new(vec![])));
            }
            "sink" => {
                let v = self.tt.top(rty, true);
                return one(st, v);
            }
            "partial_cmp" | "cmp" if has("cmp::impls") => {
                let c = self.deref(&mut st, &a[0], at[0]);
                let d = self.deref(&mut st, &a[1], at[1]);
                let x = self.read(&mut st, &c);
                let y = self.read(&mut st, &d);
                let (x, y) = (self.int(&x, None), self.int(&y, None));
                let ge = st.num.ge0(&x.sub(&y));
                let gt = st.num.ge0(&x.sub(&y).addk(-1));
                let o = Val::Enum(ge.add(&gt), Rc::new(BTreeMap::new()));
                return one(st, if n == "cmp" { o } else { some(o) });
            }
            "wrapping_add" | "add" | "offset" if has("ptr::") => {
                let et = self.tt.pointee(at[0]);
                let _ = et;
                let v = self.offset(&st, &a[0], &a[1]);
                return one(st, v);
            }
            "wrapping_sub" | "sub" if has("ptr::") => {
                let k = Val::Int(self.int(&a[1], None).neg());
                let v = self.offset(&st, &a[0], &k);
                return one(st, v);
            }
            "cast" | "cast_mut" | "cast_const" if has("ptr::") => return one(st, a[0].clone()),
            "read" | "read_unaligned" | "write" | "write_unaligned" if has("ptr::") && matches!(&a[0], Val::Ptr(p) if p.view.is_some()) => {
                let Val::Ptr(q) = &a[0] else { return None };
                let (s, l) = q.view.clone().unwrap();
                let c = st.num.norm(&st.num.band(&st.num.ge0(&s), &st.num.ge0(&l.addk(-1))));
                if !self.need(&mut st, &c, "raw", sp, "raw memory access") {
                    return Some(vec![]);
                }
                if n.starts_with("read") {
                    let v = self.tt.top(rty, true);
                    return one(st, v);
                }
                let mut d = q.as_ref().clone();
                d.view = Some((s, Lin::k(1)));
                self.store(&mut st, &d, &SeqV { len: Lin::k(1), d: SeqD::Summ(a[1].clone()) });
                return one(st, unit());
            }
            "read" if has("ptr::") && matches!(&a[0], Val::Ptr(_)) => {
                let c = self.deref(&mut st, &a[0], at[0]);
                let v = self.read(&mut st, &c);
                return one(st, v);
            }
            "copy_nonoverlapping" | "copy" if has("ptr::") => {
                // arguments: src, dst, count
                let k = self.int(&a[2], Some(U64));
                let mut views = vec![];
                for (x, t) in [(&a[0], at[0]), (&a[1], at[1])] {
                    let q = self.raw_view(&mut st, x, t);
                    let (s, l) = q.view.clone().unwrap();
                    let c = st.num.norm(&st.num.band(&st.num.ge0(&s), &st.num.ge0(&l.sub(&k))));
                    if !self.need(&mut st, &c, "raw", sp, "raw memory access") {
                        return Some(vec![]);
                    }
                    views.push(q);
                }
                let mut s = views[0].as_ref().clone();
                s.view = Some((s.view.unwrap().0, k.clone()));
                let mut d = views[1].as_ref().clone();
                d.view = Some((d.view.unwrap().0, k));
                let sv = self.seq_of(&mut st, &s);
                self.store(&mut st, &d, &sv);
                return one(st, unit());
            }
            // threads and channels: a thread runs to its end when its answer is awaited (C18 checks that a
            // thread owns all it touches, so when it runs makes no difference)
            "spawn" if has("thread::") => {
                let b = fresh_lin(0, 1, false);
                let mut m = BTreeMap::new();
                m.insert(0, vec![Val::Top]);
                m.insert(1, vec![Val::Nat("ioerr", Rc::new(vec![]))]);
                let k = if has("Builder") { 1 } else { 0 };
                if let (Some((mut t, q)), Some(v)) = (sched(&st), a.get(k)) {
                    t.push(agg(vec![kint(at[k] as i128), v.clone()]));
                    set_sched(&mut st, t, q);
                }
                return one(st, Val::Enum(b, Rc::new(m)));
            }
            "name" | "stack_size" if has("thread::") => return one(st, Val::Opaque),
            "new" if has("thread::") => return one(st, Val::Opaque),
            "channel" | "sync_channel" if has("mpsc") => {
                if let Some((t, mut q)) = sched(&st) {
                    let c = Val::Nat("chan", Rc::new(vec![kint(q.len() as i128)]));
                    q.push(agg(vec![]));
                    set_sched(&mut st, t, q);
                    return one(st, agg(vec![c.clone(), c]));
                }
                return one(st, agg(vec![Val::Opaque, Val::Opaque]));
            }
            "send" if has("mpsc") => {
                // a worker stays alive while its sender exists (C18 checks that separately)
                let c = self.deref(&mut st, &a[0], at[0]);
                let c = self.read(&mut st, &c);
                match (chan_of(&c), sched(&st)) {
                    (Some(k), Some((t, mut q))) if matches!(q.get(k), Some(Val::Agg(_))) => {
                        let Val::Agg(v) = &q[k] else { return None };
                        let mut v = v.as_ref().clone();
                        v.push(a[1].clone());
                        q[k] = agg(v);
                        set_sched(&mut st, t, q);
                    }
                    _ => lose_sched(&mut st),
                }
                return one(st, variant(0, vec![unit()]));
            }
            "recv" if has("mpsc") => {
                let c = self.deref(&mut st, &a[0], at[0]);
                let c = self.read(&mut st, &c);
                let top = |st: State| {
                    let mut st = st;
                    lose_sched(&mut st);
                    (st, variant(0, vec![Val::Top]))
                };
                let Some(k) = chan_of(&c) else { return Some(vec![top(st)]) };
                let pop = |st: State| -> Option<(State, Val)> {
                    let mut st = st;
                    let (t, mut q) = sched(&st)?;
                    let Some(Val::Agg(v)) = q.get(k) else { return None };
                    if v.is_empty() {
                        return Some((st, variant(1, vec![unit()])));
                    }
                    let x = v[0].clone();
                    q[k] = agg(v[1..].to_vec());
                    set_sched(&mut st, t, q);
                    Some((st, variant(0, vec![x])))
                };
                let Some((t, q)) = sched(&st) else { return Some(vec![top(st)]) };
                let Some(Val::Agg(mine)) = q.get(k) else { return Some(vec![top(st)]) };
                if !mine.is_empty() || self.threads > 0 {
                    return Some(vec![pop(st.clone()).unwrap_or_else(|| top(st))]);
                }
                // the thread that was sent the other end of this channel
                let asked = |x: &Val| {
                    let mut r = vec![];
                    chans(x, &mut r);
                    r.iter().any(|c| matches!(q.get(*c), Some(Val::Agg(m)) if m.iter().any(|y| { let mut z = vec![]; chans(y, &mut z); z.contains(&k) })))
                };
                let Some(i) = t.iter().position(|x| asked(x)) else { return Some(vec![top(st)]) };
                let Val::Agg(th) = &t[i] else { return Some(vec![top(st)]) };
                let (ty, v) = (self.int(&th[0], None).c as TyId, th[1].clone());
                let mut rest = t.clone();
                rest.remove(i);
                set_sched(&mut st, rest, q.clone());
                if let TyK::Closure(_, ci) = self.tt.k(ty) {
                    let ci = *ci;
                    if self.p.insts[ci].body.is_some() {
                        self.threads += 1;
                        let rs = self.exec_fn(st, ci, vec![v]);
                        self.threads -= 1;
                        return Some(rs.into_iter().map(|(s, _)| pop(s.clone()).unwrap_or_else(|| top(s))).collect());
                    }
                }
                return Some(vec![top(st)]);
            }
            "in_place_scope" if has("rayon") => {
                let c = Callee { k: CalleeK::Unresolved, decl: String::new(), name: String::new(), args: vec![] };
                let _ = c;
                let t = at[0];
                if let TyK::Closure(_, ci) = self.tt.k(t) {
                    let ci = *ci;
                    let sc = Val::Ptr(Rc::new(PtrV { root: Root::Cst(Rc::new(Val::Opaque)), path: vec![], view: None, dynty: None, rty: t }));
                    if self.p.insts[ci].body.is_some() {
                        return Some(self.exec_fn(st, ci, vec![a[0].clone(), sc]));
                    }
                }
                return None;
            }
            "spawn" if has("rayon") => {
                let t = at[1];
                if let TyK::Closure(_, ci) = self.tt.k(t) {
                    let ci = *ci;
                    if self.p.insts[ci].body.is_some() {
                        let rs = self.exec_fn(st, ci, vec![a[1].clone(), a[0].clone()]);
                        return Some(rs.into_iter().map(|(s, _)| (s, unit())).collect());
                    }
                }
                return None;
            }
            "par_chunks_mut" | "par_chunks" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let k = self.int(&a[1], Some(U64));
                let c = st.num.ge0(&k.addk(-1));
                if !self.need(&mut st, &c, "panic", sp, "chunk size must be non-zero") {
                    return Some(vec![]);
                }
                return one(st, Val::Nat("chunks", Rc::new(vec![Val::Ptr(q), Val::Int(k), kint(0)])));
            }
            "enumerate" if has("rayon") => return one(st, Val::Nat("enum", Rc::new(vec![a[0].clone(), kint(0)]))),
            "with_max_len" | "with_min_len" if has("rayon") => return one(st, a[0].clone()),
            "call" | "call_mut" | "call_once" => {
                return Some(self.call_fn_value(st, a.to_vec(), at, rty, sp, div));
            }
            _ => {}
        }
        None
    }
    fn raw_view(&mut self, st: &mut State, v: &Val, ty: TyId) -> Rc<PtrV> {
        match v {
            Val::Ptr(p) if p.view.is_some() => p.clone(),
            Val::Ptr(p) => {
                if matches!(self.tt.k(p.rty), TyK::Array(..)) || self.tt.is_vec(p.rty) {
                    return self.sl(st, v, ty);
                }
                // pointer to one object
                let _ = p;
                Rc::new(PtrV { root: Root::Cst(Rc::new(summ(Lin::k(1), Val::Top))), path: vec![], view: Some((Lin::k(0), fresh_lin(0, 1 << 40, true))), dynty: None, rty: ty })
            }
            _ => self.sl(st, v, ty),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn native_seq(&mut self, st0: &State, i: InstId, f: &Callee, a: &[Val], at: &[TyId], rty: TyId, sp: u32) -> Option<Rets> {
        let p = self.p;
        let inst = &p.insts[i];
        let path = inst.path.as_str();
        let n = inst.name.as_str();
        let mut st = st0.clone();
        let has = |s: &str| path.contains(s);
        let one = |st: State, v: Val| Some(vec![(st, v)]);
        let is_iter = has("slice::Iter") || has("slice::IterMut");
        let is_chunks = has("slice::Chunks");
        let is_vecit = has("vec::IntoIter<") || has("array::IntoIter<");
        // iterators -----------------------------------------------------
        if n == "into_iter" || n == "iter" || n == "iter_mut" {
            if matches!(self.tt.k(at[0]), TyK::Ref(..)) {
                let q = self.sl(&mut st, &a[0], at[0]);
                return one(st, Val::Ptr(q));
            }
            if let Val::Seq(_) = &a[0] {
                return one(st, Val::Nat("vecit", Rc::new(vec![a[0].clone(), kint(0)])));
            }
            return None;
        }
        if is_iter && matches!(n, "next" | "next_back" | "size_hint" | "len" | "as_slice" | "clone" | "nth") {
            let c = self.deref(&mut st, &a[0], at[0]);
            let v = self.raw(&st, &c);
            let Val::Ptr(q) = &v else { return None };
            let Some((s, l)) = q.view.clone() else { return None };
            let (s, l) = (st.num.norm(&s), st.num.norm(&l));
            match n {
                "size_hint" => return one(st, agg(vec![Val::Int(l.clone()), some(Val::Int(l))])),
                "len" => return one(st, Val::Int(l)),
                "as_slice" | "clone" => return one(st, v.clone()),
                "nth" => {
                    let k = st.num.norm(&self.int(&a[1], Some(U64)));
                    let b = st.num.norm(&st.num.ge0(&l.sub(&k).addk(-1)));
                    let q = q.clone();
                    return Some(self.split2(
                        st,
                        &b,
                        |me, t| {
                            let it = me.eptr(&q, &k);
                            let nv = me.sub(&q, &k.addk(1), &l.sub(&k).addk(-1));
                            me.write(t, &c, nv);
                            some(it)
                        },
                        |me, t| {
                            let nv = me.sub(&q, &l, &Lin::k(0));
                            me.write(t, &c, nv);
                            none()
                        },
                    ));
                }
                _ => {}
            }
            let b = self.more(&st, &l);
            let (ns, nl, it) = if n == "next" { (s.add(&b), l.sub(&b), self.eptr(q, &Lin::k(0))) } else { (s.clone(), l.sub(&b), self.eptr(q, &l.addk(-1))) };
            let nv = Val::Ptr(Rc::new(PtrV { view: Some((ns, nl)), ..q.as_ref().clone() }));
            self.write(&mut st, &c, nv);
            return one(st, opt(b, it));
        }
        if is_chunks && n == "next" {
            let c = self.deref(&mut st, &a[0], at[0]);
            let v = self.raw(&st, &c);
            if !matches!(v, Val::Nat("chunks", _)) {
                return None;
            }
            return Some(
                self.chunk_next(st, &v)
                    .into_iter()
                    .map(|(mut s, nv, r)| {
                        self.write(&mut s, &c, nv);
                        (s, r.map_or(none(), some))
                    })
                    .collect(),
            );
        }
        if is_chunks && (n == "size_hint" || n == "len") {
            let c = self.deref(&mut st, &a[0], at[0]);
            let mut v = fresh_lin(0, 1 << 40, true);
            if let Val::Nat("chunks", q) = self.raw(&st, &c) {
                if let (Val::Ptr(p), Some(k)) = (&q[0], self.int(&q[1], None).konst()) {
                    if k > 0 {
                        let exact = self.int(&q[2], None).konst() == Some(1);
                        let l = p.view.clone().unwrap().1;
                        v = crate::interp::fdivl(&st.num, &(if exact { l } else { l.addk(k - 1) }), k);
                    }
                }
            }
            return one(st, if n == "len" { Val::Int(v) } else { agg(vec![Val::Int(v.clone()), some(Val::Int(v))]) });
        }
        if is_chunks && (n == "into_remainder" || n == "remainder") {
            return None;
        }
        if has("slice::Windows") && n == "next" {
            let c = self.deref(&mut st, &a[0], at[0]);
            let v = self.raw(&st, &c);
            let Val::Nat("windows", x) = &v else { return None };
            let Val::Ptr(q) = &x[0] else { return None };
            let k = self.int(&x[1], None);
            let (s, l) = q.view.clone().unwrap();
            let b = self.more(&st, &l.sub(&k).addk(1));
            let it = self.sub(q, &Lin::k(0), &k);
            let nv = Val::Ptr(Rc::new(PtrV { view: Some((s.add(&b), l.sub(&b))), ..q.as_ref().clone() }));
            self.write(&mut st, &c, Val::Nat("windows", Rc::new(vec![nv, x[1].clone()])));
            return one(st, opt(b, it));
        }
        if is_vecit && matches!(n, "next" | "size_hint" | "len" | "next_back") {
            let c = self.deref(&mut st, &a[0], at[0]);
            let v = self.raw(&st, &c);
            let Val::Nat("vecit", x) = &v else { return None };
            let Val::Seq(q) = &x[0] else { return None };
            let k = st.num.norm(&self.int(&x[1], None));
            let left = q.len.sub(&k);
            if n == "size_hint" {
                return one(st, agg(vec![Val::Int(left.clone()), some(Val::Int(left))]));
            }
            if n == "len" {
                return one(st, Val::Int(left));
            }
            if n == "next_back" {
                return None;
            }
            let b = self.more(&st, &left);
            let it = match &q.d {
                SeqD::Exact(e) => match st.num.konst(&k) {
                    Some(i) if i >= 0 && (i as usize) < e.len() => e[i as usize].clone(),
                    _ => Val::Top,
                },
                SeqD::Summ(e) => instantiate(&st.num, e),
            };
            let nv = Val::Nat("vecit", Rc::new(vec![x[0].clone(), Val::Int(k.add(&b))]));
            self.write(&mut st, &c, nv);
            return one(st, opt(b, it));
        }
        if has("impl std::convert::TryFrom") && n == "try_from" {
            // &[T] -> &[T; N] or [T; N]
            let q = self.sl(&mut st, &a[0], at[0]);
            let okty = self.tt.field(rty, Some(0), 0)?;
            let (byref, arr) = match self.tt.k(okty) {
                TyK::Ref(x, _) => (true, *x),
                _ => (false, okty),
            };
            let TyK::Array(_, len) = self.tt.k(arr) else { return None };
            let (_, l) = q.view.clone().unwrap();
            let c = st.num.norm(&st.num.eq0(&l.addk(-(*len as i128))));
            let n = *len as i128;
            return Some(self.split2(
                st,
                &c,
                |me, t| {
                    let mut w = q.as_ref().clone();
                    w.view = Some((w.view.unwrap().0, Lin::k(n)));
                    if byref {
                        okv(Val::Ptr(Rc::new(w)))
                    } else {
                        let s = me.seq_of(t, &w);
                        okv(Val::Seq(Rc::new(s)))
                    }
                },
                |_, _| errv(Val::Top),
            ));
        }
        if n == "eq" || n == "ne" || n == "equal" {
            let q = self.sl_any(&mut st, &a[0], at[0])?;
            let r = self.sl_any(&mut st, &a[1], at[1])?;
            let x = self.seq_of(&mut st, &q);
            let y = self.seq_of(&mut st, &r);
            let e = self.eq_vals(&st, &Val::Seq(Rc::new(x)), &Val::Seq(Rc::new(y)));
            return one(st.clone(), Val::Int(if n == "ne" { st.num.bnot(&e) } else { e }));
        }
        // Vec -----------------------------------------------------------
        if has("Vec") {
            match n {
                "new" | "with_capacity" | "default" => return one(st, seq(vec![])),
                "from_elem" => {}
                "len" | "is_empty" | "capacity" => {
                    let (_, s) = self.get_seq(&mut st, &a[0], at[0]);
                    let l = st.num.norm(&s.len);
                    return one(st.clone(), Val::Int(if n == "is_empty" { st.num.eq0(&l) } else { l }));
                }
                "deref" | "deref_mut" | "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "borrow" => {
                    let q = self.sl(&mut st, &a[0], at[0]);
                    return one(st, Val::Ptr(q));
                }
                "push" => {
                    let (c, s) = self.get_seq(&mut st, &a[0], at[0]);
                    let r = self.cat(&st.num, &s, &SeqV { len: Lin::k(1), d: SeqD::Exact(vec![a[1].clone()]) });
                    self.write(&mut st, &c, Val::Seq(Rc::new(r)));
                    return one(st, unit());
                }
                "extend_from_slice" => {
                    let (c, s) = self.get_seq(&mut st, &a[0], at[0]);
                    let q = self.sl(&mut st, &a[1], at[1]);
                    let t = self.seq_of(&mut st, &q);
                    let r = self.cat(&st.num, &s, &t);
                    self.write(&mut st, &c, Val::Seq(Rc::new(r)));
                    return one(st, unit());
                }
                "append" => {
                    let (c, s) = self.get_seq(&mut st, &a[0], at[0]);
                    let (d, t) = self.get_seq(&mut st, &a[1], at[1]);
                    let r = self.cat(&st.num, &s, &t);
                    self.write(&mut st, &c, Val::Seq(Rc::new(r)));
                    self.write(&mut st, &d, seq(vec![]));
                    return one(st, unit());
                }
                "clear" => {
                    let (c, _) = self.get_seq(&mut st, &a[0], at[0]);
                    self.write(&mut st, &c, seq(vec![]));
                    return one(st, unit());
                }
                "reserve" | "reserve_exact" | "shrink_to_fit" => return one(st, unit()),
                "truncate" => {
                    let (c, s) = self.get_seq(&mut st, &a[0], at[0]);
                    let k = st.num.norm(&self.int(&a[1], Some(U64)));
                    if let (SeqD::Exact(e), Some(k)) = (&s.d, k.konst()) {
                        let v = e.iter().take(k.max(0) as usize).cloned().collect();
                        self.write(&mut st, &c, seq(v));
                        return one(st, unit());
                    }
                    let b = st.num.ge0(&s.len.sub(&k).addk(-1));
                    let e = self.fold_elem(&st.num, &s).unwrap_or(Val::Undef);
                    return Some(self.split2(
                        st,
                        &b,
                        |me, t| {
                            me.write(t, &c, summ(k.clone(), e));
                            unit()
                        },
                        |_, _| unit(),
                    ));
                }
                "resize" => {
                    let (c, s) = self.get_seq(&mut st, &a[0], at[0]);
                    let k = st.num.norm(&self.int(&a[1], Some(U64)));
                    if let (SeqD::Exact(e), Some(k)) = (&s.d, k.konst()) {
                        if k as usize <= CAPN {
                            let mut v = e.clone();
                            v.resize(k as usize, a[2].clone());
                            self.write(&mut st, &c, seq(v));
                            return one(st, unit());
                        }
                    }
                    let e = match self.fold_elem(&st.num, &s) {
                        Some(e) => tmpl(&st.num, &st.num, &e, &a[2]),
                        None => a[2].clone(),
                    };
                    self.write(&mut st, &c, summ(k, e));
                    return one(st, unit());
                }
                "pop" => {
                    let (c, s) = self.get_seq(&mut st, &a[0], at[0]);
                    if let SeqD::Exact(e) = &s.d {
                        let mut e = e.clone();
                        let r = e.pop();
                        self.write(&mut st, &c, seq(e));
                        return one(st, r.map_or(none(), some));
                    }
                    let b = st.num.norm(&st.num.ge0(&s.len.addk(-1)));
                    let e = self.fold_elem(&st.num, &s).map(|e| instantiate(&st.num, &e)).unwrap_or(Val::Top);
                    let r = SeqV { len: s.len.sub(&b), d: s.d.clone() };
                    self.write(&mut st, &c, Val::Seq(Rc::new(r)));
                    return one(st, opt(b, e));
                }
                "remove" | "swap_remove" => {
                    let (c, s) = self.get_seq(&mut st, &a[0], at[0]);
                    let k = st.num.norm(&self.int(&a[1], Some(U64)));
                    let ok = st.num.ge0(&s.len.sub(&k).addk(-1));
                    if !self.need(&mut st, &ok, "bounds", sp, "Vec::remove") {
                        return Some(vec![]);
                    }
                    if let (SeqD::Exact(e), Some(k)) = (&s.d, st.num.konst(&k)) {
                        let mut e = e.clone();
                        let r = if n == "remove" { e.remove(k as usize) } else { e.swap_remove(k as usize) };
                        self.write(&mut st, &c, seq(e));
                        return one(st, r);
                    }
                    let e = self.fold_elem(&st.num, &s).map(|e| instantiate(&st.num, &e)).unwrap_or(Val::Top);
                    let r = SeqV { len: s.len.addk(-1), d: SeqD::Summ(self.fold_elem(&st.num, &s).unwrap_or(Val::Undef)) };
                    self.write(&mut st, &c, Val::Seq(Rc::new(r)));
                    return one(st, e);
                }
                "insert" => {
                    let (c, s) = self.get_seq(&mut st, &a[0], at[0]);
                    let k = st.num.norm(&self.int(&a[1], Some(U64)));
                    let ok = st.num.ge0(&s.len.sub(&k));
                    if !self.need(&mut st, &ok, "bounds", sp, "Vec::insert") {
                        return Some(vec![]);
                    }
                    if let (SeqD::Exact(e), Some(k)) = (&s.d, st.num.konst(&k)) {
                        let mut e = e.clone();
                        e.insert(k as usize, a[2].clone());
                        self.write(&mut st, &c, seq(e));
                        return one(st, unit());
                    }
                    let r = self.cat(&st.num, &SeqV { len: s.len.clone(), d: SeqD::Summ(self.fold_elem(&st.num, &s).unwrap_or(Val::Undef)) }, &SeqV { len: Lin::k(1), d: SeqD::Exact(vec![a[2].clone()]) });
                    self.write(&mut st, &c, Val::Seq(Rc::new(r)));
                    return one(st, unit());
                }
                "clone" => {
                    let (_, s) = self.get_seq(&mut st, &a[0], at[0]);
                    return one(st, Val::Seq(Rc::new(s)));
                }
                "into_boxed_slice" => return one(st, Val::Box(Rc::new(a[0].clone()), None)),
                _ => {}
            }
        }
        if n == "from_elem" {
            let k = st.num.norm(&self.int(&a[1], Some(U64)));
            if let Some(k) = k.konst() {
                if k >= 0 && k as usize <= CAPN {
                    return one(st, seq(vec![a[0].clone(); k as usize]));
                }
            }
            return one(st, summ(k, a[0].clone()));
        }
        if n == "box_assume_init_into_vec_unsafe" || n == "into_vec" {
            fn dig(v: &Val) -> Option<Val> {
                match v {
                    Val::Seq(_) => Some(v.clone()),
                    Val::Box(b, _) => dig(b),
                    Val::Agg(a) => a.iter().find_map(dig),
                    _ => None,
                }
            }
            return one(st, dig(&a[0]).unwrap_or(summ(fresh_lin(0, 1 << 40, true), Val::Top)));
        }
        if n == "new_uninit" {
            return one(st, Val::Box(Rc::new(Val::Undef), None));
        }
        // indexing ------------------------------------------------------
        if matches!(n, "index" | "index_mut" | "get" | "get_mut" | "get_unchecked" | "get_unchecked_mut") {
            let q = self.sl(&mut st, &a[0], at[0]);
            let (_, l) = q.view.clone().unwrap();
            let l = st.num.norm(&l);
            let get = n.starts_with("get") && !n.contains("unchecked");
            if self.tt.ity(at[1]).is_some() {
                let k = st.num.norm(&self.int(&a[1], Some(U64)));
                let lo = st.num.ge0(&k);
                let c = st.num.norm(&st.num.band(&lo, &st.num.ge0(&l.sub(&k).addk(-1))));
                let e = self.eptr(&q, &k);
                if get {
                    return Some(self.split2(st, &c, |_, _| some(e), |_, _| none()));
                }
                if !self.need(&mut st, &c, if n.contains("unchecked") { "raw" } else { "bounds" }, sp, "index out of range") {
                    return Some(vec![]);
                }
                return one(st, e);
            }
            if get {
                let (s, m) = self.range_arg(&mut st, &a[1], at[1], &l, sp, false)?;
                let c = st.num.norm(&st.num.band(&st.num.ge0(&m), &st.num.ge0(&l.sub(&s).sub(&m))));
                let v = self.sub(&q, &s, &m);
                return Some(self.split2(st, &c, |_, _| some(v), |_, _| none()));
            }
            let (s, m) = self.range_arg(&mut st, &a[1], at[1], &l, sp, true)?;
            if m.konst() == Some(-1) {
                return Some(vec![]);
            }
            let v = self.sub(&q, &s, &m);
            return one(st, v);
        }
        match n {
            "len" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let l = st.num.norm(&q.view.as_ref().unwrap().1);
                return one(st, Val::Int(l));
            }
            "is_empty" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let l = st.num.norm(&q.view.as_ref().unwrap().1);
                let e = st.num.eq0(&l);
                return one(st, Val::Int(e));
            }
            "first" | "last" | "first_mut" | "last_mut" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let l = st.num.norm(&q.view.as_ref().unwrap().1);
                let c = st.num.norm(&st.num.ge0(&l.addk(-1)));
                let e = self.eptr(&q, &if n.starts_with("first") { Lin::k(0) } else { l.addk(-1) });
                return Some(self.split2(st, &c, |_, _| some(e), |_, _| none()));
            }
            "split_first" | "split_first_mut" | "split_last" | "split_last_mut" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let l = st.num.norm(&q.view.as_ref().unwrap().1);
                let c = st.num.norm(&st.num.ge0(&l.addk(-1)));
                let (e, r) = if n.starts_with("split_first") { (self.eptr(&q, &Lin::k(0)), self.sub(&q, &Lin::k(1), &l.addk(-1))) } else { (self.eptr(&q, &l.addk(-1)), self.sub(&q, &Lin::k(0), &l.addk(-1))) };
                return Some(self.split2(st, &c, |_, _| some(agg(vec![e, r])), |_, _| none()));
            }
            "split_at" | "split_at_mut" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let l = st.num.norm(&q.view.as_ref().unwrap().1);
                let k = st.num.norm(&self.int(&a[1], Some(U64)));
                let c = st.num.ge0(&l.sub(&k));
                if !self.need(&mut st, &c, "bounds", sp, "split past the end") {
                    return Some(vec![]);
                }
                let v = agg(vec![self.sub(&q, &Lin::k(0), &k), self.sub(&q, &k, &l.sub(&k))]);
                return one(st, v);
            }
            "chunks" | "chunks_mut" | "chunks_exact" | "chunks_exact_mut" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let k = st.num.norm(&self.int(&a[1], Some(U64)));
                let c = st.num.ge0(&k.addk(-1));
                if !self.need(&mut st, &c, "panic", sp, "chunk size must be non-zero") {
                    return Some(vec![]);
                }
                return one(st, Val::Nat("chunks", Rc::new(vec![Val::Ptr(q), Val::Int(k), kint(n.contains("exact") as i128)])));
            }
            "windows" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let k = st.num.norm(&self.int(&a[1], Some(U64)));
                let c = st.num.ge0(&k.addk(-1));
                if !self.need(&mut st, &c, "panic", sp, "window size must be non-zero") {
                    return Some(vec![]);
                }
                return one(st, Val::Nat("windows", Rc::new(vec![Val::Ptr(q), Val::Int(k)])));
            }
            "copy_from_slice" | "clone_from_slice" => {
                let d = self.sl(&mut st, &a[0], at[0]);
                let s = self.sl(&mut st, &a[1], at[1]);
                let (ld, ls) = (d.view.clone().unwrap().1, s.view.clone().unwrap().1);
                let c = st.num.norm(&st.num.eq0(&ld.sub(&ls)));
                if !self.need(&mut st, &c, "panic", sp, "copy_from_slice: length mismatch") {
                    return Some(vec![]);
                }
                let v = self.seq_of(&mut st, &s);
                self.store(&mut st, &d, &v);
                return one(st, unit());
            }
            "copy_within" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let l = st.num.norm(&q.view.as_ref().unwrap().1);
                let (s, m) = self.range_arg(&mut st, &a[1], at[1], &l, sp, true)?;
                if m.konst() == Some(-1) {
                    return Some(vec![]);
                }
                let k = st.num.norm(&self.int(&a[2], Some(U64)));
                let c = st.num.ge0(&l.sub(&m).sub(&k));
                if !self.need(&mut st, &c, "bounds", sp, "copy_within destination") {
                    return Some(vec![]);
                }
                let (Val::Ptr(x), Val::Ptr(y)) = (self.sub(&q, &s, &m), self.sub(&q, &k, &m)) else { return None };
                let v = self.seq_of(&mut st, &x);
                self.store(&mut st, &y, &v);
                return one(st, unit());
            }
            "fill" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let l = q.view.clone().unwrap().1;
                self.store(&mut st, &q, &SeqV { len: l, d: SeqD::Summ(a[1].clone()) });
                return one(st, unit());
            }
            "swap" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let l = st.num.norm(&q.view.as_ref().unwrap().1);
                let (x, y) = (st.num.norm(&self.int(&a[1], Some(U64))), st.num.norm(&self.int(&a[2], Some(U64))));
                for k in [&x, &y] {
                    let c = st.num.ge0(&l.sub(k).addk(-1));
                    if !self.need(&mut st, &c, "bounds", sp, "swap index") {
                        return Some(vec![]);
                    }
                }
                let et = self.tt.elem(q.rty)?;
                let (px, py) = (self.eptr(&q, &x), self.eptr(&q, &y));
                let lx = self.ploc(&px, et);
                let ly = self.ploc(&py, et);
                let vx = self.read(&mut st, &lx);
                let vy = self.read(&mut st, &ly);
                self.write(&mut st, &lx, vy);
                self.write(&mut st, &ly, vx);
                return one(st, unit());
            }
            "to_vec" | "to_owned" | "into_vec" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let v = self.seq_of(&mut st, &q);
                return one(st, Val::Seq(Rc::new(v)));
            }
            "contains" | "starts_with" | "ends_with" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let x = self.seq_of(&mut st, &q);
                if n == "contains" {
                    let c = self.deref(&mut st, &a[1], at[1]);
                    let y = self.read(&mut st, &c);
                    if let SeqD::Exact(e) = &x.d {
                        let mut acc = Lin::k(0);
                        for u in e {
                            let t = self.eq_vals(&st, u, &y);
                            acc = st.num.bor(&acc, &t);
                        }
                        return one(st, Val::Int(acc));
                    }
                    return one(st, Val::Int(fresh_lin(0, 1, true)));
                }
                let r = self.sl(&mut st, &a[1], at[1]);
                let y = self.seq_of(&mut st, &r);
                if let SeqD::Exact(t) = &y.d {
                    let k = t.len() as i128;
                    let long = st.num.norm(&st.num.ge0(&x.len.addk(-k)));
                    let tv = y.clone();
                    let qq = q.clone();
                    let front = n == "starts_with";
                    return Some(self.split2(
                        st,
                        &long,
                        |me, s| {
                            let off = if front { Lin::k(0) } else { qq.view.as_ref().unwrap().1.addk(-k) };
                            let Val::Ptr(z) = me.sub(&qq, &off, &Lin::k(k)) else { unreachable!() };
                            let head = me.seq_of(s, &z);
                            let e = me.eq_vals(s, &Val::Seq(Rc::new(head)), &Val::Seq(Rc::new(tv)));
                            Val::Int(e)
                        },
                        |_, _| kint(0),
                    ));
                }
                return one(st, Val::Int(fresh_lin(0, 1, true)));
            }
            "concat" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                let x = self.seq_of(&mut st, &q);
                if let SeqD::Exact(e) = &x.d {
                    let mut acc = SeqV { len: Lin::k(0), d: SeqD::Exact(vec![]) };
                    for v in e {
                        match v {
                            Val::Seq(s) => acc = self.cat(&st.num, &acc, s),
                            Val::Ptr(pp) if pp.view.is_some() => {
                                let s = self.seq_of(&mut st, pp);
                                acc = self.cat(&st.num, &acc, &s)
                            }
                            _ => acc = SeqV { len: fresh_lin(0, 1 << 40, true), d: SeqD::Summ(Val::Top) },
                        }
                    }
                    return one(st, Val::Seq(Rc::new(acc)));
                }
                let e = match &x.d {
                    SeqD::Summ(Val::Seq(s)) => self.fold_elem(&st.num, s).unwrap_or(Val::Undef),
                    _ => Val::Top,
                };
                return one(st, summ(fresh_lin(0, 1 << 40, true), e));
            }
            "as_ptr" | "as_mut_ptr" => {
                let q = self.sl(&mut st, &a[0], at[0]);
                return one(st, Val::Ptr(q));
            }
            "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" | "deref" | "deref_mut" => {
                if let Val::Box(..) = &a[0] {
                    return None;
                }
                if has("Box") {
                    return None;
                }
                let q = self.sl(&mut st, &a[0], at[0]);
                return one(st, Val::Ptr(q));
            }
            "default" => {
                let v = self.default_of(rty);
                return one(st, v);
            }
            "clone" => {
                let c = self.deref(&mut st, &a[0], at[0]);
                if c.view.is_none() {
                    let v = self.read(&mut st, &c);
                    return one(st, v);
                }
            }
            "new" if has("Box::<") => return one(st, Val::Box(Rc::new(a[0].clone()), None)),
            _ => {}
        }
        let _ = f;
        None
    }
    fn ploc(&self, p: &Val, ty: TyId) -> Loc {
        if let Val::Ptr(p) = p {
            return Loc { root: p.root.clone(), path: p.path.clone(), ty, view: None, dynty: None, boxptr: false };
        }
        Loc { root: Root::Cst(Rc::new(Val::Top)), path: vec![], ty, view: None, dynty: None, boxptr: false }
    }
    /// sequence behind any number of references
    fn sl_any(&mut self, st: &mut State, v: &Val, ty: TyId) -> Option<Rc<PtrV>> {
        let mut v = v.clone();
        let mut t = ty;
        for _ in 0..4 {
            let pt = self.tt.pointee(t)?;
            if self.tt.elem(pt).is_some() {
                return Some(self.sl(st, &v, t));
            }
            let c = self.deref(st, &v, t);
            v = self.read(st, &c);
            t = pt;
        }
        None
    }
    fn native_int(&mut self, st: &mut State, n: &str, path: &str, a: &[Val], at: &[TyId], rty: TyId, sp: u32) -> Option<Val> {
        let i = at.first().and_then(|t| self.tt.ity(*t));
        if path.contains("Wrapping") {
            return None;
        }
        match n {
            "from_be_bytes" | "from_le_bytes" | "from_ne_bytes" => {
                let Val::Seq(s) = &a[0] else { return Some(self.tt.top(rty, true)) };
                let SeqD::Exact(e) = &s.d else { return Some(self.tt.top(rty, true)) };
                let r = self.tt.ity(rty)?;
                let mut v = Lin::k(0);
                let mut it: Vec<&Val> = e.iter().collect();
                if n != "from_be_bytes" {
                    it.reverse();
                }
                for x in it {
                    v = v.mulk(256).add(&self.int(x, Some(U8)));
                }
                return Some(Val::Int(st.num.wrap(&v, r)));
            }
            "to_be_bytes" | "to_le_bytes" | "to_ne_bytes" => {
                let r = i?;
                let nb = (r.bits / 8) as usize;
                let x = self.int(&a[0], i);
                let x = if r.signed { st.num.wrap(&x, ITy { bits: r.bits, signed: false }) } else { x };
                let mut v = vec![];
                for k in 0..nb {
                    let q = fdivl(&st.num, &x, 1i128 << (8 * k));
                    v.push(Val::Int(st.num.wrap(&q, U8)));
                }
                if n == "to_be_bytes" {
                    v.reverse();
                }
                return Some(seq(v));
            }
            _ => {}
        }
        let i = i?;
        let x = st.num.norm(&self.int(&a[0], Some(i)));
        let y = a.get(1).map(|v| st.num.norm(&self.int(v, at.get(1).and_then(|t| self.tt.ity(*t)))));
        let (kind, op) = n.split_once('_')?;
        let op2 = match op {
            "add" => "Add",
            "sub" => "Sub",
            "mul" => "Mul",
            "div" => "Div",
            "rem" => "Rem",
            "shl" => "Shl",
            "shr" => "Shr",
            "neg" => "Neg",
            _ => "",
        };
        match (kind, op2) {
            ("wrapping", "Shl") | ("wrapping", "Shr") => {
                return Some(Val::Int(shift(&st.num, op2 == "Shl", &x, &y?, i)));
            }
            ("wrapping", "Neg") => return Some(Val::Int(st.num.wrap(&x.neg(), i))),
            ("wrapping", o) if !o.is_empty() => {
                let r = arith(&st.num, o, &x, &y?, i);
                return Some(Val::Int(st.num.wrap(&r, i)));
            }
            ("checked", "Shl") | ("checked", "Shr") => {
                let y = y?;
                let c = st.num.norm(&st.num.ge0(&y.neg().addk(i.bits as i128 - 1)));
                let v = shift(&st.num, op2 == "Shl", &x, &y, i);
                return Some(opt(c, Val::Int(v)));
            }
            ("checked", "Div") | ("checked", "Rem") => {
                let y = y?;
                let c = st.num.bnot(&st.num.eq0(&y));
                let v = arith(&st.num, op2, &x, &y, i);
                return Some(opt(st.num.norm(&c), Val::Int(v)));
            }
            ("checked", "Add") | ("checked", "Sub") | ("checked", "Mul") => {
                let r = arith(&st.num, op2, &x, &y?, i);
                let c = self.fits(&st.num, &r, i);
                return Some(opt(c, Val::Int(r)));
            }
            ("overflowing", o) if matches!(o, "Add" | "Sub" | "Mul") => {
                let r = arith(&st.num, o, &x, &y?, i);
                let c = self.fits(&st.num, &r, i);
                return Some(agg(vec![Val::Int(st.num.wrap(&r, i)), Val::Int(st.num.bnot(&c))]));
            }
            ("overflowing", "Div") | ("overflowing", "Rem") => {
                let y = y?;
                let v = arith(&st.num, op2, &x, &y, i);
                if !i.signed || y.konst().map_or(false, |k| k != -1 && k != 0) {
                    return Some(agg(vec![Val::Int(v), Val::Int(Lin::k(0))]));
                }
                return None;
            }
            ("saturating", o) if matches!(o, "Add" | "Sub" | "Mul") => {
                let r = arith(&st.num, o, &x, &y?, i);
                let (lo, hi) = st.num.range(&r);
                if lo >= i.lo() && hi <= i.hi() {
                    return Some(Val::Int(r));
                }
                if lo > i.hi() {
                    return Some(kint(i.hi()));
                }
                if hi < i.lo() {
                    return Some(kint(i.lo()));
                }
                // one-sided saturation keeps the relation
                if hi <= i.hi() && i.lo() == 0 {
                    let b = st.num.norm(&st.num.ge0(&r));
                    if let Some(t) = st.num.decide(&b) {
                        return Some(if t { Val::Int(r) } else { kint(0) });
                    }
                }
                return Some(Val::Int(fresh_lin(lo.max(i.lo()), hi.min(i.hi()), true)));
            }
            _ => {}
        }
        match n {
            "abs_diff" => return None,
            "pow" => return None,
            "is_power_of_two" => return Some(Val::Int(fresh_lin(0, 1, true))),
            "count_ones" | "count_zeros" | "leading_zeros" | "trailing_zeros" | "leading_ones" | "trailing_ones" => {
                if let Some(k) = x.konst() {
                    let bits = i.bits as u32;
                    let m = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                    let v = (k as u128) & m;
                    let r = match n {
                        "count_ones" => v.count_ones(),
                        "count_zeros" => bits - v.count_ones(),
                        "leading_zeros" => v.leading_zeros() - (128 - bits),
                        "trailing_zeros" => v.trailing_zeros().min(bits),
                        _ => return Some(Val::Int(fresh_lin(0, bits as i128, true))),
                    };
                    return Some(kint(r as i128));
                }
                return Some(Val::Int(fresh_lin(0, i.bits as i128, true)));
            }
            "unsigned_abs" | "abs" => {
                let b = st.num.ge0(&x);
                let _ = sp;
                return Some(match st.num.decide(&b) {
                    Some(true) => Val::Int(x),
                    Some(false) => Val::Int(x.neg()),
                    None => {
                        let (lo, hi) = st.num.range(&x);
                        Val::Int(fresh_lin(0, hi.max(-lo), true))
                    }
                });
            }
            _ => {}
        }
        None
    }
    fn native_float(&mut self, st: &State, n: &str, a: &[Val]) -> Option<Val> {
        let num = &st.num;
        match n {
            "ceil" | "floor" | "trunc" | "fract" | "round" => {
                if let Val::Nat("fx", p) = &a[0] {
                    let (l, d) = (self.int(&p[0], None), self.int(&p[1], None).konst()?);
                    let nonneg = num.range(&l).0 >= 0;
                    return Some(match n {
                        "ceil" => fx(fdivl(num, &l.addk(d - 1), d), 1),
                        "floor" => fx(fdivl(num, &l, d), 1),
                        "trunc" if nonneg => fx(fdivl(num, &l, d), 1),
                        "fract" if nonneg => fx(l.sub(&fdivl(num, &l, d).mulk(d)), d),
                        _ => Val::Float(f64::NEG_INFINITY, f64::INFINITY),
                    });
                }
                let (x, y) = frange(num, &a[0]);
                Some(match n {
                    "fract" => Val::Float(-1.0, 1.0),
                    _ => Val::Float(x - 1.0, y + 1.0),
                })
            }
            "min" | "max" => {
                let lt = fop(num, "Lt", &a[0], &a[1]);
                if let Val::Int(b) = &lt {
                    if let Some(t) = num.decide(b) {
                        let first = t == (n == "min");
                        return Some(if first { a[0].clone() } else { a[1].clone() });
                    }
                }
                let (x, y) = frange(num, &a[0]);
                let (u, v) = frange(num, &a[1]);
                Some(if n == "min" { Val::Float(x.min(u), y.min(v)) } else { Val::Float(x.max(u), y.max(v)) })
            }
            "abs" | "sqrt" => Some(Val::Float(0.0, f64::INFINITY)),
            _ => None,
        }
    }
    fn native_simd(&mut self, mut st: State, n: &str, a: &[Val], at: &[TyId], rty: TyId, sp: u32) -> Option<Rets> {
        let one = |st: State, v: Val| Some(vec![(st, v)]);
        // loads and stores touch a fixed number of bytes
        let bytes: Option<i128> = match n {
            "_mm_loadu_si128" | "_mm_storeu_si128" | "_mm_load_si128" | "_mm_store_si128" | "v128_load" | "v128_store" => Some(16),
            "_mm_loadl_epi64" | "_mm_storel_epi64" | "_mm_loadu_si64" | "_mm_storeu_si64" => Some(8),
            "_mm_loadu_si32" | "_mm_storeu_si32" => Some(4),
            "_mm_loadu_si16" | "_mm_storeu_si16" => Some(2),
            "_mm256_loadu_si256" | "_mm256_storeu_si256" => Some(32),
            _ => None,
        };
        if let Some(b) = bytes {
            if let Val::Ptr(_) = &a[0] {
                let q = self.raw_view(&mut st, &a[0], at[0]);
                let esz = match self.tt.elem(q.rty).and_then(|t| self.tt.ity(t)) {
                    Some(i) => (i.bits / 8).max(1) as i128,
                    None => 1,
                };
                let (s, l) = q.view.clone().unwrap();
                let c = st.num.norm(&st.num.band(&st.num.ge0(&s), &st.num.ge0(&l.mulk(esz).addk(-b))));
                if !self.need(&mut st, &c, "raw", sp, "vector load/store outside its slice") {
                    return Some(vec![]);
                }
                if n.contains("store") {
                    let mut d = q.as_ref().clone();
                    let (s, _) = d.view.clone().unwrap();
                    d.view = Some((s, Lin::k(b / esz)));
                    let et = self.tt.elem(q.rty).unwrap_or(rty);
                    let top = self.tt.top(et, true);
                    self.store(&mut st, &d, &SeqV { len: Lin::k(b / esz), d: SeqD::Summ(top) });
                }
            }
            let v = self.tt.top(rty, true);
            return one(st, v);
        }
        if n.contains("load") || n.contains("store") {
            return None;
        }
        one(st, Val::Opaque)
    }
}

/// features every x86_64 target has
const BASELINE: &[&str] = &["sse", "sse2", "fxsr", "x87"];
/// presence of CPU feature `h` implies presence of `f`
fn implies(h: &str, f: &str) -> bool {
    let up = |x: &str| -> &'static [&'static str] {
        match x {
            "sse4.1" => &["ssse3"],
            "sse4.2" => &["sse4.1"],
            "ssse3" => &["sse3"],
            "sse3" => &["sse2"],
            "avx" => &["sse4.2"],
            "avx2" | "fma" | "f16c" => &["avx"],
            "avx512f" => &["avx2", "fma", "f16c"],
            "avx512bw" | "avx512vl" | "avx512dq" | "avx512cd" => &["avx512f"],
            _ => &[],
        }
    };
    up(h).iter().any(|x| *x == f || implies(x, f))
}
/// the feature a detection function asks about
fn i_feature(path: &str, n: &str) -> String {
    let _ = path;
    n.replace("sse4_1", "sse4.1").replace("sse4_2", "sse4.2")
}

/// threads waiting to run and message queues; None when they are no longer known
fn sched(st: &State) -> Option<(Vec<Val>, Vec<Val>)> {
    match st.frames[0].locals.last() {
        Some(Val::Agg(a)) if a.len() == 2 => match (&a[0], &a[1]) {
            (Val::Agg(t), Val::Agg(q)) => Some((t.as_ref().clone(), q.as_ref().clone())),
            _ => None,
        },
        _ => None,
    }
}
fn set_sched(st: &mut State, t: Vec<Val>, q: Vec<Val>) {
    *Rc::make_mut(&mut st.frames[0]).locals.last_mut().unwrap() = agg(vec![agg(t), agg(q)]);
}
fn lose_sched(st: &mut State) {
    *Rc::make_mut(&mut st.frames[0]).locals.last_mut().unwrap() = Val::Top;
}
fn chan_of(v: &Val) -> Option<usize> {
    match v {
        Val::Nat("chan", a) => match &a[0] {
            Val::Int(l) => l.konst().map(|k| k as usize),
            _ => None,
        },
        _ => None,
    }
}
fn chans(v: &Val, out: &mut Vec<usize>) {
    if let Some(k) = chan_of(v) {
        out.push(k);
        return;
    }
    match v {
        Val::Agg(a) | Val::Nat(_, a) => a.iter().for_each(|x| chans(x, out)),
        Val::Enum(_, m) => m.values().flatten().for_each(|x| chans(x, out)),
        Val::Box(b, _) => chans(b, out),
        _ => {}
    }
}
