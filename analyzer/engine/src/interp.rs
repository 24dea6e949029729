//! Abstract interpreter over the MIR dump.
use crate::dom::*;
use crate::ir::*;
use crate::pc::Fact;
use crate::num::*;
use crate::state::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Loc {
    pub root: Root,
    pub path: Vec<Pe>,
    pub ty: TyId,
    pub view: Option<(Lin, Lin)>,
    pub dynty: Option<TyId>,
    pub boxptr: bool,
}
pub struct Alarm {
    pub kind: String,
    pub func: String,
    pub span: String,
    pub detail: String,
    pub trail: Vec<String>,
    pub sites: Vec<String>,
    pub root: String,
}
#[derive(Default, Clone)]
pub struct Obl {
    pub proven: u64,
    pub undecided: u64,
    pub violated: u64,
}
pub struct Cfgp {
    /// join at every control-flow join instead of only beyond `cap` states
    pub merge: bool,
    pub cap: usize,
    pub nd_unroll: usize,
    pub const_unroll: usize,
    pub max_steps: u64,
}
pub struct Interp<'a> {
    pub t0: std::time::Instant,
    pub tick: u64,
    pub p: &'a Prog,
    pub tt: TyTab<'a>,
    pub cfg: Cfgp,
    pub alarms: BTreeMap<String, Alarm>,
    pub obl: BTreeMap<(String, InstId, u32), Obl>,
    pub reached: BTreeSet<String>,
    pub checks: BTreeMap<String, Obl>,
    pub unknown: BTreeMap<String, u64>,
    pub quiet: u32,
    pub steps: u64,
    pub root: String,
    pub fns: BTreeSet<InstId>,
    pub stack: Vec<(InstId, u32)>,
    /// per active loop: was a controlling exit undetermined in this iteration
    pub nd: Vec<NdL>,
    pub widened: u64,
    pub unrolled: u64,
    pub aborted: bool,
    /// depth of threads being run
    pub threads: u32,
    pub profile: BTreeMap<InstId, u64>,
    /// CPU features asked for at run time: 1 when present
    pub feat: BTreeMap<String, Lin>,
    pub debug: bool,
    pub tops: BTreeMap<String, u64>,
    pub returns: u64,
}
pub struct NdL {
    depth: usize,
    inst: InstId,
    lp: usize,
    pub nd: bool,
}
impl NdL {
    pub fn set(&mut self) {
        self.nd = true;
    }
}
pub type Out = Vec<(State, usize)>;

pub const G_FEAT: u32 = 1000;

impl<'a> Interp<'a> {
    pub fn new(p: &'a Prog) -> Interp<'a> {
        Interp {
            p,
            tt: TyTab(p),
            t0: std::time::Instant::now(),
            tick: 5,
            cfg: Cfgp { merge: false, cap: 48, nd_unroll: 64, const_unroll: 400, max_steps: 40_000_000 },
            alarms: BTreeMap::new(),
            obl: BTreeMap::new(),
            reached: BTreeSet::new(),
            checks: BTreeMap::new(),
            unknown: BTreeMap::new(),
            quiet: 0,
            steps: 0,
            root: String::new(),
            fns: BTreeSet::new(),
            stack: vec![],
            nd: vec![],
            widened: 0,
            unrolled: 0,
            aborted: false,
            threads: 0,
            profile: BTreeMap::new(),
            feat: BTreeMap::new(),
            debug: false,
            tops: BTreeMap::new(),
            returns: 0,
        }
    }
    pub fn run_root(&mut self, name: &str, inst: InstId) {
        self.root = name.to_string();
        let st = State { frames: vec![], num: Num::default(), ghosts: Default::default(), gnum: Default::default(), trail: Default::default(), sites: Default::default() };
        self.stack.clear();
        self.nd.clear();
        self.feat.clear();
        let r = self.exec_fn(st, inst, vec![]);
        self.returns = r.len() as u64;
    }
    /// a function of the crate on arbitrary arguments
    pub fn run_fn(&mut self, name: &str, inst: InstId) {
        self.root = name.to_string();
        let st = State { frames: vec![], num: Num::default(), ghosts: Default::default(), gnum: Default::default(), trail: Default::default(), sites: Default::default() };
        self.stack.clear();
        self.nd.clear();
        self.feat.clear();
        let body = self.p.insts[inst].body.as_ref().unwrap();
        let mut args = vec![];
        for k in 0..body.args {
            let t = body.locals[k + 1];
            let mut v = self.tt.top(t, false);
            if let (TyK::Ref(x, _), Val::Ptr(p)) = (self.tt.k(t), &v) {
                if matches!(self.tt.k(*x), TyK::Slice(_)) {
                    let n = fresh_lin(0, i64::MAX as i128, false);
                    v = Val::Ptr(Rc::new(PtrV { root: Root::Cst(Rc::new(summ(n.clone(), Val::Top))), view: Some((Lin::k(0), n)), ..p.as_ref().clone() }));
                }
            }
            args.push(v);
        }
        let r = self.exec_fn(st, inst, args);
        self.returns = r.len() as u64;
    }

    // ------------------------------------------------------------ memory
    pub fn depth(&self, st: &State) -> usize {
        st.frames.len() - 1
    }
    pub fn local(&self, st: &State, l: usize) -> Val {
        st.frames.last().unwrap().locals[l].clone()
    }
    pub fn set_local(&self, st: &mut State, l: usize, v: Val) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.locals[l] = v;
    }
    pub fn lty(&self, st: &State, d: usize, l: usize) -> TyId {
        let b = self.p.insts[st.frames[d].inst].body.as_ref().unwrap();
        if l < b.locals.len() { b.locals[l] } else { usize::MAX }
    }
    pub fn place(&mut self, st: &mut State, body: &Body, pl: &Place) -> Loc {
        let d = self.depth(st);
        let mut c = Loc { root: Root::Loc(d as u32, pl.l as u32), path: vec![], ty: body.locals[pl.l], view: None, dynty: None, boxptr: false };
        for e in &pl.p {
            match e {
                Proj::Deref => {
                    if c.boxptr {
                        c.boxptr = false;
                        c.path.push(Pe::B);
                        c.ty = self.tt.pointee(c.ty).unwrap_or(c.ty);
                        if let Val::Box(_, Some(dt)) = self.read(st, &Loc { path: c.path[..c.path.len() - 1].to_vec(), ..c.clone() }) {
                            c.dynty = Some(dt);
                        }
                        continue;
                    }
                    let v = self.read(st, &c);
                    c = self.deref(st, &v, c.ty);
                }
                Proj::Field(f, t) => {
                    if c.boxptr {
                        continue;
                    }
                    if self.tt.is_boxlike(c.ty) {
                        c.boxptr = true;
                        continue;
                    }
                    c.path.push(Pe::F(*f as u32));
                    let _ = t;
                    // the dump's own field types are normalised
                    c.ty = match self.field_ty(&c, *f as u32) {
                        Some(x) => x,
                        None => *t,
                    };
                }
                Proj::Variant(v) => c.path.push(Pe::V(*v as u32)),
                Proj::Index(l) => {
                    let i = match self.local(st, *l) {
                        Val::Int(l) => l,
                        _ => fresh_lin(0, 1 << 40, true),
                    };
                    self.index(&mut c, i);
                }
                Proj::ConstIdx(off, _, end) => {
                    let i = if *end { self.len_of(st, &c).addk(-(*off as i128)) } else { Lin::k(*off as i128) };
                    self.index(&mut c, i);
                }
                Proj::Sub(from, to, end) => {
                    let n = self.len_of(st, &c);
                    let (s, l) = c.view.clone().unwrap_or((Lin::k(0), n));
                    let nl = if *end { l.addk(-(*from as i128) - *to as i128) } else { Lin::k(*to as i128 - *from as i128) };
                    c.view = Some((s.addk(*from as i128), nl));
                }
                Proj::Other => {}
            }
        }
        c
    }
    fn field_ty(&self, c: &Loc, f: u32) -> Option<TyId> {
        // c.path ends with F(f); look one back for a variant
        let n = c.path.len();
        let var = if n >= 2 { if let Pe::V(k) = c.path[n - 2] { Some(k) } else { None } } else { None };
        self.tt.field(c.ty, var, f)
    }
    pub fn index(&mut self, c: &mut Loc, i: Lin) {
        let i = match &c.view {
            Some((s, _)) => s.add(&i),
            None => i,
        };
        c.view = None;
        c.path.push(Pe::I(i));
        c.ty = self.tt.elem(c.ty).unwrap_or(c.ty);
    }
    pub fn deref(&mut self, _st: &mut State, v: &Val, pty: TyId) -> Loc {
        let t = self.tt.pointee(pty).unwrap_or(pty);
        match v {
            Val::Ptr(p) => Loc { root: p.root.clone(), path: p.path.clone(), ty: if p.view.is_some() { p.rty } else { t }, view: p.view.clone(), dynty: p.dynty, boxptr: false },
            _ => {
                if self.debug && !matches!(v, Val::Top | Val::Undef) {
                    *self.tops.entry(format!("deref {:?} as {}", v, self.p.tys[pty].s)).or_default() += 1;
                }
                match self.tt.top(pty, true) {
                    Val::Ptr(p) => Loc { root: p.root.clone(), path: vec![], ty: t, view: p.view.clone(), dynty: None, boxptr: false },
                    _ => Loc { root: Root::Cst(Rc::new(Val::Top)), path: vec![], ty: t, view: None, dynty: None, boxptr: false },
                }
            }
        }
    }
    /// pointer value for a location
    pub fn ptr(&mut self, c: &Loc) -> Val {
        Val::Ptr(Rc::new(PtrV { root: c.root.clone(), path: c.path.clone(), view: c.view.clone(), dynty: c.dynty, rty: c.ty }))
    }
    pub fn root_val<'b>(&self, st: &'b State, r: &'b Root) -> &'b Val {
        match r {
            Root::Loc(d, l) => &st.frames[*d as usize].locals[*l as usize],
            Root::Cst(v) => v,
        }
    }
    pub fn root_ty(&self, st: &State, r: &Root, ty: TyId, path: &[Pe]) -> TyId {
        match r {
            Root::Loc(d, l) => {
                let t = self.lty(st, *d as usize, *l as usize);
                if t == usize::MAX { ty } else { t }
            }
            Root::Cst(_) => {
                let _ = path;
                ty
            }
        }
    }
    pub fn read(&mut self, st: &mut State, c: &Loc) -> Val {
        if c.boxptr {
            let mut q = c.clone();
            q.boxptr = false;
            let mut dt = None;
            if let Val::Box(_, d) = self.read(st, &q) {
                dt = d;
            }
            q.path.push(Pe::B);
            q.ty = self.tt.pointee(c.ty).unwrap_or(c.ty);
            q.dynty = dt;
            return self.ptr(&q);
        }
        if c.view.is_some() {
            // an array read through a window of a longer sequence
            let p = PtrV { root: c.root.clone(), path: c.path.clone(), view: c.view.clone(), dynty: None, rty: c.ty };
            return Val::Seq(Rc::new(self.seq_of(st, &p)));
        }
        let v = self.raw(st, c);
        match v {
            Val::Top | Val::Undef => {
                let n = self.tt.top(c.ty, true);
                if self.debug {
                    let w = self.stack.last().map(|s| format!("{} {}", self.p.insts[s.0].path, self.p.spans[self.p.insts[s.0].body.as_ref().unwrap().blocks[s.1 as usize].sp as usize])).unwrap_or_default();
                    *self.tops.entry(format!("read {:?} of {} in {}", v, self.p.tys[c.ty].s, w)).or_default() += 1;
                }
                if !matches!(n, Val::Top) {
                    self.write(st, c, n.clone());
                }
                n
            }
            v => v,
        }
    }
    fn cst_ty(&self, _r: &Root, c: &Loc) -> Option<TyId> {
        if c.path.is_empty() { Some(c.ty) } else { None }
    }
    pub fn raw(&self, st: &State, c: &Loc) -> Val {
        let v = self.root_val(st, &c.root);
        let t = match &c.root {
            Root::Loc(d, l) => self.lty(st, *d as usize, *l as usize),
            Root::Cst(_) => match self.cst_ty(&c.root, c) {
                Some(t) => t,
                None => return self.raw_untyped(&st.num, v, &c.path, c.ty),
            },
        };
        if t == usize::MAX {
            return self.raw_untyped(&st.num, v, &c.path, c.ty);
        }
        self.tt.get(&st.num, v, t, &c.path).0
    }
    /// read along a path in a constant, whose root type is not kept
    fn raw_untyped(&self, num: &Num, v: &Val, path: &[Pe], ty: TyId) -> Val {
        let Some(p) = path.first() else { return v.clone() };
        match (p, v) {
            (Pe::V(k), Val::Enum(_, m)) => {
                if let (Some(Pe::F(f)), Some(pl)) = (path.get(1), m.get(k)) {
                    if let Some(x) = pl.get(*f as usize) {
                        return self.raw_untyped(num, x, &path[2..], ty);
                    }
                }
                Val::Top
            }
            (Pe::F(f), Val::Agg(a)) => a.get(*f as usize).map_or(Val::Top, |x| self.raw_untyped(num, x, &path[1..], ty)),
            (Pe::B, Val::Box(b, _)) => self.raw_untyped(num, b, &path[1..], ty),
            (Pe::I(_), Val::Seq(_)) => {
                // the element type only matters for lazily created values
                let et = ty;
                let at = self.p.tys.iter().position(|t| matches!(t.k, TyK::Slice(e) if e == et));
                match at {
                    Some(at) if path.len() == 1 => self.tt.get(num, v, at, &path[..1]).0,
                    _ => {
                        let any = self.p.tys.iter().position(|t| matches!(t.k, TyK::Slice(_))).unwrap();
                        let e = self.tt.get(num, v, any, &path[..1]).0;
                        self.raw_untyped(num, &e, &path[1..], ty)
                    }
                }
            }
            _ => Val::Top,
        }
    }
    pub fn write(&mut self, st: &mut State, c: &Loc, v: Val) {
        if c.view.is_some() {
            let p = PtrV { root: c.root.clone(), path: c.path.clone(), view: c.view.clone(), dynty: None, rty: c.ty };
            let q = match v {
                Val::Seq(q) => q.as_ref().clone(),
                _ => SeqV { len: c.view.clone().unwrap().1, d: SeqD::Summ(Val::Top) },
            };
            self.store(st, &p, &q);
            return;
        }
        if let Root::Loc(d, l) = &c.root {
            let (d, l) = (*d as usize, *l as usize);
            if d >= st.frames.len() {
                return;
            }
            let t = self.lty(st, d, l);
            let num = st.num.clone();
            let f = Rc::make_mut(&mut st.frames[d]);
            if t == usize::MAX {
                if c.path.is_empty() {
                    f.locals[l] = v;
                }
                return;
            }
            self.tt.set(&num, &mut f.locals[l], t, &c.path, v);
        }
    }
    /// length of the slice/array/vec at a location
    pub fn len_of(&mut self, st: &mut State, c: &Loc) -> Lin {
        if let Some((_, l)) = &c.view {
            return l.clone();
        }
        if let TyK::Array(_, n) = self.tt.k(c.ty) {
            return Lin::k(*n as i128);
        }
        match self.read(st, c) {
            Val::Seq(s) => s.len.clone(),
            _ => fresh_lin(0, 1 << 40, true),
        }
    }
    // ------------------------------------------------------------ operands
    pub fn operand(&mut self, st: &mut State, body: &Body, o: &Op) -> Val {
        match o {
            Op::Copy(p) => {
                if p.p.is_empty() {
                    let v = self.local(st, p.l);
                    if !matches!(v, Val::Top | Val::Undef) {
                        return v;
                    }
                }
                let c = self.place(st, body, p);
                self.read(st, &c)
            }
            Op::Move(p) => {
                if p.p.is_empty() {
                    let v = self.local(st, p.l);
                    if !matches!(v, Val::Top | Val::Undef) {
                        self.set_local(st, p.l, Val::Undef);
                        return v;
                    }
                    if self.tt.is_zst(body.locals[p.l]) {
                        return self.tt.top(body.locals[p.l], false);
                    }
                }
                let c = self.place(st, body, p);
                self.read(st, &c)
            }
            Op::Const(c) => self.konst(c),
        }
    }
    pub fn konst(&mut self, c: &Const) -> Val {
        match &c.k {
            ConstK::Int(i) => kint(*i),
            ConstK::Float(f) => {
                // exact when it is a dyadic rational with a 24-bit numerator (every normal f32 of moderate size)
                // (the dump prints an f32 as a decimal that may be off by a bit of f64 when read back)
                let f = if self.p.tys[c.t as usize].s == "f32" { *f as f32 as f64 } else { *f };
                let (mut n, mut d) = (f, 1i128);
                while n.fract() != 0.0 && d < 1 << 60 {
                    n *= 2.0;
                    d *= 2;
                }
                if n.fract() == 0.0 && n.abs() < 16777216.0 {
                    fx(Lin::k(n as i128), d)
                } else {
                    Val::Float(f, f)
                }
            }
            ConstK::Fn(f) => match &f.k {
                CalleeK::Inst(i) => Val::Fn(Rc::new(vec![*i])),
                _ => unit(),
            },
            ConstK::FnPtr(i) => Val::Fn(Rc::new(vec![*i])),
            ConstK::Slice(e) => {
                let v: Vec<Val> = e.iter().map(|x| self.konst(x)).collect();
                let n = v.len() as i128;
                let rty = self.tt.pointee(c.t).unwrap_or(c.t);
                Val::Ptr(Rc::new(PtrV { root: Root::Cst(Rc::new(seq(v))), path: vec![], view: Some((Lin::k(0), Lin::k(n))), dynty: None, rty }))
            }
            ConstK::Str(s) => {
                let v: Vec<Val> = s.bytes().map(|b| kint(b as i128)).collect();
                let n = v.len() as i128;
                let rty = self.tt.pointee(c.t).unwrap_or(c.t);
                Val::Ptr(Rc::new(PtrV { root: Root::Cst(Rc::new(seq(v))), path: vec![], view: Some((Lin::k(0), Lin::k(n))), dynty: None, rty }))
            }
            ConstK::Ref(x) => {
                let v = self.konst(x);
                Val::Ptr(Rc::new(PtrV { root: Root::Cst(Rc::new(v)), path: vec![], view: None, dynty: None, rty: x.t }))
            }
            ConstK::Static(i) => {
                let rty = self.p.statics[*i].2;
                let v = match &self.p.statics[*i].1 {
                    Some(k) => {
                        let k = k.clone();
                        self.konst(&k)
                    }
                    None => Val::Top,
                };
                Val::Ptr(Rc::new(PtrV { root: Root::Cst(Rc::new(v)), path: vec![], view: None, dynty: None, rty }))
            }
            ConstK::Arr(e) => {
                let v = e.iter().map(|x| self.konst(x)).collect();
                seq(v)
            }
            ConstK::Agg(v, f) => {
                let p: Vec<Val> = f.iter().map(|x| self.konst(x)).collect();
                let is_enum = self.tt.adt(c.t).map_or(false, |a| a.3);
                if is_enum { variant((*v).max(0) as u32, p) } else { agg(p) }
            }
            ConstK::EmptyVec => seq(vec![]),
            ConstK::Unk => {
                if self.tt.is_zst(c.t) {
                    self.tt.top(c.t, false)
                } else {
                    self.tt.top(c.t, true)
                }
            }
        }
    }
    pub fn int(&self, v: &Val, t: Option<ITy>) -> Lin {
        match v {
            Val::Int(l) => l.clone(),
            Val::Enum(d, _) => d.clone(),
            _ => {
                let t = t.unwrap_or(U64);
                fresh_lin(t.lo(), t.hi(), true)
            }
        }
    }
    // ------------------------------------------------------------ arithmetic
    pub fn binop(&mut self, st: &State, op: &str, a: &Val, b: &Val, t: TyId) -> Val {
        let n = &st.num;
        let ity = self.tt.ity(t);
        if is_float(a) || is_float(b) || matches!(self.tt.k(t), TyK::Float) {
            if self.p.tys[t as usize].s == "f32" {
                if let Some(v) = f32op(op, a, b) {
                    return v;
                }
            }
            return fop(n, op, a, b);
        }
        if let (Val::Ptr(_), _) | (_, Val::Ptr(_)) = (a, b) {
            return match op {
                "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" => Val::Int(fresh_lin(0, 1, true)),
                _ => Val::Top,
            };
        }
        let x = n.norm(&self.int(a, ity));
        let y = n.norm(&self.int(b, ity));
        let i = ity.unwrap_or(U64);
        let cmp = |l: Lin| Val::Int(l);
        match op {
            "Eq" => cmp(n.eq0(&x.sub(&y))),
            "Ne" => cmp(n.bnot(&n.eq0(&x.sub(&y)))),
            "Lt" => cmp(n.ge0(&y.sub(&x).addk(-1))),
            "Le" => cmp(n.ge0(&y.sub(&x))),
            "Gt" => cmp(n.ge0(&x.sub(&y).addk(-1))),
            "Ge" => cmp(n.ge0(&x.sub(&y))),
            "Cmp" => {
                // Ordering: variant index 0,1,2
                let ge = n.ge0(&x.sub(&y));
                let gt = n.ge0(&x.sub(&y).addk(-1));
                Val::Enum(ge.add(&gt), Rc::new(BTreeMap::new()))
            }
            // an unsigned quotient or remainder by a positive constant is always representable
            "Div" | "Rem" if !i.signed && y.konst().map_or(false, |k| k > 0) => Val::Int(arith(n, op, &x, &y, i)),
            _ => Val::Int(n.wrap(&arith(n, op, &x, &y, i), i)),
        }
    }
    fn rvalue(&mut self, st: &mut State, body: &Body, rv: &Rv, dty: TyId) -> Val {
        match rv {
            Rv::Use(o) => self.operand(st, body, o),
            Rv::Repeat(o, n) => {
                let v = self.operand(st, body, o);
                if *n <= 1024 { seq(vec![v; *n as usize]) } else { summ(Lin::k(*n as i128), v) }
            }
            Rv::Ref(p) => {
                let c = self.place(st, body, p);
                self.ptr(&c)
            }
            Rv::Bin(op, a, b, t) => {
                let x = self.operand(st, body, a);
                let y = self.operand(st, body, b);
                if let Some(base) = op.strip_suffix("WithOverflow") {
                    let i = self.tt.ity(*t).unwrap_or(U64);
                    let (l, m) = (st.num.norm(&self.int(&x, Some(i))), st.num.norm(&self.int(&y, Some(i))));
                    let r = arith(&st.num, base, &l, &m, i);
                    let n = &st.num;
                    let (lo, hi) = n.range(&r);
                    let under = if lo >= i.lo() { Lin::k(0) } else { n.bnot(&n.ge0(&r.addk(-i.lo()))) };
                    let over = if hi <= i.hi() { Lin::k(0) } else { n.ge0(&r.addk(-i.hi() - 1)) };
                    let ov = n.bor(&under, &over);
                    if ov.konst() == Some(0) {
                        return agg(vec![Val::Int(r), kint(0)]);
                    }
                    // the value is only used after the overflow assertion
                    let _ = dty;
                    return agg(vec![Val::Int(r), Val::Int(ov)]);
                }
                let op = op.strip_suffix("Unchecked").unwrap_or(op);
                if matches!(op, "Shl" | "Shr") {
                    let i = self.tt.ity(*t).unwrap_or(U64);
                    let (l, m) = (st.num.norm(&self.int(&x, Some(i))), st.num.norm(&self.int(&y, None)));
                    return Val::Int(shift(&st.num, op == "Shl", &l, &m, i));
                }
                if op == "Offset" {
                    return self.offset(st, &x, &y);
                }
                self.binop(st, op, &x, &y, *t)
            }
            Rv::Un(op, o, t) => {
                let x = self.operand(st, body, o);
                match op.as_str() {
                    "Not" => {
                        let i = self.tt.ity(*t).unwrap_or(BOOL);
                        let l = self.int(&x, Some(i));
                        Val::Int(if i.bits == 1 { st.num.bnot(&l) } else if i.signed { l.neg().addk(-1) } else { Lin::k(i.hi()).sub(&l) })
                    }
                    "Neg" => match &x {
                        Val::Float(a, b) => Val::Float(-b, -a),
                        Val::Nat("fx", v) => Val::Nat("fx", Rc::new(vec![Val::Int(self.int(&v[0], None).neg()), v[1].clone()])),
                        _ => {
                            let i = self.tt.ity(*t).unwrap_or(U64);
                            Val::Int(st.num.wrap(&self.int(&x, Some(i)).neg(), i))
                        }
                    },
                    "PtrMetadata" => match &x {
                        Val::Ptr(p) => match &p.view {
                            Some((_, l)) => Val::Int(l.clone()),
                            None => {
                                let pt = p.clone();
                                let c = Loc { root: pt.root.clone(), path: pt.path.clone(), ty: pt.rty, view: None, dynty: None, boxptr: false };
                                Val::Int(self.len_of(st, &c))
                            }
                        },
                        _ => Val::Int(fresh_lin(0, 1 << 40, true)),
                    },
                    _ => Val::Top,
                }
            }
            Rv::Discr(p, _) => {
                let c = self.place(st, body, p);
                let v = self.read(st, &c);
                match v {
                    Val::Enum(d, _) => Val::Int(self.discr(&st.num, c.ty, &d)),
                    _ => self.tt.top(dty, true),
                }
            }
            Rv::Agg { k, v, t, os } => {
                let mut f: Vec<Val> = os.iter().map(|o| self.operand(st, body, o)).collect();
                match k.as_str() {
                    "array" => seq(f),
                    "adt" => {
                        let ad = self.tt.adt(*t);
                        if ad.map_or(false, |a| a.3) {
                            variant(*v as u32, f)
                        } else {
                            if let Some(a) = ad {
                                let n = a.2.first().map_or(0, |x| x.f.len());
                                while f.len() < n {
                                    f.push(Val::Undef);
                                }
                            }
                            agg(f)
                        }
                    }
                    "rawptr" => Val::Top,
                    _ => agg(f),
                }
            }
            Rv::Cast { k, o, from, to, inst } => {
                let v = self.operand(st, body, o);
                self.cast(st, k, v, *from, *to, *inst)
            }
            Rv::Other => self.tt.top(dty, true),
        }
    }
    pub fn offset(&mut self, st: &State, x: &Val, y: &Val) -> Val {
        let _ = st;
        if let Val::Ptr(p) = x {
            let k = self.int(y, None);
            if let Some((s, l)) = &p.view {
                return Val::Ptr(Rc::new(PtrV { view: Some((s.add(&k), l.sub(&k))), ..p.as_ref().clone() }));
            }
        }
        Val::Top
    }
    /// discriminant value of variant index `d`
    pub fn discr(&self, n: &Num, t: TyId, d: &Lin) -> Lin {
        let Some((_, _, vars, _)) = self.tt.adt(t) else { return d.clone() };
        let off = vars.first().map_or(0, |v| v.d);
        if vars.iter().enumerate().all(|(i, v)| v.d == off + i as i128) {
            return d.addk(off);
        }
        if let Some(k) = n.konst(d) {
            return Lin::k(vars.get(k as usize).map_or(k, |v| v.d));
        }
        fresh_lin(i64::MIN as i128, i64::MAX as i128, true)
    }
    fn cast(&mut self, st: &mut State, k: &str, v: Val, from: TyId, to: TyId, inst: i64) -> Val {
        match k {
            "IntToInt" => {
                let i = self.tt.ity(to).unwrap_or(U64);
                let l = match &v {
                    Val::Enum(d, _) => self.discr(&st.num, from, d),
                    _ => self.int(&v, self.tt.ity(from)),
                };
                Val::Int(st.num.wrap(&st.num.norm(&l), i))
            }
            "IntToFloat" => {
                let l = self.int(&v, self.tt.ity(from));
                let (lo, hi) = st.num.range(&l);
                if lo > -(1 << 24) && hi < 1 << 24 { fx(l, 1) } else { Val::Float(lo as f64 * 1.0001, hi as f64 * 1.0001) }
            }
            "FloatToInt" => {
                let i = self.tt.ity(to).unwrap_or(U64);
                if let Val::Nat("fx", p) = &v {
                    let (n, d) = (self.int(&p[0], None), self.int(&p[1], None));
                    if let (Some(x), Some(y)) = (n.konst(), d.konst()) {
                        return kint((x / y).max(i.lo()).min(i.hi()));
                    }
                    let (lo, _) = st.num.range(&n);
                    if d.konst() == Some(1) || lo >= 0 {
                        let q = if d.konst() == Some(1) { n } else { fdivl(&st.num, &n, d.c) };
                        let (lo, hi) = st.num.range(&q);
                        if lo >= i.lo() && hi <= i.hi() {
                            return Val::Int(q);
                        }
                        return Val::Int(fresh_lin(lo.max(i.lo()).min(i.hi()), hi.min(i.hi()).max(i.lo()), true));
                    }
                }
                let (a, b) = frange(&st.num, &v);
                let lo = if a.is_finite() { (a.floor() as i128).max(i.lo()) } else { i.lo() };
                let hi = if b.is_finite() { (b.ceil() as i128).min(i.hi()) } else { i.hi() };
                Val::Int(fresh_lin(lo.min(hi), hi.max(lo), true))
            }
            "BoxDerefTransmute" | "PtrToPtr" | "MutToConstPointer" | "Transmute" | "Subtype" | "FnPtrToPtr" => {
                // a thin pointer to the first element keeps its view
                let _ = (from, to);
                v
            }
            "Unsize" => self.unsize(v, from, to),
            "ReifyFnPointer" | "ClosureFnPointer" | "UnsafeFnPointer" => {
                if inst >= 0 {
                    Val::Fn(Rc::new(vec![inst as usize]))
                } else {
                    v
                }
            }
            _ => self.tt.top(to, true),
        }
    }
    pub fn unsize(&mut self, v: Val, from: TyId, to: TyId) -> Val {
        let (Some(f), Some(t)) = (self.tt.pointee(from), self.tt.pointee(to)) else { return v };
        match (self.tt.k(f), self.tt.k(t)) {
            (TyK::Array(_, n), TyK::Slice(_)) => match v {
                Val::Ptr(p) => {
                    // an array reached through a window of a slice keeps its offset
                    let at = p.view.as_ref().map_or(Lin::k(0), |x| x.0.clone());
                    Val::Ptr(Rc::new(PtrV { view: Some((at, Lin::k(*n as i128))), rty: t, ..p.as_ref().clone() }))
                }
                v => v,
            },
            (_, TyK::Dyn(_)) => match v {
                Val::Ptr(p) => {
                    if p.dynty.is_some() {
                        return Val::Ptr(p);
                    }
                    Val::Ptr(Rc::new(PtrV { dynty: Some(f), ..p.as_ref().clone() }))
                }
                Val::Box(b, d) => Val::Box(b, d.or(Some(f))),
                v => v,
            },
            _ => v,
        }
    }
    // ------------------------------------------------------------ running
    pub fn exec_fn(&mut self, mut st: State, inst: InstId, args: Vec<Val>) -> Vec<(State, Val)> {
        let p = self.p;
        let body = p.insts[inst].body.as_ref().unwrap();
        self.fns.insert(inst);
        let mut locals = vec![Val::Undef; body.locals.len()];
        for (i, a) in args.into_iter().enumerate() {
            if i + 1 < locals.len() {
                locals[i + 1] = a;
            }
        }
        // by-value environment where the body wants a reference
        if body.args >= 1 {
            if let (TyK::Ref(..), true) = (self.tt.k(body.locals[1]), matches!(locals[1], Val::Agg(_))) {
                let env = locals[1].clone();
                let rty = self.tt.pointee(body.locals[1]).unwrap();
                locals.push(env);
                let l = locals.len() - 1;
                locals[1] = Val::Ptr(Rc::new(PtrV { root: Root::Loc(st.frames.len() as u32, l as u32), path: vec![], view: None, dynty: None, rty }));
            }
        }
        if st.frames.is_empty() {
            // threads not run yet and message queues, kept where every traversal of the state finds them
            locals.push(agg(vec![agg(vec![]), agg(vec![])]));
        }
        st.frames.push(Rc::new(Frame { inst, locals }));
        let depth = st.frames.len();
        self.stack.push((inst, 0));
        let mut rets = vec![];
        let s0 = self.steps;
        self.region(inst, body, None, vec![(st, 0)], &mut vec![], &mut rets, &mut vec![]);
        *self.profile.entry(inst).or_default() += self.steps - s0;
        self.stack.pop();
        // drop everything but the return value
        for s in rets.iter_mut() {
            s.frames.truncate(depth);
            let f = Rc::make_mut(s.frames.last_mut().unwrap());
            f.locals.truncate(1);
        }
        let rets = self.merge(rets, depth);
        rets.into_iter()
            .map(|mut s| {
                let f = s.frames.pop().unwrap();
                let mut v = f.locals[0].clone();
                if matches!(v, Val::Undef) {
                    v = self.tt.top(body.locals[0], true);
                }
                (s, v)
            })
            .collect()
    }
    /// group and join states at one program point
    fn merge(&mut self, mut ss: Vec<State>, depth: usize) -> Vec<State> {
        for s in ss.iter_mut() {
            collect(s);
        }
        if ss.len() < 2 {
            return ss;
        }
        let p = self.p;
        let mut out: Vec<State> = vec![];
        let flags = |d: usize, l: usize| -> bool {
            let _ = depth;
            // captured below per state
            let _ = (d, l);
            false
        };
        let frames_inst: Vec<InstId> = ss[0].frames.iter().map(|f| f.inst).collect();
        let flagsf = |d: usize, l: usize| -> bool {
            let b = p.insts[frames_inst[d]].body.as_ref().unwrap();
            l < b.flags.len() && b.flags[l] && l != 0
        };
        let _ = flags;
        if self.cfg.merge {
            for s in ss.drain(..) {
                let mut done = false;
                for o in out.iter_mut() {
                    if same_shape(o, &s, &flagsf, &self.tt) {
                        *o = join_states(o, &s);
                        done = true;
                        break;
                    }
                }
                if !done {
                    out.push(s);
                }
            }
        } else {
            for s in ss.drain(..) {
                let mut done = false;
                for o in out.iter_mut() {
                    if let Some(j) = self.free_join(o, &s, &flagsf) {
                        *o = j;
                        done = true;
                        break;
                    }
                }
                if !done {
                    out.push(s);
                }
            }
            if out.len() > self.cfg.cap {
                let all = std::mem::take(&mut out);
                for s in all {
                    let mut done = false;
                    for o in out.iter_mut() {
                        if same_shape(o, &s, &flagsf, &self.tt) {
                            *o = join_states(o, &s);
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        out.push(s);
                    }
                }
            }
        }
        if out.len() > self.cfg.cap * 2 {
            let all = std::mem::take(&mut out);
            for s in all {
                let mut done = false;
                for o in out.iter_mut() {
                    if o.ghosts == s.ghosts && o.frames.len() == s.frames.len() {
                        *o = join_states(o, &s);
                        done = true;
                        break;
                    }
                }
                if !done {
                    out.push(s);
                }
            }
        }
        out
    }
    /// join that introduces no approximated value
    fn free_join(&self, a: &State, b: &State, flags: &dyn Fn(usize, usize) -> bool) -> Option<State> {
        if a.ghosts != b.ghosts || a.frames.len() != b.frames.len() {
            return None;
        }
        for (d, (f, g)) in a.frames.iter().zip(b.frames.iter()).enumerate().rev() {
            if Rc::ptr_eq(f, g) {
                continue;
            }
            for (l, (x, y)) in f.locals.iter().zip(g.locals.iter()).enumerate() {
                if !flags(d, l) && !same_val(&a.num, &b.num, x, y) {
                    return None;
                }
            }
        }
        if a.gnum.len() != b.gnum.len() || a.gnum.iter().any(|(k, v)| b.gnum.get(k) != Some(v)) {
            return None;
        }
        Some(join_states(a, b))
    }
    #[allow(clippy::too_many_arguments)]
    fn region(&mut self, inst: InstId, body: &'a Body, lp: Option<usize>, entry: Vec<(State, usize)>, backs: &mut Vec<State>, rets: &mut Vec<State>, exits: &mut Out) {
        let cfg = &body.cfg;
        let n = cfg.rpo.len();
        let mut pos = vec![usize::MAX; body.blocks.len()];
        for (i, &b) in cfg.rpo.iter().enumerate() {
            pos[b] = i;
        }
        let mut pend: BTreeMap<usize, Vec<State>> = BTreeMap::new();
        for (s, b) in entry {
            pend.entry(pos[b]).or_default().push(s);
        }
        let head = lp.map(|l| cfg.loops[l].head);
        let mut first = true;
        while let Some((&i, _)) = pend.iter().next() {
            debug_assert!(i < n);
            let ss = pend.remove(&i).unwrap();
            let b = cfg.rpo[i];
            let depth = ss[0].frames.len();
            let ss = self.merge(ss, depth);
            let mut outs: Out = vec![];
            let inner = cfg.loops.iter().position(|l| l.head == b && l.parent == lp && Some(b) != head).filter(|&l| Some(l) != lp);
            match inner {
                Some(l) if !(Some(b) == head) => {
                    self.run_loop(inst, body, l, ss, rets, &mut outs);
                }
                _ => {
                    for s in ss {
                        self.block(inst, body, b, s, rets, &mut outs);
                        if self.aborted {
                            return;
                        }
                    }
                }
            }
            let _ = first;
            first = false;
            for (s, t) in outs {
                if Some(t) == head {
                    backs.push(s);
                } else if lp.map_or(true, |l| cfg.loops[l].body[t]) {
                    pend.entry(pos[t]).or_default().push(s);
                } else {
                    exits.push((s, t));
                }
            }
            if self.aborted {
                return;
            }
        }
    }
    fn run_loop(&mut self, inst: InstId, body: &'a Body, l: usize, entry: Vec<State>, rets: &mut Vec<State>, exits: &mut Out) {
        let lp = &body.cfg.loops[l];
        let head = lp.head;
        let mut cur = entry;
        let depth = cur[0].frames.len();
        let mut nd_count = 0;
        let mut iters = 0;
        if self.debug {
            eprintln!("loop {} bb{} entry {} quiet {} step {}", p_short(&self.p.insts[inst].path), head, cur.len(), self.quiet, self.steps);
        }
        let nd_limit = self.cfg.nd_unroll;
        // header states of consecutive iterations that no path left, per partition
        let mut chain: Vec<(Rc<BTreeMap<u32, i128>>, State, u32, u32)> = vec![];
        let judged = self.p.insts[inst].local && !self.p.insts[inst].path.starts_with("__verif");
        let lkey = ("loop".to_string(), inst, body.blocks[head].sp);
        loop {
            if self.aborted {
                return;
            }
            self.nd.push(NdL { depth, inst, lp: l, nd: lp.ctrl.is_empty() });
            let mut backs = vec![];
            let mut ex: Out = vec![];
            let mut rt = vec![];
            let bef = cur.clone();
            let widen_now = nd_count >= nd_limit || iters >= self.cfg.const_unroll;
            if widen_now {
                self.nd.pop();
                self.widen(inst, body, l, bef, rets, exits);
                return;
            }
            let st: Vec<(State, usize)> = cur.into_iter().map(|s| (s, head)).collect();
            self.region(inst, body, Some(l), st, &mut backs, &mut rt, &mut ex);
            let nd = self.nd.pop().unwrap().nd;
            self.unrolled += 1;
            if judged && self.quiet == 0 {
                let mut next = vec![];
                for h in bef.iter() {
                    if bef.iter().filter(|o| o.ghosts == h.ghosts).count() != 1 || ex.iter().any(|o| o.0.ghosts == h.ghosts) || rt.iter().any(|o| o.ghosts == h.ghosts) {
                        continue;
                    }
                    let mut b = backs.iter().filter(|o| o.ghosts == h.ghosts);
                    let (Some(bk), None) = (b.next(), b.next()) else { continue };
                    // one earlier state is kept, replaced at doubling distances (Brent): finds cycles of any length
                    let (mut c, mut age, mut span) = chain.iter().find(|c| c.0 == h.ghosts).map_or((h.clone(), 0, 1), |c| (c.1.clone(), c.2, c.3));
                    age += 1;
                    if same_state(&c, bk) {
                        let mut st = bk.clone();
                        self.oblige(&mut st, &Lin::k(0), "loop", inst, body.blocks[head].sp, "an iteration leads back to the same state: the loop never ends");
                        backs.retain(|o| o.ghosts != h.ghosts);
                        continue;
                    }
                    if self.debug {
                        eprintln!("not same: {}", why_not(&c, bk));
                    }
                    if age == span {
                        c = bk.clone();
                        age = 0;
                        span *= 2;
                    }
                    next.push((h.ghosts.clone(), c, age, span));
                }
                chain = next;
            }
            exits.extend(ex);
            rets.extend(rt);
            if backs.is_empty() {
                if judged && self.quiet == 0 {
                    self.obl.entry(lkey).or_default().proven += 1;
                }
                return;
            }
            if nd {
                nd_count += 1;
            }
            iters += 1;
            cur = self.merge(backs, depth);
        }
    }
    fn widen(&mut self, inst: InstId, body: &'a Body, l: usize, entry: Vec<State>, rets: &mut Vec<State>, exits: &mut Out) {
        let head = body.cfg.loops[l].head;
        let depth = entry[0].frames.len();
        let p = self.p;
        self.widened += 1;
        struct Inv {
            st: State,
            entry: State,
            /// phi -> value at entry
            phis: HashMap<Sym, Lin>,
            rounds: u32,
            todo: bool,
            tried: Vec<Lin>,
            lost: bool,
        }
        let frames_inst: Vec<InstId> = entry[0].frames.iter().map(|f| f.inst).collect();
        let flagsf = |d: usize, l: usize| -> bool {
            let b = p.insts[frames_inst[d]].body.as_ref().unwrap();
            l < b.flags.len() && b.flags[l] && l != 0
        };
        let mut invs: Vec<Inv> = vec![];
        let mg = std::mem::replace(&mut self.cfg.merge, true);
        for s in self.merge(entry, depth) {
            invs.push(Inv { st: s.clone(), entry: s, phis: HashMap::new(), rounds: 0, todo: true, tried: vec![], lost: false });
        }
        self.quiet += 1;
        let mut total = 0;
        while let Some(k) = invs.iter().position(|i| i.todo) {
            total += 1;
            if self.aborted {
                break;
            }
            invs[k].todo = false;
            let mut backs = vec![];
            self.nd.push(NdL { depth, inst, lp: l, nd: false });
            let s0 = invs[k].st.clone();
            self.region(inst, body, Some(l), vec![(s0, head)], &mut backs, &mut vec![], &mut vec![]);
            self.nd.pop();
            let backs = self.merge(backs, depth);
            for b in backs {
                let mut t = invs.iter().position(|i| same_shape(&i.st, &b, &flagsf, &self.tt));
                if t.is_none() && (invs.len() > 24 || total > 60) {
                    t = invs.iter().position(|i| i.st.ghosts == b.ghosts);
                }
                match t {
                    None => invs.push(Inv { st: b.clone(), entry: b, phis: HashMap::new(), rounds: 0, todo: true, tried: vec![], lost: false }),
                    Some(t) => {
                        let iv = &mut invs[t];
                        let r = iv.rounds;
                        let hard = r > 12 || total > 120;
                        // join
                        let lpm: HashMap<Sym, ()> = iv.phis.keys().map(|k| (*k, ())).collect();
                        let (frames, gnum, newphis, newrefs, sigma) = {
                            let mut j = Join { a: &iv.st.num, b: &b.num, memo: HashMap::new(), phis: vec![], refs: vec![], loopphi: Some(&lpm), sigma: HashMap::new(), exactset: true, prop: r == 0, blur: false };
                            let fr = join_frames(&iv.st, &b, &mut j);
                            let gn = join_gnum(&iv.st, &b, &mut j);
                            (fr, gn, std::mem::take(&mut j.phis), std::mem::take(&mut j.refs), std::mem::take(&mut j.sigma))
                        };
                        let mut changed = !newphis.is_empty();
                        let mut num = iv.st.num.clone();
                        // constraints on old phis
                        let keep: Vec<Lin> = iv
                            .st
                            .num
                            .cons
                            .iter()
                            .filter(|c| {
                                if !c.t.iter().any(|x| iv.phis.contains_key(&x.0)) {
                                    return true;
                                }
                                if hard {
                                    return false;
                                }
                                let mut e = (*c).clone();
                                for x in c.t.iter() {
                                    if let Some(y) = sigma.get(&x.0) {
                                        e = e.subst(x.0, &Lin::k(0)).add(&y.mulk(c.coef(x.0)));
                                    }
                                }
                                b.num.prove(&e)
                            })
                            .cloned()
                            .collect();
                        if keep.len() != iv.st.num.cons.len() {
                            changed = true;
                            num.cons = Rc::new(keep);
                        }
                        // ranges of old phis
                        for (ph, y) in sigma.iter() {
                            let old = iv.st.num.info(*ph);
                            let nb = lin_info(&b.num, y);
                            let mut h = hull(&old, &nb);
                            h.lo = h.lo.max(-(1 << 100));
                            h.hi = h.hi.min(1 << 100);
                            if h == old {
                                continue;
                            }
                            if h.lo < old.lo && b.num.prove(&y.addk(-old.lo)) {
                                h.lo = old.lo;
                            }
                            if h.hi > old.hi && b.num.prove(&y.neg().addk(old.hi)) {
                                h.hi = old.hi;
                            }
                            if h.lo >= old.lo && h.hi <= old.hi && h.set == old.set {
                                continue;
                            }
                            changed = true;
                            if hard {
                                h = Info::new(-(1 << 100), 1 << 100);
                            } else if r >= 2 {
                                if h.lo < old.lo {
                                    h.lo = thresh_lo(h.lo);
                                }
                                if h.hi > old.hi {
                                    h.hi = thresh_hi(h.hi);
                                }
                                if h.lo < 0 || h.hi > 255 {
                                    h.set = None;
                                }
                                if h.lo < old.lo && b.num.prove(y) && old.lo >= 0 {
                                    h.lo = h.lo.max(0);
                                }
                            }
                            let m = Rc::make_mut(&mut num.refs);
                            m.insert(*ph, h);
                        }
                        // other facts of the invariant state that the back state contradicts cannot exist:
                        // symbols are immutable. Facts about terms over phis, though, must be re-established.
                        {
                            let stale: Vec<Sym> = num
                                .refs
                                .iter()
                                .filter(|(s, i)| !is_fresh(**s) && depends(**s, &iv.phis) && {
                                    let y = subst_term(**s, &sigma, &b.num);
                                    match y {
                                        Some(l) => {
                                            let (lo, hi) = b.num.range(&l);
                                            lo < i.lo || hi > i.hi
                                        }
                                        None => true,
                                    }
                                })
                                .map(|x| *x.0)
                                .collect();
                            if !stale.is_empty() {
                                changed = true;
                                let m = Rc::make_mut(&mut num.refs);
                                for s in stale {
                                    m.remove(&s);
                                }
                            }
                        }
                        for (s, h) in newrefs {
                            let m = Rc::make_mut(&mut num.refs);
                            m.insert(s, h);
                        }
                        if r == 0 {
                            phi_cons(&iv.st.num, &b.num, &newphis, &mut num);
                        }
                        for (s, x, _) in &newphis {
                            // value at entry, through earlier phis
                            let mut e = x.clone();
                            for (o, v) in iv.phis.iter() {
                                if e.has(*o) {
                                    e = e.subst(*o, v);
                                }
                            }
                            iv.phis.insert(*s, e);
                            set_weak(*s);
                        }
                        // candidate guards: constraints of the back state shifted by the step
                        if !hard && r <= 6 {
                            let mut step: HashMap<Sym, i128> = HashMap::new();
                            for (ph, y) in sigma.iter() {
                                if let Some(k) = y.sub(&Lin::s(*ph)).konst() {
                                    step.insert(*ph, k);
                                }
                            }
                            let mut cand = vec![];
                            for c in b.num.cons.iter() {
                                if !c.t.iter().any(|x| iv.phis.contains_key(&x.0)) {
                                    continue;
                                }
                                let mut e = c.clone();
                                for x in c.t.iter() {
                                    if let Some(k) = step.get(&x.0) {
                                        e = e.addk(-k * x.1);
                                    }
                                }
                                cand.push(e);
                            }
                            for c in cand {
                                if c.t.len() > 4 || iv.tried.contains(&c) || num.cons.contains(&c) {
                                    continue;
                                }
                                // holds at entry?
                                let mut e = c.clone();
                                for x in c.t.iter() {
                                    if let Some(v) = iv.phis.get(&x.0) {
                                        e = e.subst(x.0, v);
                                    }
                                }
                                if !e.t.iter().any(|x| iv.phis.contains_key(&x.0)) && iv.entry.num.prove(&e) {
                                    // must only mention symbols known before the loop
                                    if c.t.iter().all(|x| iv.phis.contains_key(&x.0) || known(&iv.entry, x.0)) {
                                        iv.tried.push(c.clone());
                                        Rc::make_mut(&mut num.cons).push(c);
                                        changed = true;
                                    }
                                }
                            }
                        }
                        if !changed && !frames_eq(&frames, &iv.st.frames) {
                            changed = true;
                            if hard {
                                iv.rounds += 1;
                                if iv.rounds > 30 {
                                    changed = false;
                                }
                            }
                        }
                        num.pc = iv.st.num.pc.clone();
                        if !crate::pc::extends(&b.num.pc, &num.pc) && !iv.lost {
                            // merged from another origin: which branches led here is no longer known
                            iv.lost = true;
                            num.pc = crate::pc::unknown();
                            changed = true;
                        }
                        if changed {
                            iv.rounds += 1;
                            iv.todo = true;
                            if iv.rounds > 40 {
                                if self.debug {
                                    eprintln!("no fixpoint: {} bb{} {}", p.insts[inst].path, head, p.spans[body.blocks[head].sp as usize]);
                                    eprintln!(" stack {:?}", self.stack.iter().map(|x| p.insts[x.0].path.clone()).collect::<Vec<_>>());
                                    eprintln!(" cons before {:?}\n after {:?}", iv.st.num.cons, num.cons);
                                    for (k, v) in num.refs.iter() {
                                        if iv.st.num.refs.get(k) != Some(v) {
                                            eprintln!(" ref {} {:?} -> {:?} {:?}", k, iv.st.num.refs.get(k), v, term(*k));
                                        }
                                    }
                                    for (k, v) in iv.st.num.refs.iter() {
                                        if !num.refs.contains_key(k) {
                                            eprintln!(" lost {} {:?} {:?}", k, v, term(*k));
                                        }
                                    }
                                    eprintln!(" phis {:?}", iv.phis);
                                    eprintln!(" sigma {:?}", sigma);
                                    eprintln!(" newphis {:?}", newphis);
                                    for (f, g) in frames.iter().zip(&iv.st.frames) {
                                        for (l, (x, y)) in f.locals.iter().zip(&g.locals).enumerate() {
                                            if !strict(x, y, &num) {
                                                eprintln!(" {} _{}: {:?}\n    -> {:?}", p.insts[f.inst].path, l, y, x);
                                            }
                                        }
                                    }
                                }
                                self.aborted = true;
                            }
                        }
                        iv.st = State { frames, num, ghosts: iv.st.ghosts.clone(), gnum, trail: common_trail(&iv.st, &b), sites: all_sites(&iv.st, &b) };
                    }
                }
            }
        }
        self.quiet -= 1;
        // final pass
        let mut steps: Vec<(State, State)> = vec![];
        for iv in invs {
            if self.aborted {
                break;
            }
            self.nd.push(NdL { depth, inst, lp: l, nd: false });
            let mut rt = vec![];
            let mut backs = vec![];
            let h = iv.st.clone();
            self.region(inst, body, Some(l), vec![(iv.st, head)], &mut backs, &mut rt, exits);
            rets.extend(rt);
            self.nd.pop();
            steps.extend(backs.into_iter().map(|b| (h.clone(), b)));
        }
        if self.quiet == 0 && !self.aborted && self.p.insts[inst].local && !self.p.insts[inst].path.starts_with("__verif") {
            let ok = ranked(&steps);
            if !ok && self.debug {
                eprintln!("unranked loop {} {} ({} steps)", p.insts[inst].path, p.spans[body.blocks[head].sp as usize], steps.len());
            }
            let e = self.obl.entry(("loop".to_string(), inst, body.blocks[head].sp)).or_default();
            if ok {
                e.proven += 1;
            } else {
                e.undecided += 1;
            }
        }
        self.cfg.merge = mg;
    }
    fn block(&mut self, inst: InstId, body: &'a Body, b: usize, mut st: State, rets: &mut Vec<State>, outs: &mut Out) {
        self.steps += 1;
        if self.debug && self.t0.elapsed().as_secs() >= self.tick {
            self.tick += 5;
            let f: Vec<String> = self.stack.iter().skip(1).map(|(i, b)| format!("{}@{}", p_short(&self.p.insts[*i].path), b)).collect();
            eprintln!("[{}s step {} nsym {} cons {}] {}", self.tick, self.steps, nsyms(), st.num.cons.len(), f.join(" "));
        }
        if self.steps > self.cfg.max_steps {
            if !self.aborted {
                eprintln!("step limit in root {}", self.root);
            }
            self.aborted = true;
            return;
        }
        if let Some(x) = self.stack.last_mut() {
            x.1 = b as u32;
        }
        let bl = &body.blocks[b];
        for s in &bl.st {
            match s {
                St::Assign(p, rv, sp) => {
                    if let Rv::Agg { k, t, .. } = rv {
                        if k == "adt" && self.p.insts[inst].local {
                            self.note_site(&mut st, *t, *sp);
                        }
                    }
                    let dty = if p.p.is_empty() { body.locals[p.l] } else { 0 };
                    let v = self.rvalue(&mut st, body, rv, dty);
                    let v = cap_val(&st.num, v);
                    if p.p.is_empty() {
                        self.set_local(&mut st, p.l, v);
                    } else {
                        let c = self.place(&mut st, body, p);
                        self.write(&mut st, &c, v);
                    }
                }
                St::SetDiscr(p, v) => {
                    let c = self.place(&mut st, body, p);
                    let cur = self.raw(&st, &c);
                    let m = match cur {
                        Val::Enum(_, m) => m,
                        _ => Rc::new(BTreeMap::new()),
                    };
                    self.write(&mut st, &c, Val::Enum(Lin::k(*v as i128), m));
                }
                St::Dead(l) => {
                    if !matches!(st.frames.last().unwrap().locals[*l], Val::Undef) {
                        self.set_local(&mut st, *l, Val::Undef);
                    }
                }
                St::Assume(o) => {
                    let v = self.operand(&mut st, body, o);
                    let l = self.int(&v, Some(BOOL));
                    if !st.num.assume(&l, true) {
                        return;
                    }
                }
                St::Nop => {}
            }
        }
        match &bl.tm {
            Tm::Goto(t) => outs.push((st, *t)),
            Tm::Ret => rets.push(st),
            Tm::Unreachable => {}
            Tm::Drop(p, _, t) => {
                if p.p.is_empty() {
                    self.set_local(&mut st, p.l, Val::Undef);
                }
                outs.push((st, *t))
            }
            Tm::Switch { o, ts, els } => {
                let v = self.operand(&mut st, body, o);
                let l = self.int(&v, None);
                let l = st.num.norm(&l);
                self.switch(inst, body, b, st, &l, ts, *els, outs);
            }
            Tm::Assert { o, exp, k, os, to } => {
                let v = self.operand(&mut st, body, o);
                let c = self.int(&v, Some(BOOL));
                let c = if *exp { c } else { st.num.bnot(&c) };
                let _ = os;
                let kind = if k == "bounds" { "bounds".to_string() } else { k.clone() };
                if self.oblige(&mut st, &c, &kind, inst, bl.sp, "") {
                    outs.push((st, *to));
                }
            }
            Tm::Call { f, a, at, d, to } => {
                let args: Vec<Val> = a.iter().map(|x| self.operand(&mut st, body, x)).collect();
                let rty = if d.p.is_empty() { body.locals[d.l] } else { self.place(&mut st, body, d).ty };
                let dl = if d.p.is_empty() { None } else { Some(self.place(&mut st, body, d)) };
                let fnval = if let CalleeK::Ptr(o) = &f.k { Some(self.operand(&mut st, body, &o.0)) } else { None };
                let rs = self.call(st, f, args, at, rty, bl.sp, fnval, to.is_none());
                if self.aborted {
                    return;
                }
                if let Some(x) = self.stack.last_mut() {
                    x.1 = b as u32;
                }
                if let Some(t) = to {
                    for (mut s, v) in rs {
                        let v = cap_val(&s.num, v);
                        match &dl {
                            None => self.set_local(&mut s, d.l, v),
                            Some(c) => self.write(&mut s, c, v),
                        }
                        outs.push((s, *t));
                    }
                }
            }
            Tm::Other => {}
        }
    }
    fn mark_nd(&mut self, inst: InstId, body: &Body, b: usize, depth: usize) {
        if let Some(x) = self.nd.last_mut() {
            if x.depth == depth && x.inst == inst && body.cfg.loops[x.lp].ctrl.contains(&b) {
                x.nd = true;
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn switch(&mut self, inst: InstId, body: &'a Body, b: usize, st: State, l: &Lin, ts: &[(i128, usize)], els: usize, outs: &mut Out) {
        let depth = st.frames.len();
        if let Some(k) = l.konst() {
            let t = ts.iter().find(|x| x.0 == k).map_or(els, |x| x.1);
            outs.push((st, t));
            return;
        }
        let mut res: Out = vec![];
        let mut rest = Some(st);
        let isbool = {
            let (lo, hi) = rest.as_ref().unwrap().num.range(l);
            lo >= 0 && hi <= 1
        };
        for (v, t) in ts {
            let Some(s) = rest.as_mut() else { break };
            // boolean fast path keeps the original condition
            let c = if isbool { if *v == 0 { s.num.bnot(l) } else { l.clone() } } else { s.num.eq0(&l.addk(-*v)) };
            match s.num.decide(&c) {
                Some(true) => {
                    res.push((rest.take().unwrap(), *t));
                }
                Some(false) => {}
                None => {
                    let mut y = s.clone();
                    if y.num.assume(&c, true) && !self.refuted(&y) {
                        res.push((y, *t));
                    }
                    if !s.num.assume(&c, false) {
                        rest = None;
                    }
                }
            }
        }
        if let Some(s) = rest {
            let dead = matches!(body.blocks[els].tm, Tm::Unreachable) && body.blocks[els].st.is_empty();
            if !dead && !self.refuted(&s) {
                res.push((s, els));
            }
        }
        if res.len() > 1 {
            self.mark_nd(inst, body, b, depth);
            let wk = is_weak(l);
            let local = self.p.insts[inst].local;
            for (k, (s, t)) in res.iter_mut().enumerate() {
                if !wk && local && s.trail.len() < 80 {
                    let _ = k;
                    let sp = &self.p.spans[body.blocks[b].sp as usize];
                    Rc::make_mut(&mut s.trail).push(format!("{} -> bb{}", sp, t));
                }
            }
        }
        outs.extend(res);
    }
    fn refuted(&self, _s: &State) -> bool {
        false
    }
    /// record an obligation; false if the state cannot continue
    pub fn oblige(&mut self, st: &mut State, c: &Lin, kind: &str, inst: InstId, sp: u32, detail: &str) -> bool {
        let c = st.num.norm(c);
        let d = st.num.decide(&c);
        let key = (kind.to_string(), inst, sp);
        if d == Some(true) {
            if self.quiet == 0 {
                self.obl.entry(key).or_default().proven += 1;
            }
            return true;
        }
        let mut bad = st.num.clone();
        let feasible = d == Some(false) || bad.assume(&c, false);
        if !feasible {
            if self.quiet == 0 {
                self.obl.entry(key).or_default().proven += 1;
            }
            return st.num.assume(&c, true);
        }
        if self.quiet == 0 {
            if kind.starts_with("check") && crate::pc::DBG.with(|d| d.get()) {
                eprintln!("{} {} {:?}", kind, self.p.spans[sp as usize], c);
            }
            let neg = if d == Some(false) { Lin::k(1) } else { st.num.bnot(&c) };
            let v = crate::pc::search(&bad, &mut |n, fs| find_witness(n, &neg, fs), BUDGET_.with(|b| *b));
            let e = self.obl.entry(key).or_default();
            match v {
                crate::pc::Verdict::Empty => e.proven += 1,
                crate::pc::Verdict::Unknown => {
                    e.undecided += 1;
                    if self.debug && kind == "raw" {
                        eprintln!("{} {} {}\n cons {:?}", kind, self.p.spans[sp as usize], format!("{:?}", c), st.num.cons.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>());
                    }
                }
                crate::pc::Verdict::Found(w) => {
                    e.violated += 1;
                    self.alarm(st, kind, inst, sp, &format!("{}{}", detail, w));
                }
            }
        }
        if d == Some(false) {
            return false;
        }
        st.num.assume(&c, true)
    }
    /// remembers where the crate built a Result (shown with alarms)
    fn note_site(&self, st: &mut State, t: TyId, sp: u32) {
        if let TyK::Adt { name, .. } = self.tt.k(t) {
            if name.ends_with("::Result") {
                let s = &self.p.spans[sp as usize];
                if s.starts_with("src/") && !s.starts_with("src/__verif") {
                    let v = Rc::make_mut(&mut st.sites);
                    v.retain(|x| *x != sp);
                    if v.len() >= 6 {
                        v.remove(0);
                    }
                    v.push(sp);
                }
            }
        }
    }
    pub fn alarm(&mut self, st: &State, kind: &str, inst: InstId, sp: u32, detail: &str) {
        let func = self.p.insts[inst].path.clone();
        let span = self.p.spans[sp as usize].clone();
        // the innermost crate function on the stack is the one to blame
        let mut func = func;
        let mut span = span;
        if !self.p.insts[inst].local {
            for (i, b) in self.stack.iter().rev() {
                if self.p.insts[*i].local {
                    func = self.p.insts[*i].path.clone();
                    let bl = &self.p.insts[*i].body.as_ref().unwrap().blocks[*b as usize];
                    span = self.p.spans[bl.sp as usize].clone();
                    break;
                }
            }
        }
        let key = format!("{}|{}|{}|{}", kind, func, span, if kind.starts_with("check:") { self.root.as_str() } else { "" });
        if self.alarms.contains_key(&key) {
            return;
        }
        let mut tr: Vec<String> = self.stack.iter().map(|(i, b)| format!("in {} at {}", self.p.insts[*i].path, self.p.spans[self.p.insts[*i].body.as_ref().unwrap().blocks[*b as usize].sp as usize])).collect();
        tr.extend(st.trail.iter().cloned());
        let sites: Vec<String> = st.sites.iter().map(|x| self.p.spans[*x as usize].clone()).collect();
        self.alarms.insert(key, Alarm { kind: kind.into(), func, span, detail: format!("{}{}", detail, cases(st)), trail: tr, sites, root: self.root.clone() });
    }
}

/// expressions beyond this size are replaced by their range
const MAX_EXPR: u32 = 96;
fn cap_val(n: &Num, v: Val) -> Val {
    match &v {
        Val::Int(l) if !l.t.is_empty() && lin_size(l) > MAX_EXPR => {
            let (lo, hi) = n.range(l);
            Val::Int(fresh_lin(lo, hi, true))
        }
        Val::Agg(a) if a.len() <= 2 && a.iter().any(|x| matches!(x, Val::Int(l) if !l.t.is_empty() && lin_size(l) > MAX_EXPR)) => agg(a.iter().map(|x| cap_val(n, x.clone())).collect()),
        _ => v,
    }
}
fn p_short(s: &str) -> &str {
    s.rsplit("::").next().unwrap_or(s)
}
fn same_state(a: &State, b: &State) -> bool {
    a.ghosts == b.ghosts
        && a.gnum == b.gnum
        && a.frames.len() == b.frames.len()
        && (Rc::ptr_eq(&a.num.refs, &b.num.refs) || a.num.refs == b.num.refs)
        && (Rc::ptr_eq(&a.num.cons, &b.num.cons) || a.num.cons == b.num.cons)
        && a.frames.iter().zip(&b.frames).all(|(f, g)| Rc::ptr_eq(f, g) || f.locals.len() == g.locals.len() && f.locals.iter().zip(&g.locals).all(|(x, y)| certain(x) && same_val(&a.num, &b.num, x, y)))
}
fn why_not(a: &State, b: &State) -> String {
    let mut v = vec![];
    if a.num.refs != b.num.refs {
        v.push("refs".to_string());
    }
    if a.num.cons != b.num.cons {
        v.push("cons".to_string());
    }
    for (k, (f, g)) in a.frames.iter().zip(&b.frames).enumerate() {
        for (l, (x, y)) in f.locals.iter().zip(&g.locals).enumerate() {
            if !Rc::ptr_eq(f, g) && !(certain(x) && same_val(&a.num, &b.num, x, y)) {
                v.push(format!("{}:_{} {:?} | {:?}", k, l, x, y).chars().take(if std::env::var("LONGDBG").is_ok() { 200000 } else { 300 }).collect());
            }
        }
    }
    v.join("; ")
}
/// no part of the value is unknown
fn certain(v: &Val) -> bool {
    match v {
        Val::Top => false,
        Val::Agg(a) => a.iter().all(certain),
        Val::Enum(_, p) => p.values().flatten().all(certain),
        Val::Seq(s) => match &s.d {
            SeqD::Exact(e) => e.iter().all(certain),
            SeqD::Summ(_) => false,
        },
        Val::Box(b, _) => certain(b),
        Val::Nat(_, a) => a.iter().all(certain),
        _ => true,
    }
}
/// integers of a state by place
fn places(st: &State) -> HashMap<Vec<u32>, Lin> {
    fn go(v: &Val, p: &mut Vec<u32>, m: &mut HashMap<Vec<u32>, Lin>, n: &mut u32) {
        if *n == 0 {
            return;
        }
        *n -= 1;
        let mut sub = |k: u32, x: &Val, p: &mut Vec<u32>, n: &mut u32| {
            p.push(k);
            go(x, p, m, n);
            p.pop();
        };
        match v {
            Val::Int(l) => {
                m.insert(p.clone(), l.clone());
            }
            Val::Agg(a) => a.iter().enumerate().for_each(|(k, x)| sub(k as u32, x, p, n)),
            Val::Enum(d, q) => {
                for (k, x) in q.iter() {
                    p.push(1000 + k);
                    for (i, y) in x.iter().enumerate() {
                        p.push(i as u32);
                        go(y, p, m, n);
                        p.pop();
                    }
                    p.pop();
                }
                p.push(999);
                m.insert(p.clone(), d.clone());
                p.pop();
            }
            Val::Ptr(q) => {
                if let Some((s, l)) = &q.view {
                    p.push(2000);
                    m.insert(p.clone(), s.clone());
                    p.pop();
                    p.push(2001);
                    m.insert(p.clone(), l.clone());
                    p.pop();
                }
            }
            Val::Seq(s) => {
                if let SeqD::Exact(e) = &s.d {
                    if e.len() <= 16 {
                        e.iter().enumerate().for_each(|(k, x)| sub(k as u32, x, p, n));
                    }
                }
                p.push(2002);
                m.insert(p.clone(), s.len.clone());
                p.pop();
            }
            Val::Box(b, _) => sub(3000, b, p, n),
            Val::Nat(_, a) => a.iter().enumerate().for_each(|(k, x)| sub(k as u32, x, p, n)),
            _ => {}
        }
    }
    let mut m = HashMap::new();
    for (f, fr) in st.frames.iter().enumerate() {
        let mut n = 4000;
        for (l, v) in fr.locals.iter().enumerate() {
            go(v, &mut vec![f as u32, l as u32], &mut m, &mut n);
        }
    }
    m
}
/// lexicographic ranking of the iterations of a loop by integers that only move towards a bound
fn ranked(steps: &[(State, State)]) -> bool {
    let pl: Vec<(HashMap<Vec<u32>, Lin>, HashMap<Vec<u32>, Lin>)> = steps.iter().map(|(h, b)| (places(h), places(b))).collect();
    let mut left: Vec<usize> = (0..steps.len()).collect();
    let mut used: Vec<(Vec<u32>, bool)> = vec![];
    while !left.is_empty() {
        let first = left[0];
        let mut hit = None;
        'c: for (place, _) in pl[first].0.iter() {
            for up in [true, false] {
                if used.contains(&(place.clone(), up)) {
                    continue;
                }
                let mut strict = vec![];
                let mut ok = true;
                for &i in &left {
                    let (h, b) = (&steps[i].0, &steps[i].1);
                    let (Some(x), Some(y)) = (pl[i].0.get(place), pl[i].1.get(place)) else {
                        ok = false;
                        break;
                    };
                    let d = if up { y.sub(x) } else { x.sub(y) };
                    let (lo, hi) = h.num.range(x);
                    if x == y || !b.num.prove(&d) {
                        if x != y {
                            ok = false;
                            break;
                        }
                        continue;
                    }
                    let bounded = if up { hi < 1 << 70 } else { lo > -(1 << 70) };
                    if bounded && b.num.prove(&d.addk(-1)) {
                        strict.push(i);
                    }
                }
                if ok && !strict.is_empty() {
                    hit = Some((place.clone(), up, strict));
                    break 'c;
                }
            }
        }
        match hit {
            Some((p, up, s)) => {
                used.push((p, up));
                left.retain(|i| !s.contains(i));
            }
            None => return false,
        }
    }
    true
}
pub fn same_val(n: &Num, m: &Num, x: &Val, y: &Val) -> bool {
    match (x, y) {
        (Val::Undef, _) | (_, Val::Undef) => true,
        (Val::Top, Val::Top) | (Val::Opaque, Val::Opaque) => true,
        (Val::Int(a), Val::Int(b)) => a == b || matches!((n.konst(a), m.konst(b)), (Some(p), Some(q)) if p == q),
        (Val::Float(a, b), Val::Float(c, d)) => a == c && b == d,
        (Val::Agg(a), Val::Agg(b)) => Rc::ptr_eq(a, b) || (a.len() == b.len() && a.iter().zip(b.iter()).all(|(p, q)| same_val(n, m, p, q))),
        (Val::Enum(a, p), Val::Enum(b, q)) => {
            if Rc::ptr_eq(p, q) && a == b {
                return true;
            }
            let (ka, kb) = (n.konst(a), m.konst(b));
            if !(a == b || (ka.is_some() && ka == kb)) {
                return false;
            }
            if let Some(k) = ka {
                return match (p.get(&(k as u32)), q.get(&(k as u32))) {
                    (Some(u), Some(v)) => u.len() == v.len() && u.iter().zip(v.iter()).all(|(s, t)| same_val(n, m, s, t)),
                    (None, None) => true,
                    _ => false,
                };
            }
            p.len() == q.len() && p.iter().all(|(k, u)| q.get(k).map_or(false, |v| u.len() == v.len() && u.iter().zip(v.iter()).all(|(s, t)| same_val(n, m, s, t))))
        }
        (Val::Ptr(a), Val::Ptr(b)) => {
            if Rc::ptr_eq(a, b) {
                return true;
            }
            let r = match (&a.root, &b.root) {
                (Root::Loc(f, l), Root::Loc(g, m)) => f == g && l == m,
                (Root::Cst(u), Root::Cst(v)) => Rc::ptr_eq(u, v),
                _ => false,
            };
            r && a.path == b.path && a.dynty == b.dynty && a.view == b.view
        }
        (Val::Seq(a), Val::Seq(b)) => {
            Rc::ptr_eq(a, b)
                || (a.len == b.len
                    && match (&a.d, &b.d) {
                        (SeqD::Exact(u), SeqD::Exact(v)) => u.len() == v.len() && u.iter().zip(v.iter()).all(|(p, q)| same_val(n, m, p, q)),
                        (SeqD::Summ(u), SeqD::Summ(v)) => same_val(n, m, u, v),
                        _ => false,
                    })
        }
        (Val::Box(a, e), Val::Box(b, f)) => e == f && (Rc::ptr_eq(a, b) || same_val(n, m, a, b)),
        (Val::Fn(a), Val::Fn(b)) => a == b,
        (Val::Nat(a, u), Val::Nat(b, v)) => a == b && u.len() == v.len() && u.iter().zip(v.iter()).all(|(p, q)| same_val(n, m, p, q)),
        _ => false,
    }
}
fn frames_eq(a: &[Rc<Frame>], b: &[Rc<Frame>]) -> bool {
    let n = Num::default();
    a.iter().zip(b.iter()).all(|(f, g)| Rc::ptr_eq(f, g) || f.locals.iter().zip(g.locals.iter()).all(|(x, y)| strict(x, y, &n)))
}
fn strict(x: &Val, y: &Val, n: &Num) -> bool {
    match (x, y) {
        (Val::Undef, Val::Undef) => true,
        (Val::Undef, _) | (_, Val::Undef) => false,
        (Val::Enum(a, p), Val::Enum(b, q)) => a == b && p.len() == q.len() && p.iter().all(|(k, u)| q.get(k).map_or(false, |v| u.len() == v.len() && u.iter().zip(v.iter()).all(|(s, t)| strict(s, t, n)))),
        (Val::Agg(a), Val::Agg(b)) => Rc::ptr_eq(a, b) || (a.len() == b.len() && a.iter().zip(b.iter()).all(|(p, q)| strict(p, q, n))),
        (Val::Seq(a), Val::Seq(b)) => {
            Rc::ptr_eq(a, b)
                || (a.len == b.len
                    && match (&a.d, &b.d) {
                        (SeqD::Exact(u), SeqD::Exact(v)) => u.len() == v.len() && u.iter().zip(v.iter()).all(|(p, q)| strict(p, q, n)),
                        (SeqD::Summ(u), SeqD::Summ(v)) => strict(u, v, n),
                        _ => false,
                    })
        }
        (Val::Box(a, e), Val::Box(b, f)) => e == f && (Rc::ptr_eq(a, b) || strict(a, b, n)),
        (Val::Int(a), Val::Int(b)) => a == b,
        _ => same_val(n, n, x, y),
    }
}
fn known(s: &State, y: Sym) -> bool {
    // symbols created before the loop: anything the entry state mentions; symbol ids grow with time
    (y as usize) < usize::MAX && {
        let mut mx = 0;
        for c in s.num.cons.iter() {
            for x in &c.t {
                mx = mx.max(x.0);
            }
        }
        for k in s.num.refs.keys() {
            mx = mx.max(*k);
        }
        for f in &s.frames {
            for v in &f.locals {
                maxsym(v, &mut mx);
            }
        }
        y <= mx
    }
}
fn maxsym(v: &Val, m: &mut Sym) {
    let mut lin = |l: &Lin| {
        for x in &l.t {
            *m = (*m).max(x.0);
        }
    };
    match v {
        Val::Int(l) => lin(l),
        Val::Agg(a) => a.iter().for_each(|x| maxsym(x, m)),
        Val::Enum(d, p) => {
            lin(d);
            p.values().flatten().for_each(|x| maxsym(x, m))
        }
        Val::Ptr(p) => {
            if let Some((a, b)) = &p.view {
                lin(a);
                lin(b);
            }
            for e in &p.path {
                if let Pe::I(l) = e {
                    lin(l)
                }
            }
        }
        Val::Seq(s) => {
            lin(&s.len);
            match &s.d {
                SeqD::Exact(e) => e.iter().for_each(|x| maxsym(x, m)),
                SeqD::Summ(e) => maxsym(e, m),
            }
        }
        Val::Box(b, _) => maxsym(b, m),
        Val::Nat(_, a) => a.iter().for_each(|x| maxsym(x, m)),
        _ => {}
    }
}
fn depends(s: Sym, phis: &HashMap<Sym, Lin>) -> bool {
    if phis.contains_key(&s) {
        return true;
    }
    let t = term(s);
    if matches!(t, Term::Fresh) {
        return false;
    }
    term_syms(&t).into_iter().any(|x| depends(x, phis))
}
/// the term with phis replaced by their next values
fn subst_term(s: Sym, sg: &HashMap<Sym, Lin>, n: &Num) -> Option<Lin> {
    if let Some(l) = sg.get(&s) {
        return Some(l.clone());
    }
    let sl = |l: &Lin| -> Option<Lin> {
        let mut r = Lin::k(l.c);
        for &(x, k) in &l.t {
            r = r.add(&subst_term(x, sg, n)?.mulk(k));
        }
        Some(r)
    };
    Some(match term(s) {
        Term::Fresh => Lin::s(s),
        Term::Ge0(a) => n.ge0(&sl(&a)?),
        Term::Eq0(a) => n.eq0(&sl(&a)?),
        Term::BAnd(a, b) => n.band(&sl(&a)?, &sl(&b)?),
        Term::BOr(a, b) => n.bor(&sl(&a)?, &sl(&b)?),
        Term::FDiv(a, k) => fdivl(n, &sl(&a)?, k),
        _ => return None,
    })
}
fn thresh_lo(v: i128) -> i128 {
    for t in [0, -1, -128, -256, -32768, -65536, -(1i128 << 31), -(1i128 << 33), -(1i128 << 63)] {
        if v >= t {
            return t;
        }
    }
    -(1 << 100)
}
fn thresh_hi(v: i128) -> i128 {
    for t in [0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 56, 63, 64, 65, 127, 128, 255, 256, 1023, 1024, 32767, 65535, 65536, (1i128 << 31) - 1, (1i128 << 32) - 1, 1i128 << 34, 1i128 << 40, (1i128 << 63) - 1, (1i128 << 64) - 1] {
        if v <= t {
            return t;
        }
    }
    1 << 100
}
pub fn fdivl(n: &Num, a: &Lin, k: i128) -> Lin {
    if k == 1 {
        return a.clone();
    }
    if let Some(c) = n.konst(a) {
        return Lin::k(c.div_euclid(k));
    }
    // exact multiples
    if a.c % k == 0 && a.t.iter().all(|x| x.1 % k == 0) {
        return Lin { c: a.c / k, t: a.t.iter().map(|x| (x.0, x.1 / k)).collect() };
    }
    // split off the multiple part
    let q = Lin { c: a.c.div_euclid(k), t: a.t.iter().filter(|x| x.1 % k == 0).map(|x| (x.0, x.1 / k)).collect() };
    let r = Lin { c: a.c.rem_euclid(k), t: a.t.iter().filter(|x| x.1 % k != 0).cloned().collect() };
    let (lo, hi) = n.range(&r);
    if lo >= 0 && hi < k {
        return q;
    }
    q.add(&Lin::s(mk(Term::FDiv(r, k))))
}
fn freml(n: &Num, a: &Lin, k: i128) -> Lin {
    if let Some(c) = n.konst(a) {
        return Lin::k(c.rem_euclid(k));
    }
    let r = Lin { c: a.c.rem_euclid(k), t: a.t.iter().filter(|x| x.1 % k != 0).cloned().collect() };
    let (lo, hi) = n.range(&r);
    if lo >= 0 && hi < k {
        return r;
    }
    Lin::s(mk(Term::FRem(r, k)))
}
/// unwrapped result of an integer operation
pub fn arith(n: &Num, op: &str, x: &Lin, y: &Lin, i: ITy) -> Lin {
    match op {
        "Add" => x.add(y),
        "Sub" => x.sub(y),
        "Mul" => match (x.konst(), y.konst()) {
            (Some(k), _) => y.mulk(k),
            (_, Some(k)) => x.mulk(k),
            _ => {
                let (a, b) = if x <= y { (x, y) } else { (y, x) };
                Lin::s(mk(Term::Mul(a.clone(), b.clone())))
            }
        },
        "Div" => match y.konst() {
            Some(k) if k > 0 && (!i.signed || n.range(x).0 >= 0) => fdivl(n, x, k),
            Some(k) if k != 0 && x.konst().is_some() => Lin::k(x.c / k),
            _ => Lin::s(mk(Term::Div(x.clone(), y.clone(), i))),
        },
        "Rem" => match y.konst() {
            Some(k) if k > 0 && (!i.signed || n.range(x).0 >= 0) => freml(n, x, k),
            Some(k) if k != 0 && x.konst().is_some() => Lin::k(x.c % k),
            _ => Lin::s(mk(Term::Rem(x.clone(), y.clone(), i))),
        },
        "BitAnd" => {
            let (x, y) = if x.konst().is_some() { (y, x) } else { (x, y) };
            if i.bits == 1 {
                return n.band(x, y);
            }
            match (x.konst(), y.konst()) {
                (Some(a), Some(b)) => Lin::k(i.wrap(a & b)),
                (None, Some(m)) if m >= 0 && (m + 1) & m == 0 && m < 1 << 100 => {
                    if n.range(x).0 >= 0 { freml(n, x, m + 1) } else { Lin::s(mk(Term::And(x.clone(), y.clone(), i))) }
                }
                (None, Some(0)) => Lin::k(0),
                _ => {
                    let (a, b) = if x <= y { (x, y) } else { (y, x) };
                    Lin::s(mk(Term::And(a.clone(), b.clone(), i)))
                }
            }
        }
        "BitOr" => {
            if i.bits == 1 {
                return n.bor(x, y);
            }
            match (x.konst(), y.konst()) {
                (Some(a), Some(b)) => Lin::k(i.wrap(a | b)),
                (Some(0), _) => y.clone(),
                (_, Some(0)) => x.clone(),
                _ => {
                    // disjoint bits: (multiple of 2^k) | (value below 2^k)
                    for (a, b) in [(x, y), (y, x)] {
                        let (lo, hi) = n.range(b);
                        if lo >= 0 && n.range(a).0 >= 0 {
                            let mut k: i128 = 1;
                            while k <= hi && k < 1 << 100 {
                                k *= 2;
                            }
                            if a.c % k == 0 && a.t.iter().all(|t| t.1 % k == 0) {
                                return a.add(b);
                            }
                        }
                    }
                    let (a, b) = if x <= y { (x, y) } else { (y, x) };
                    Lin::s(mk(Term::Or(a.clone(), b.clone(), i)))
                }
            }
        }
        "BitXor" => {
            if i.bits == 1 {
                let d = n.eq0(&x.sub(y));
                return n.bnot(&d);
            }
            match (x.konst(), y.konst()) {
                (Some(a), Some(b)) => Lin::k(i.wrap(a ^ b)),
                _ => {
                    let (a, b) = if x <= y { (x, y) } else { (y, x) };
                    Lin::s(mk(Term::Xor(a.clone(), b.clone(), i)))
                }
            }
        }
        "Shl" => shift(n, true, x, y, i),
        "Shr" => shift(n, false, x, y, i),
        _ => fresh_lin(i.lo(), i.hi(), true),
    }
}
pub fn shift(n: &Num, left: bool, x: &Lin, y: &Lin, i: ITy) -> Lin {
    if let Some(k) = n.konst(y) {
        let k = k.rem_euclid(i.bits as i128);
        if left {
            return n.wrap(&x.mulk(1i128 << k), i);
        }
        if n.range(x).0 >= 0 || x.konst().is_some() {
            return fdivl(n, x, 1i128 << k);
        }
        return Lin::s(mk(Term::FDiv(x.clone(), 1i128 << k)));
    }
    let t = if left { Term::Shl(x.clone(), y.clone(), i) } else { Term::Shr(x.clone(), y.clone(), i) };
    Lin::s(mk(t))
}
// ------------------------------------------------------------ floats
pub fn fx(l: Lin, d: i128) -> Val {
    if let Some(mut k) = l.konst() {
        let mut d = d;
        while d % 2 == 0 && k % 2 == 0 {
            d /= 2;
            k /= 2;
        }
        return Val::Nat("fx", Rc::new(vec![kint(k), kint(d)]));
    }
    Val::Nat("fx", Rc::new(vec![Val::Int(l), kint(d)]))
}
fn is_float(v: &Val) -> bool {
    matches!(v, Val::Float(..) | Val::Nat("fx", _))
}
pub fn frange(n: &Num, v: &Val) -> (f64, f64) {
    match v {
        Val::Float(a, b) => (*a, *b),
        Val::Nat("fx", p) => {
            if let (Val::Int(l), Val::Int(d)) = (&p[0], &p[1]) {
                let (a, b) = n.range(l);
                return (a as f64 / d.c as f64, b as f64 / d.c as f64);
            }
            (f64::NEG_INFINITY, f64::INFINITY)
        }
        _ => (f64::NEG_INFINITY, f64::INFINITY),
    }
}
fn fxp(v: &Val) -> Option<(Lin, i128)> {
    if let Val::Nat("fx", p) = v {
        if let (Val::Int(l), Val::Int(d)) = (&p[0], &p[1]) {
            return Some((l.clone(), d.c));
        }
    }
    None
}
/// arithmetic on two known f32 numbers: IEEE 754 rounding to nearest
fn f32op(op: &str, a: &Val, b: &Val) -> Option<Val> {
    let get = |v: &Val| -> Option<f64> {
        let (l, d) = fxp(v)?;
        let k = l.konst()?;
        let x = k as f64 / d as f64;
        ((d as u128).is_power_of_two() && d < 1 << 60 && k.abs() < 1 << 53 && (x as f32) as f64 == x).then_some(x)
    };
    let (x, y) = (get(a)?, get(b)?);
    // a single operation on f32 operands done in f64 and rounded again is the f32 operation
    let r = match op {
        "Add" => x + y,
        "Sub" => x - y,
        "Mul" => x * y,
        "Div" if y != 0.0 => x / y,
        _ => return None,
    } as f32;
    if r == 0.0 {
        return Some(fx(Lin::k(0), 1));
    }
    if !r.is_normal() || r.abs() > 1e15 || r.abs() < 1e-15 {
        return None;
    }
    // r = m * 2^e
    let b = r.to_bits();
    let e = (b >> 23 & 255) as i32 - 150;
    let m = ((b & 0x7F_FFFF) | 0x80_0000) as i128 * if r < 0.0 { -1 } else { 1 };
    Some(if e >= 0 { fx(Lin::k(m << e), 1) } else { fx(Lin::k(m), 1i128 << -e) })
}
pub fn fop(n: &Num, op: &str, a: &Val, b: &Val) -> Val {
    // exact in f32 arithmetic: the numerator over the common power of two fits 24 bits
    let small = |l: &Lin, d: i128| {
        if let Some(mut k) = l.konst() {
            let mut d = d;
            while d % 2 == 0 && k % 2 == 0 {
                d /= 2;
                k /= 2;
            }
            // a constant with a large power of two factor is exact too
            while k != 0 && k % 2 == 0 {
                k /= 2;
            }
            return k.abs() < 1 << 24;
        }
        let (x, y) = n.range(l);
        x > -(1 << 24) && y < 1 << 24
    };
    if let (Some((x, p)), Some((y, q))) = (fxp(a), fxp(b)) {
        let l = x.mulk(q);
        let r = y.mulk(p);
        match op {
            "Lt" => return Val::Int(n.ge0(&r.sub(&l).addk(-1))),
            "Le" => return Val::Int(n.ge0(&r.sub(&l))),
            "Gt" => return Val::Int(n.ge0(&l.sub(&r).addk(-1))),
            "Ge" => return Val::Int(n.ge0(&l.sub(&r))),
            "Eq" => return Val::Int(n.eq0(&l.sub(&r))),
            "Ne" => return Val::Int(n.bnot(&n.eq0(&l.sub(&r)))),
            "Add" | "Sub" => {
                let s = if op == "Add" { l.add(&r) } else { l.sub(&r) };
                if small(&s, p * q) {
                    return fx(s, p * q);
                }
            }
            "Mul" => {
                let s = if let Some(k) = x.konst() { Some(y.mulk(k)) } else { y.konst().map(|k| x.mulk(k)) };
                if let Some(s) = s {
                    if small(&s, p * q) {
                        return fx(s, p * q);
                    }
                }
            }
            "Div" => {
                if let Some(k) = y.konst() {
                    if k > 0 && (k & (k - 1)) == 0 && q == 1 {
                        return fx(x, p * k);
                    }
                }
            }
            _ => {}
        }
    }
    let ((a, b), (c, d)) = (frange(n, a), frange(n, b));
    let w = |x: f64, y: f64| {
        let e = |v: f64| v.abs() * 1e-6;
        if x.is_nan() || y.is_nan() { Val::Float(f64::NEG_INFINITY, f64::INFINITY) } else { Val::Float(x - e(x), y + e(y)) }
    };
    let four = |f: &dyn Fn(f64, f64) -> f64| {
        let v = [f(a, c), f(a, d), f(b, c), f(b, d)];
        if v.iter().any(|x| x.is_nan()) {
            return Val::Float(f64::NEG_INFINITY, f64::INFINITY);
        }
        w(v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
    };
    let tri = |t: bool, f: bool| Val::Int(if t { Lin::k(1) } else if f { Lin::k(0) } else { fresh_lin(0, 1, true) });
    match op {
        "Add" => w(a + c, b + d),
        "Sub" => w(a - d, b - c),
        "Mul" => four(&|x, y| x * y),
        "Div" => {
            if c > 0.0 || d < 0.0 { four(&|x, y| x / y) } else { Val::Float(f64::NEG_INFINITY, f64::INFINITY) }
        }
        "Lt" => tri(b < c, a >= d),
        "Le" => tri(b <= c, a > d),
        "Gt" => tri(a > d, b <= c),
        "Ge" => tri(a >= d, b < c),
        "Eq" | "Ne" => Val::Int(fresh_lin(0, 1, true)),
        _ => Val::Float(f64::NEG_INFINITY, f64::INFINITY),
    }
}

// ------------------------------------------------------------ witnesses
type Facts = Vec<(BTreeSet<Sym>, Option<Fact>, Option<(Sym, Info)>)>;
/// a concrete assignment of the input symbols that satisfies the facts connected with `c` and makes it true
pub fn find_witness(num: &Num, c: &Lin, path: &[Fact]) -> crate::pc::Leaf {
    use crate::pc::Leaf;
    let mut accept = true;
    if std::env::var("WIT").is_ok() {
        eprintln!("WITNESS for {:?}", c);
        for f in path { eprintln!("   {:?}", f); }
        for (s, i) in num.refs.iter() { eprintln!("   s{} in {}..{} {:?} {:?}", s, i.lo, i.hi, i.set, term(*s)); }
        for k in num.cons.iter() { eprintln!("   {:?} >= 0", k); }
    }
    if crate::pc::DBG.with(|d| d.get()) {
        eprintln!("  leaf facts:");
        for f in path {
            eprintln!("     {}", show_fact(f));
        }
        for (s, i) in num.refs.iter() {
            eprintln!("     s{} in {}..{} weak={}", s, i.lo, i.hi, is_weak_sym(*s));
        }
    }
    let n = num.clone();
    // connected facts
    let mut bases: BTreeSet<Sym> = BTreeSet::new();
    fn collect(s: Sym, out: &mut BTreeSet<Sym>) {
        let t = term(s);
        if matches!(t, Term::Fresh) {
            out.insert(s);
        } else {
            for x in term_syms(&t) {
                collect(x, out);
            }
        }
    }
    let bl = |l: &Lin| {
        let mut b = BTreeSet::new();
        for x in &l.t {
            collect(x.0, &mut b);
        }
        b
    };
    let mut facts: Facts = vec![];
    let mut defs: HashMap<Sym, Lin> = HashMap::new();
    for f in path {
        let mut b = bl(f.lin());
        if let Fact::Def(s, l) = f {
            // only matters when the joined value does
            b.insert(*s);
            defs.insert(*s, l.clone());
        } else if is_weak(f.lin()) {
            accept = false;
        }
        facts.push((b, Some(f.clone()), None));
    }
    for k in n.cons.iter() {
        facts.push((bl(k), Some(Fact::Ge(k.clone())), None));
    }
    for (s, i) in n.refs.iter() {
        if !is_fresh(*s) {
            facts.push((bl(&Lin::s(*s)), None, Some((*s, i.clone()))));
        }
    }
    bases.extend(bl(c));
    let mut used = vec![false; facts.len()];
    let mut comps: Vec<(Vec<Sym>, Facts)> = vec![];
    let mut first = true;
    loop {
        if !first {
            // an independent group of facts: it must be satisfiable too
            match (0..facts.len()).find(|k| !used[*k] && matches!(facts[*k].1, Some(Fact::B(..) | Fact::Eq(_) | Fact::Ne(_) | Fact::Ge(_)))) {
                Some(k) => bases = facts[k].0.clone(),
                None => break,
            }
        }
        let mut mine = vec![];
        loop {
            let mut ch = false;
            for (k, f) in facts.iter().enumerate() {
                if !used[k] && (f.0.iter().any(|x| bases.contains(x)) || (f.0.is_empty() && mine.is_empty() && !first)) {
                    used[k] = true;
                    ch = true;
                    mine.push(f.clone());
                    bases.extend(f.0.iter().cloned());
                }
            }
            if !ch {
                break;
            }
        }
        if bases.iter().any(|s| is_weak_sym(*s)) {
            accept = false;
        }
        first = false;
        // small domains first; a joined symbol comes after the value it stands for
        let mut order: Vec<Sym> = bases.iter().cloned().collect();
        order.sort_by_key(|s| (n.info(*s).hi - n.info(*s).lo, *s));
        let mut placed: BTreeSet<Sym> = BTreeSet::new();
        let mut out = vec![];
        while !order.is_empty() {
            let k = order.iter().position(|s| defs.get(s).map_or(true, |l| bl(l).iter().all(|x| placed.contains(x) || !bases.contains(x)))).unwrap_or(0);
            let s = order.remove(k);
            placed.insert(s);
            out.push(s);
        }
        comps.push((out, mine));
    }
    /// Some(true): assignment found; Some(false): none exists; None: gave up
    fn go(n: &Num, order: &[Sym], k: usize, env: &mut HashMap<Sym, i128>, budget: &mut i32, facts: &Facts, defs: &HashMap<Sym, Lin>, c: &Lin) -> Option<bool> {
        *budget -= 1;
        if *budget < 0 {
            return None;
        }
        if k == order.len() {
            let ev = |l: &Lin| ev_lin(l, env);
            match ev(c) {
                None => return None,
                Some(0) => return Some(false),
                _ => {}
            }
            for (_, a, b) in facts {
                if let Some(a) = a {
                    let Some(v) = ev(a.lin()) else { return None };
                    let ok = match a {
                        Fact::Ge(_) => v >= 0,
                        Fact::Eq(_) => v == 0,
                        Fact::Ne(_) => v != 0,
                        Fact::B(_, t) => (v != 0) == *t,
                        Fact::Def(s, _) => env.get(s) == Some(&v),
                    };
                    if !ok {
                        return Some(false);
                    }
                }
                if let Some((s, i)) = b {
                    match ev(&Lin::s(*s)) {
                        None => return None,
                        Some(v) if !i.contains(v) => return Some(false),
                        _ => {}
                    }
                }
            }
            return Some(true);
        }
        let s = order[k];
        let i = n.info(s);
        let mut full = true;
        let cand: Vec<i128>;
        if let Some(v) = defs.get(&s).and_then(|l| ev_lin(l, env)) {
            cand = vec![v];
        } else if i.hi - i.lo <= 255 && (i.lo..=i.hi).filter(|v| i.contains(*v)).count() <= 40 {
            cand = (i.lo..=i.hi).collect();
        } else {
            full = false;
            let mut w = vec![i.lo, i.hi, i.lo + (i.hi - i.lo) / 2, i.lo + 1, i.hi - 1, 0, 1, 8, 16, i.lo + 2, i.lo + 3];
            if i.set.is_some() {
                w.extend((i.lo..=i.hi).filter(|v| i.contains(*v)).take(40));
            }
            cand = w;
        }
        let mut seen = BTreeSet::new();
        for v in cand {
            if v < i.lo || v > i.hi || !i.contains(v) || !seen.insert(v) {
                continue;
            }
            let mut m = n.clone();
            if i.lo != i.hi {
                if !m.narrow(s, v, v, 3) {
                    continue;
                }
                // what the choice decides
                let mut dead = !m.assume(c, true);
                for f in facts {
                    if dead {
                        break;
                    }
                    if let Some(a) = &f.1 {
                        if f.0.contains(&s) {
                            dead = !m.apply(a) || !m.consistent(a);
                        }
                    }
                }
                if dead {
                    continue;
                }
            }
            env.insert(s, v);
            match go(&m, order, k + 1, env, budget, facts, defs, c) {
                Some(true) => return Some(true),
                Some(false) => {}
                None => full = false,
            }
            env.remove(&s);
            if *budget < 0 {
                return None;
            }
        }
        if full { Some(false) } else { None }
    }
    let mut out = String::new();
    for (k, (order, facts)) in comps.iter().enumerate() {
        let mut env = HashMap::new();
        let mut budget = if accept { 3000 } else { 300 };
        let goal = if k == 0 { c.clone() } else { Lin::k(1) };
        match go(&n, order, 0, &mut env, &mut budget, facts, &defs, &goal) {
            Some(true) => {}
            Some(false) => return Leaf::Refute,
            None => accept = false,
        }
        if k == 0 {
            let mut v: Vec<String> = order.iter().filter_map(|s| env.get(s).map(|x| format!("s{}={}", s, x))).collect();
            v.truncate(24);
            out = format!(" [{}]", v.join(" "));
        }
    }
    if accept { Leaf::Accept(out) } else { Leaf::Unknown }
}
fn ev_lin(l: &Lin, env: &HashMap<Sym, i128>) -> Option<i128> {
    let mut r = l.c;
    for &(s, k) in &l.t {
        r = r.checked_add(k.checked_mul(ev_sym(s, env)?)?)?;
    }
    Some(r)
}
fn ev_sym(s: Sym, env: &HashMap<Sym, i128>) -> Option<i128> {
    if let Some(v) = env.get(&s) {
        return Some(*v);
    }
    let e = |l: &Lin| ev_lin(l, env);
    Some(match &term(s) {
        Term::Fresh => return None,
        Term::FDiv(a, k) => e(a)?.div_euclid(*k),
        Term::FRem(a, k) => e(a)?.rem_euclid(*k),
        Term::Div(a, b, _) => e(a)?.checked_div(e(b)?)?,
        Term::Rem(a, b, _) => e(a)?.checked_rem(e(b)?)?,
        Term::Mul(a, b) => e(a)?.checked_mul(e(b)?)?,
        Term::And(a, b, i) => i.wrap(e(a)? & e(b)?),
        Term::Or(a, b, i) => i.wrap(e(a)? | e(b)?),
        Term::Xor(a, b, i) => i.wrap(e(a)? ^ e(b)?),
        Term::Shl(a, b, i) => {
            let n = e(b)?.rem_euclid(i.bits as i128);
            i.wrap(e(a)?.checked_mul(1i128.checked_shl(n as u32)?)?)
        }
        Term::Shr(a, b, i) => e(a)? >> e(b)?.rem_euclid(i.bits as i128),
        Term::Wrap(a, i) => i.wrap(e(a)?),
        Term::Ge0(a) => (e(a)? >= 0) as i128,
        Term::Eq0(a) => (e(a)? == 0) as i128,
        Term::BAnd(a, b) => e(a)? & e(b)?,
        Term::BOr(a, b) => e(a)? | e(b)?,
        Term::Sel(a, t) => *t.get(usize::try_from(e(a)?).ok()?)?,
    })
}
thread_local! {
    static BUDGET_: i32 = std::env::var("JPEGAI_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(4000);
}

pub fn show_lin(l: &Lin) -> String {
    let mut v: Vec<String> = l.t.iter().map(|(s, k)| if *k == 1 { show_sym(*s) } else { format!("{}*{}", k, show_sym(*s)) }).collect();
    if l.c != 0 || v.is_empty() {
        v.push(l.c.to_string());
    }
    v.join("+")
}
pub fn show_sym(s: Sym) -> String {
    if lin_size(&Lin::s(s)) > 20 {
        return format!("S{}{}", s, if is_weak_sym(s) { "w" } else { "" });
    }
    let t = term(s);
    if matches!(t, Term::Fresh) {
        return format!("s{}{}", s, if is_weak_sym(s) { "w" } else { "" });
    }
    let n = format!("{:?}", t);
    let n = n.split('(').next().unwrap_or("").to_string();
    format!("{}({})", n, operands(&t).iter().map(|l| show_lin(l)).collect::<Vec<_>>().join(", "))
}
pub fn show_fact(f: &Fact) -> String {
    match f {
        Fact::Ge(l) => format!("{} >= 0", show_lin(l)),
        Fact::Eq(l) => format!("{} == 0", show_lin(l)),
        Fact::Ne(l) => format!("{} != 0", show_lin(l)),
        Fact::B(l, t) => format!("{} is {}", show_lin(l), t),
        Fact::Def(s, l) => format!("s{} := {}", s, show_lin(l)),
    }
}
/// the enumerated choices of the root on this path
fn cases(st: &State) -> String {
    if st.ghosts.is_empty() {
        return String::new();
    }
    let v: Vec<String> = st.ghosts.iter().map(|(k, v)| format!("#{}={}", k, v)).collect();
    format!(" cases {}", v.join(" "))
}
