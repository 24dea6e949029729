//! Abstract values, states, joins.
use crate::dom::*;
use crate::ir::*;
use crate::num::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Pe {
    F(u32),
    V(u32),
    I(Lin),
    B,
}
#[derive(Clone, Debug)]
pub enum Root {
    Loc(u32, u32),
    Cst(Rc<Val>),
}
#[derive(Clone, Debug)]
pub struct PtrV {
    pub root: Root,
    pub path: Vec<Pe>,
    pub view: Option<(Lin, Lin)>,
    pub dynty: Option<TyId>,
    /// type of the place pointed to (element container for views)
    pub rty: TyId,
}
#[derive(Clone, Debug)]
pub enum SeqD {
    Exact(Vec<Val>),
    Summ(Val),
}
#[derive(Clone, Debug)]
pub struct SeqV {
    pub len: Lin,
    pub d: SeqD,
}
#[derive(Clone, Debug)]
pub enum Val {
    Undef,
    Top,
    Int(Lin),
    Float(f64, f64),
    Agg(Rc<Vec<Val>>),
    Enum(Lin, Rc<BTreeMap<u32, Vec<Val>>>),
    Ptr(Rc<PtrV>),
    Seq(Rc<SeqV>),
    Box(Rc<Val>, Option<TyId>),
    Fn(Rc<Vec<InstId>>),
    Nat(&'static str, Rc<Vec<Val>>),
    Opaque,
}
pub fn kint(k: i128) -> Val {
    Val::Int(Lin::k(k))
}
pub fn unit() -> Val {
    Val::Agg(Rc::new(vec![]))
}
pub fn agg(v: Vec<Val>) -> Val {
    Val::Agg(Rc::new(v))
}
pub fn variant(v: u32, p: Vec<Val>) -> Val {
    let mut m = BTreeMap::new();
    m.insert(v, p);
    Val::Enum(Lin::k(v as i128), Rc::new(m))
}
pub fn seq(v: Vec<Val>) -> Val {
    Val::Seq(Rc::new(SeqV { len: Lin::k(v.len() as i128), d: SeqD::Exact(v) }))
}
pub fn summ(len: Lin, e: Val) -> Val {
    Val::Seq(Rc::new(SeqV { len, d: SeqD::Summ(e) }))
}
pub fn none() -> Val {
    variant(0, vec![])
}
pub fn some(v: Val) -> Val {
    variant(1, vec![v])
}

#[derive(Clone)]
pub struct Frame {
    pub inst: InstId,
    pub locals: Vec<Val>,
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub num: Num,
    pub ghosts: Rc<BTreeMap<u32, i128>>,
    /// numeric ghosts (not part of the partition key)
    pub gnum: Rc<BTreeMap<u32, Lin>>,
    /// human-readable path choices for diagnosis
    pub trail: Rc<Vec<String>>,
    /// source sites (span ids) of the last Results built by the crate on the paths of this state (at most 8)
    pub sites: Rc<Vec<u32>>,
}

pub struct TyTab<'a>(pub &'a Prog);
impl<'a> TyTab<'a> {
    pub fn k(&self, t: TyId) -> &'a TyK {
        &self.0.tys[t].k
    }
    pub fn ity(&self, t: TyId) -> Option<ITy> {
        match self.k(t) {
            TyK::Bool => Some(BOOL),
            TyK::Char => Some(ITy { bits: 32, signed: false }),
            TyK::Int(b, s) => Some(ITy { bits: *b, signed: *s }),
            _ => None,
        }
    }
    pub fn adt(&self, t: TyId) -> Option<(&'a str, &'a [TyId], &'a [Variant], bool)> {
        match self.k(t) {
            TyK::Adt { name, args, vars, is_enum, .. } => Some((name, args, vars, *is_enum)),
            _ => None,
        }
    }
    pub fn is_zst(&self, t: TyId) -> bool {
        match self.k(t) {
            TyK::Tuple(e) => e.iter().all(|x| self.is_zst(*x)),
            TyK::Closure(u, _) => u.iter().all(|x| self.is_zst(*x)),
            TyK::FnDef(_) => true,
            TyK::Array(e, n) => *n == 0 || self.is_zst(*e),
            TyK::Adt { vars, is_enum, name, .. } => !*is_enum && vars.len() == 1 && vars[0].f.iter().all(|x| self.is_zst(*x)) && !name.ends_with("PhantomData") || name.ends_with("PhantomData"),
            _ => false,
        }
    }
    pub fn short(&self, t: TyId) -> &'a str {
        match self.k(t) {
            TyK::Adt { name, .. } => name.rsplit("::").next().unwrap_or(name),
            _ => "",
        }
    }
    pub fn is_boxlike(&self, t: TyId) -> bool {
        matches!(self.short(t), "Box" | "Arc" | "Rc" | "RefCell") && matches!(self.k(t), TyK::Adt { local: false, .. })
    }
    pub fn is_vec(&self, t: TyId) -> bool {
        matches!(self.short(t), "Vec") && matches!(self.k(t), TyK::Adt { local: false, .. })
    }
    /// element type of sequence-like types
    pub fn elem(&self, t: TyId) -> Option<TyId> {
        match self.k(t) {
            TyK::Array(e, _) | TyK::Slice(e) => Some(*e),
            TyK::Adt { args, .. } if self.is_vec(t) => args.first().cloned(),
            _ => None,
        }
    }
    pub fn field(&self, t: TyId, v: Option<u32>, f: u32) -> Option<TyId> {
        match self.k(t) {
            TyK::Tuple(e) => e.get(f as usize).cloned(),
            TyK::Closure(u, _) => u.get(f as usize).cloned(),
            TyK::Adt { vars, .. } => vars.get(v.unwrap_or(0) as usize).and_then(|v| v.f.get(f as usize)).cloned(),
            _ => None,
        }
    }
    pub fn pointee(&self, t: TyId) -> Option<TyId> {
        match self.k(t) {
            TyK::Ref(x, _) | TyK::RawPtr(x, _) => Some(*x),
            TyK::Adt { args, .. } if self.is_boxlike(t) => args.first().cloned(),
            _ => None,
        }
    }
    /// unknown value of a type, one level
    pub fn uninhabited(&self, t: TyId) -> bool {
        match self.k(t) {
            TyK::Never => true,
            TyK::Tuple(e) => e.iter().any(|x| self.uninhabited(*x)),
            TyK::Adt { vars, is_enum, name, .. } => name.ends_with("Infallible") || (!*is_enum && vars.len() == 1 && vars[0].f.len() <= 3 && vars[0].f.iter().any(|x| matches!(self.k(*x), TyK::Never))),
            _ => false,
        }
    }
    pub fn top(&self, t: TyId, weak: bool) -> Val {
        if let Some(i) = self.ity(t) {
            return Val::Int(fresh_lin(i.lo(), i.hi(), weak));
        }
        match self.k(t) {
            TyK::Float => Val::Float(f64::NEG_INFINITY, f64::INFINITY),
            TyK::Tuple(e) => agg(vec![Val::Top; e.len()]),
            TyK::Closure(u, _) => agg(vec![Val::Top; u.len()]),
            TyK::Array(_, n) => summ(Lin::k(*n as i128), Val::Top),
            TyK::Adt { .. } if self.is_vec(t) => summ(fresh_lin(0, 1 << 40, true), Val::Top),
            TyK::Adt { .. } if self.is_boxlike(t) => Val::Box(Rc::new(Val::Top), None),
            TyK::Adt { vars, is_enum, .. } => {
                if *is_enum && !vars.is_empty() {
                    let n = vars.len() as i128;
                    let live: Vec<usize> = (0..vars.len()).filter(|k| !vars[*k].f.iter().any(|x| self.uninhabited(*x))).collect();
                    if live.len() == 1 && n > 1 {
                        let f = &vars[live[0]].f;
                        return variant(live[0] as u32, vec![Val::Top; f.len()]);
                    }
                    Val::Enum(if n == 1 { Lin::k(0) } else { fresh_lin(0, n - 1, weak) }, Rc::new(BTreeMap::new()))
                } else if vars.len() == 1 {
                    agg(vec![Val::Top; vars[0].f.len()])
                } else {
                    Val::Top
                }
            }
            TyK::Ref(p, _) => match self.k(*p) {
                TyK::Slice(_) | TyK::Str => Val::Ptr(Rc::new(PtrV {
                    root: Root::Cst(Rc::new(summ(fresh_lin(0, 1 << 40, true), Val::Top))),
                    path: vec![],
                    view: Some((Lin::k(0), fresh_lin(0, 1 << 40, true))),
                    dynty: None,
                    rty: *p,
                })),
                _ => Val::Ptr(Rc::new(PtrV { root: Root::Cst(Rc::new(Val::Top)), path: vec![], view: None, dynty: None, rty: *p })),
            },
            _ => Val::Top,
        }
    }
    fn expand(&self, v: &Val, t: TyId) -> Val {
        match v {
            Val::Top | Val::Undef => self.top(t, true),
            _ => v.clone(),
        }
    }
    /// read along a path; returns value and its type
    pub fn get(&self, num: &Num, v: &Val, t: TyId, path: &[Pe]) -> (Val, TyId) {
        self.get_v(num, v, t, None, path)
    }
    fn get_v(&self, num: &Num, v: &Val, t: TyId, var: Option<u32>, path: &[Pe]) -> (Val, TyId) {
        let Some(p) = path.first() else { return (v.clone(), t) };
        let rest = &path[1..];
        match p {
            Pe::V(k) => self.get_v(num, v, t, Some(*k), rest),
            Pe::F(f) => {
                let ft = self.field(t, var, *f);
                let Some(ft) = ft else { return (Val::Top, t) };
                match v {
                    Val::Agg(a) if (*f as usize) < a.len() => self.get_v(num, &a[*f as usize], ft, None, rest),
                    Val::Enum(_, pay) => match var.and_then(|k| pay.get(&k)).and_then(|x| x.get(*f as usize)) {
                        Some(x) => self.get_v(num, x, ft, None, rest),
                        None => self.get_v(num, &Val::Top, ft, None, rest),
                    },
                    Val::Undef => self.get_v(num, &Val::Undef, ft, None, rest),
                    _ => self.get_v(num, &Val::Top, ft, None, rest),
                }
            }
            Pe::B => {
                let ft = self.pointee(t).unwrap_or(t);
                match v {
                    Val::Box(b, d) => self.get_v(num, b, d.unwrap_or(ft), None, rest),
                    _ => self.get_v(num, &Val::Top, ft, None, rest),
                }
            }
            Pe::I(l) => {
                let et = self.elem(t).unwrap_or(t);
                match v {
                    Val::Seq(s) => match &s.d {
                        SeqD::Exact(e) => {
                            if let Some(k) = num.konst(l) {
                                if k >= 0 && (k as usize) < e.len() {
                                    return self.get_v(num, &e[k as usize], et, None, rest);
                                }
                                return self.get_v(num, &Val::Top, et, None, rest);
                            }
                            let (lo, hi) = num.range(l);
                            let lo = lo.max(0) as usize;
                            let hi = hi.min(e.len() as i128 - 1);
                            if hi < lo as i128 {
                                return self.get_v(num, &Val::Top, et, None, rest);
                            }
                            // feasible indices only
                            let idxs: Vec<usize> = (lo..=hi as usize).filter(|&i| self.feas(num, l, i as i128)).collect();
                            let mut acc: Option<(Val, TyId)> = None;
                            let weak = is_weak(l);
                            let mut vs = vec![];
                            for i in idxs {
                                vs.push(self.get_v(num, &e[i], et, None, rest));
                            }
                            if vs.is_empty() {
                                return self.get_v(num, &Val::Top, et, None, rest);
                            }
                            // integers: one symbol for the whole set
                            if vs.iter().all(|x| matches!(x.0, Val::Int(_))) {
                                let ty = vs[0].1;
                                let ls: Vec<Lin> = vs.iter().map(|x| if let Val::Int(l) = &x.0 { l.clone() } else { unreachable!() }).collect();
                                if vs.len() > 1 && e.iter().all(|x| matches!(x, Val::Int(l) if l.t.is_empty())) {
                                    let t: Vec<i128> = e.iter().map(|x| if let Val::Int(l) = x { l.c } else { unreachable!() }).collect();
                                    if ls.iter().any(|l| *l != ls[0]) {
                                        return (Val::Int(Lin::s(mk(Term::Sel(l.clone(), Rc::new(t))))), ty);
                                    }
                                }
                                return (Val::Int(union(num, &ls, weak)), ty);
                            }
                            for x in vs {
                                acc = Some(match acc {
                                    None => x,
                                    Some((a, t)) => (self.blur(num, &a, &x.0), t),
                                });
                            }
                            acc.unwrap()
                        }
                        SeqD::Summ(e) => {
                            let inst = instantiate(num, e);
                            let inst = if matches!(inst, Val::Top) { self.top(et, true) } else { inst };
                            self.get_v(num, &inst, et, None, rest)
                        }
                    },
                    _ => self.get_v(num, &Val::Top, et, None, rest),
                }
            }
        }
    }
    fn feas(&self, num: &Num, l: &Lin, k: i128) -> bool {
        let d = l.addk(-k);
        if let Some(b) = lin_base(&d) {
            let i = num.info(b);
            if i.hi - i.lo <= 256 {
                return (i.lo..=i.hi).any(|v| i.contains(v) && eval_lin(&d, b, v).map_or(true, |x| x == 0));
            }
        }
        if l.t.len() == 1 && l.t[0].1 == 1 {
            let i = num.info(l.t[0].0);
            return i.contains(k - l.c);
        }
        true
    }
    /// value-level join inside one state
    pub fn blur(&self, num: &Num, a: &Val, b: &Val) -> Val {
        let mut j = Join { a: num, b: num, memo: HashMap::new(), phis: vec![], refs: vec![], loopphi: None, sigma: HashMap::new(), exactset: true, prop: false, blur: true };
        j.val(a, b)
    }
    /// write along a path
    pub fn set(&self, num: &Num, v: &mut Val, t: TyId, path: &[Pe], new: Val) {
        self.set_v(num, v, t, None, path, new)
    }
    fn set_v(&self, num: &Num, v: &mut Val, t: TyId, var: Option<u32>, path: &[Pe], new: Val) {
        let Some(p) = path.first() else {
            *v = new;
            return;
        };
        let rest = &path[1..];
        match p {
            Pe::V(k) => self.set_v(num, v, t, Some(*k), rest, new),
            Pe::F(f) => {
                let Some(ft) = self.field(t, var, *f) else { return };
                if matches!(v, Val::Top | Val::Undef) {
                    *v = if let Some(k) = var {
                        let n = if let TyK::Adt { vars, .. } = self.k(t) { vars.get(k as usize).map_or(0, |x| x.f.len()) } else { 0 };
                        match self.top(t, true) {
                            Val::Enum(d, _) => {
                                let mut m = BTreeMap::new();
                                m.insert(k, vec![Val::Top; n]);
                                Val::Enum(d, Rc::new(m))
                            }
                            x => x,
                        }
                    } else {
                        let undef = matches!(v, Val::Undef);
                        match self.top(t, true) {
                            Val::Agg(a) if undef => agg(vec![Val::Undef; a.len()]),
                            x => x,
                        }
                    };
                }
                match v {
                    Val::Agg(a) => {
                        let a = Rc::make_mut(a);
                        if (*f as usize) < a.len() {
                            self.set_v(num, &mut a[*f as usize], ft, None, rest, new)
                        }
                    }
                    Val::Enum(_, pay) => {
                        let k = var.unwrap_or(0);
                        let n = if let TyK::Adt { vars, .. } = self.k(t) { vars.get(k as usize).map_or(0, |x| x.f.len()) } else { 0 };
                        let pay = Rc::make_mut(pay);
                        let e = pay.entry(k).or_insert_with(|| vec![Val::Top; n]);
                        if (*f as usize) < e.len() {
                            self.set_v(num, &mut e[*f as usize], ft, None, rest, new)
                        }
                    }
                    _ => {}
                }
            }
            Pe::B => {
                let ft = self.pointee(t).unwrap_or(t);
                if let Val::Box(b, d) = v {
                    let ft = d.unwrap_or(ft);
                    self.set_v(num, Rc::make_mut(b), ft, None, rest, new)
                }
            }
            Pe::I(l) => {
                let et = self.elem(t).unwrap_or(t);
                if matches!(v, Val::Top | Val::Undef) {
                    *v = self.top(t, true);
                }
                if let Val::Seq(s) = v {
                    let s = Rc::make_mut(s);
                    let k = num.konst(l);
                    match &mut s.d {
                        SeqD::Exact(e) => {
                            if let Some(k) = k {
                                if k >= 0 && (k as usize) < e.len() {
                                    self.set_v(num, &mut e[k as usize], et, None, rest, new);
                                }
                                return;
                            }
                            let (lo, hi) = num.range(l);
                            let lo = lo.max(0) as usize;
                            let hi = hi.min(e.len() as i128 - 1);
                            if e.len() <= 80 {
                                let mut i = lo;
                                while (i as i128) <= hi {
                                    if self.feas(num, l, i as i128) {
                                        let mut x = e[i].clone();
                                        self.set_v(num, &mut x, et, None, rest, new.clone());
                                        e[i] = self.blur(num, &e[i], &x);
                                    }
                                    i += 1;
                                }
                            } else {
                                let mut acc = e[0].clone();
                                for x in e.iter().skip(1) {
                                    acc = self.blur(num, &acc, x);
                                }
                                let mut x = acc.clone();
                                self.set_v(num, &mut x, et, None, rest, new);
                                s.d = SeqD::Summ(self.blur(num, &acc, &x));
                            }
                        }
                        SeqD::Summ(e) => {
                            if num.konst(&s.len) == Some(1) {
                                self.set_v(num, e, et, None, rest, new);
                                return;
                            }
                            let mut x = e.clone();
                            if !rest.is_empty() && matches!(x, Val::Top) {
                                return;
                            }
                            self.set_v(num, &mut x, et, None, rest, new);
                            *e = self.blur(num, e, &x);
                        }
                    }
                }
            }
        }
    }
}

/// one symbol covering a set of expressions (within one state)
pub fn union(num: &Num, ls: &[Lin], weak: bool) -> Lin {
    if ls.iter().all(|l| *l == ls[0]) {
        return ls[0].clone();
    }
    let mut lo = i128::MAX;
    let mut hi = i128::MIN;
    let mut w = true;
    let _ = weak;
    let mut set = Some([0u64; 4]);
    let mut wide = false;
    for l in ls {
        let (a, b) = num.range(l);
        lo = lo.min(a);
        hi = hi.max(b);
        w |= is_weak(l);
        if a < 0 || b > 255 {
            set = None;
        }
        if a != b {
            wide = true;
        }
        if let Some(s) = &mut set {
            let inf = if l.as_sym().is_some() { Some(num.info(l.t[0].0)) } else { None };
            for x in a..=b {
                if inf.as_ref().map_or(true, |i| i.contains(x)) {
                    s[(x >> 6) as usize] |= 1 << (x & 63);
                }
            }
        }
    }
    if lo == hi {
        return Lin::k(lo);
    }
    if set.is_none() {
        // hull of distinct wide values is not exact
        let covers = ls.iter().any(|l| num.range(l) == (lo, hi));
        w |= !covers || !wide;
    }
    let mut i = Info::new(lo, hi);
    i.set = set.map(Rc::new);
    if let Some(s) = &i.set {
        if (lo..=hi).all(|v| s[(v >> 6) as usize] >> (v & 63) & 1 == 1) {
            i.set = None;
        }
    }
    Lin::s(fresh_info(i, w))
}

/// fresh copy of a summary element
pub fn instantiate(num: &Num, v: &Val) -> Val {
    match v {
        Val::Int(l) => {
            if l.t.is_empty() {
                return v.clone();
            }
            let inf = if l.as_sym().is_some() {
                num.info(l.t[0].0)
            } else {
                let (a, b) = num.range(l);
                Info::new(a, b)
            };
            if inf.lo == inf.hi {
                return kint(inf.lo);
            }
            Val::Int(Lin::s(fresh_info(inf, true)))
        }
        Val::Agg(a) => agg(a.iter().map(|x| instantiate(num, x)).collect()),
        Val::Enum(d, p) => {
            let d2 = match instantiate(num, &Val::Int(d.clone())) {
                Val::Int(l) => l,
                _ => d.clone(),
            };
            Val::Enum(d2, Rc::new(p.iter().map(|(k, v)| (*k, v.iter().map(|x| instantiate(num, x)).collect())).collect()))
        }
        Val::Seq(s) => match &s.d {
            SeqD::Exact(e) => seq(e.iter().map(|x| instantiate(num, x)).collect()),
            SeqD::Summ(e) => {
                let l = match instantiate(num, &Val::Int(s.len.clone())) {
                    Val::Int(l) => l,
                    _ => s.len.clone(),
                };
                summ(l, e.clone())
            }
        },
        Val::Box(b, d) => Val::Box(Rc::new(instantiate(num, b)), *d),
        _ => v.clone(),
    }
}

// ------------------------------------------------------------------ joins
pub struct Join<'a> {
    pub a: &'a Num,
    pub b: &'a Num,
    pub memo: HashMap<(Lin, Lin), Lin>,
    pub phis: Vec<(Sym, Lin, Lin)>,
    pub refs: Vec<(Sym, Info)>,
    /// symbols acting as loop phis (kept across widening rounds)
    pub loopphi: Option<&'a HashMap<Sym, ()>>,
    pub sigma: HashMap<Sym, Lin>,
    pub exactset: bool,
    pub prop: bool,
    /// the result forgets which side it came from
    pub blur: bool,
}
pub fn hull(a: &Info, b: &Info) -> Info {
    let mut i = Info::new(a.lo.min(b.lo), a.hi.max(b.hi));
    if i.lo >= 0 && i.hi <= 255 && (a.set.is_some() || b.set.is_some() || a.hi + 1 < b.lo || b.hi + 1 < a.lo) {
        let mut s = [0u64; 4];
        for v in i.lo..=i.hi {
            if a.contains(v) || b.contains(v) {
                s[(v >> 6) as usize] |= 1 << (v & 63);
            }
        }
        if !(i.lo..=i.hi).all(|v| s[(v >> 6) as usize] >> (v & 63) & 1 == 1) {
            i.set = Some(Rc::new(s));
        }
    }
    i
}
pub fn lin_info(n: &Num, l: &Lin) -> Info {
    if l.as_sym().is_some() {
        return n.info(l.t[0].0);
    }
    let (a, b) = n.range(l);
    Info::new(a, b)
}
impl<'a> Join<'a> {
    pub fn lin(&mut self, x: &Lin, y: &Lin) -> Lin {
        let yn = self.b.norm(y);
        let y = &yn;
        if let Some(lp) = self.loopphi {
            // x is on the invariant side
            if let Some(s) = x.as_sym() {
                if lp.contains_key(&s) {
                    match self.sigma.get(&s) {
                        None => {
                            self.sigma.insert(s, y.clone());
                            return x.clone();
                        }
                        Some(z) if z == y => return x.clone(),
                        _ => {}
                    }
                }
            }
            if x.t.iter().any(|t| lp.contains_key(&t.0)) {
                let mut z = Lin::k(x.c);
                for &(s, k) in &x.t {
                    let e = match self.sigma.get(&s) {
                        Some(e) => e.clone(),
                        None => Lin::s(s),
                    };
                    z = z.add(&e.mulk(k));
                }
                if z == *y {
                    return x.clone();
                }
            } else if x == y {
                return x.clone();
            }
        } else if x == y {
            return x.clone();
        }
        let xn = if self.loopphi.is_some() { x.clone() } else { self.a.norm(x) };
        let x = &xn;
        if x == y {
            return x.clone();
        }
        if let Some(l) = self.memo.get(&(x.clone(), y.clone())) {
            return l.clone();
        }
        // affine relation to an earlier phi
        for (p, pa, pb) in &self.phis {
            let da = x.sub(pa);
            let db = y.sub(pb);
            if da == db && da.t.len() <= 1 {
                let r = Lin::s(*p).add(&da);
                self.memo.insert((x.clone(), y.clone()), r.clone());
                return r;
            }
            if self.prop {
                let (k, kp) = (y.sub(x), pb.sub(pa));
                if let (Some(k), Some(kp)) = (k.konst(), kp.konst()) {
                    if kp != 0 && k % kp == 0 {
                        let r = x.add(&Lin::s(*p).sub(pa).mulk(k / kp));
                        self.memo.insert((x.clone(), y.clone()), r.clone());
                        return r;
                    }
                }
            }
        }
        let ia = lin_info(self.a, x);
        let ib = lin_info(self.b, y);
        let h = hull(&ia, &ib);
        if h.lo == h.hi {
            return Lin::k(h.lo);
        }
        // the path condition ties the new symbol to its value on either side
        let s = fresh(h.lo, h.hi, self.loopphi.is_some() || self.blur);
        if self.loopphi.is_some() || self.prop {
            G.with(|g| {
                let mut g = g.borrow_mut();
                g.init[s as usize] = Info::new(-(1 << 100), 1 << 100);
                if h.lo < 0 || h.hi > 255 {
                    g.base[s as usize] = None;
                }
            });
            self.refs.push((s, h));
        } else {
            G.with(|g| g.borrow_mut().init[s as usize] = h);
        }
        self.phis.push((s, x.clone(), y.clone()));
        self.memo.insert((x.clone(), y.clone()), Lin::s(s));
        Lin::s(s)
    }
    /// a value shared by both sides: loop symbols in it keep their value. false if one of them changed elsewhere
    fn note(&mut self, x: &Val) -> bool {
        let Some(lp) = self.loopphi else { return true };
        if lp.is_empty() {
            return true;
        }
        let mut seen = std::collections::HashSet::new();
        self.note_v(x, lp, &mut seen)
    }
    fn note_l(&mut self, l: &Lin, lp: &HashMap<Sym, ()>) -> bool {
        for x in &l.t {
            if lp.contains_key(&x.0) {
                let id = Lin::s(x.0);
                if self.sigma.entry(x.0).or_insert_with(|| id.clone()) != &id {
                    return false;
                }
            }
        }
        true
    }
    fn note_v(&mut self, v: &Val, lp: &HashMap<Sym, ()>, seen: &mut std::collections::HashSet<usize>) -> bool {
        match v {
            Val::Int(l) => self.note_l(l, lp),
            Val::Agg(a) => !seen.insert(Rc::as_ptr(a) as usize) || a.iter().all(|x| self.note_v(x, lp, seen)),
            Val::Enum(d, p) => self.note_l(d, lp) && (!seen.insert(Rc::as_ptr(p) as usize) || p.values().flatten().all(|x| self.note_v(x, lp, seen))),
            Val::Ptr(p) => {
                if let Some((a, b)) = &p.view {
                    if !self.note_l(a, lp) || !self.note_l(b, lp) {
                        return false;
                    }
                }
                p.path.iter().all(|e| if let Pe::I(l) = e { self.note_l(l, lp) } else { true })
            }
            Val::Seq(s) => {
                if !seen.insert(Rc::as_ptr(s) as usize) {
                    return true;
                }
                self.note_l(&s.len, lp)
                    && match &s.d {
                        SeqD::Exact(e) => e.iter().all(|x| self.note_v(x, lp, seen)),
                        SeqD::Summ(e) => self.note_v(e, lp, seen),
                    }
            }
            Val::Box(b, _) => !seen.insert(Rc::as_ptr(b) as *const u8 as usize) || self.note_v(b, lp, seen),
            Val::Nat(_, a) => !seen.insert(Rc::as_ptr(a) as usize) || a.iter().all(|x| self.note_v(x, lp, seen)),
            _ => true,
        }
    }
    pub fn vals(&mut self, a: &[Val], b: &[Val]) -> Vec<Val> {
        a.iter().zip(b.iter()).map(|(x, y)| self.val(x, y)).collect()
    }
    pub fn val(&mut self, x: &Val, y: &Val) -> Val {
        match (x, y) {
            (Val::Undef, _) => y.clone(),
            (_, Val::Undef) => x.clone(),
            (Val::Int(a), Val::Int(b)) => Val::Int(self.lin(a, b)),
            (Val::Float(a, b), Val::Float(c, d)) => Val::Float(a.min(*c), b.max(*d)),
            (Val::Agg(a), Val::Agg(b)) => {
                if a.len() != b.len() {
                    return Val::Top;
                }
                if Rc::ptr_eq(a, b) && self.note(x) {
                    return x.clone();
                }
                let r = self.vals(a, b);
                if r.iter().zip(a.iter()).all(|(p, q)| shared(p, q)) {
                    return x.clone();
                }
                agg(r)
            }
            (Val::Enum(d, p), Val::Enum(e, q)) => {
                if Rc::ptr_eq(p, q) && d == e && self.note(x) {
                    return x.clone();
                }
                let nd = self.lin(d, e);
                let ia = lin_info(self.a, d);
                let ib = lin_info(self.b, e);
                let mut m = BTreeMap::new();
                let keys: std::collections::BTreeSet<u32> = p.keys().chain(q.keys()).cloned().collect();
                for k in keys {
                    let fa = ia.contains(k as i128);
                    let fb = ib.contains(k as i128);
                    match (p.get(&k), q.get(&k)) {
                        (Some(u), Some(v)) => {
                            if fa && fb && u.len() == v.len() {
                                m.insert(k, self.vals(u, v));
                            } else if fa {
                                m.insert(k, u.clone());
                            } else if fb {
                                m.insert(k, v.clone());
                            }
                        }
                        (Some(u), None) if fa && !fb => {
                            m.insert(k, u.clone());
                        }
                        (None, Some(v)) if fb && !fa => {
                            m.insert(k, v.clone());
                        }
                        _ => {}
                    }
                }
                if nd == *d && m.len() == p.len() && m.iter().all(|(k, v)| p.get(k).map_or(false, |w| w.len() == v.len() && w.iter().zip(v.iter()).all(|(s, t)| shared(s, t)))) {
                    return x.clone();
                }
                Val::Enum(nd, Rc::new(m))
            }
            (Val::Ptr(a), Val::Ptr(b)) => {
                if Rc::ptr_eq(a, b) && self.note(x) {
                    return x.clone();
                }
                let same = match (&a.root, &b.root) {
                    (Root::Loc(f, l), Root::Loc(g, m)) => f == g && l == m,
                    (Root::Cst(u), Root::Cst(v)) => Rc::ptr_eq(u, v),
                    _ => false,
                };
                if !same || a.path.len() != b.path.len() || a.dynty != b.dynty || a.view.is_some() != b.view.is_some() {
                    // empty constant slices of different origin
                    return Val::Top;
                }
                let mut path = vec![];
                for (u, v) in a.path.iter().zip(b.path.iter()) {
                    path.push(match (u, v) {
                        (Pe::I(u), Pe::I(v)) => Pe::I(self.lin(u, v)),
                        (u, v) if u == v => u.clone(),
                        _ => return Val::Top,
                    });
                }
                let view = match (&a.view, &b.view) {
                    (Some((s, l)), Some((t, m))) => Some((self.lin(s, t), self.lin(l, m))),
                    _ => None,
                };
                Val::Ptr(Rc::new(PtrV { root: a.root.clone(), path, view, dynty: a.dynty, rty: a.rty }))
            }
            (Val::Seq(a), Val::Seq(b)) => {
                if Rc::ptr_eq(a, b) && self.note(x) {
                    return x.clone();
                }
                match (&a.d, &b.d) {
                    (SeqD::Exact(u), SeqD::Exact(v)) if u.len() == v.len() => {
                        let r = self.vals(u, v);
                        if r.iter().zip(u.iter()).all(|(p, q)| shared(p, q)) {
                            return x.clone();
                        }
                        seq(r)
                    }
                    _ => {
                        let len = self.lin(&a.len, &b.len);
                        let ea = self.fold(&a.d, true);
                        let eb = self.fold(&b.d, false);
                        let e = match (ea, eb) {
                            (None, None) => Val::Undef,
                            (Some(x), None) | (None, Some(x)) => self.fresh_template(x),
                            (Some(x), Some(y)) => self.template(&x, &y),
                        };
                        summ(len, e)
                    }
                }
            }
            (Val::Box(a, d), Val::Box(b, e)) => {
                if d != e {
                    return Val::Top;
                }
                if Rc::ptr_eq(a, b) && self.note(x) {
                    return x.clone();
                }
                let r = self.val(a, b);
                if shared(&r, a) {
                    return x.clone();
                }
                Val::Box(Rc::new(r), *d)
            }
            (Val::Fn(a), Val::Fn(b)) => {
                let mut v = a.as_ref().clone();
                for z in b.iter() {
                    if !v.contains(z) {
                        v.push(*z);
                    }
                }
                v.sort();
                Val::Fn(Rc::new(v))
            }
            (Val::Nat(n, a), Val::Nat(m, b)) => {
                if n != m || a.len() != b.len() {
                    return Val::Top;
                }
                Val::Nat(n, Rc::new(self.vals(a, b)))
            }
            (Val::Opaque, Val::Opaque) => Val::Opaque,
            _ => Val::Top,
        }
    }
    /// summary element of a sequence, in the numeric context of one side
    fn fold(&mut self, d: &SeqD, left: bool) -> Option<Val> {
        match d {
            SeqD::Summ(Val::Undef) => None,
            SeqD::Summ(e) => Some(e.clone()),
            SeqD::Exact(v) => {
                let n = if left { self.a } else { self.b };
                let mut it = v.iter();
                let mut acc = it.next()?.clone();
                for x in it {
                    acc = tmpl(n, n, &acc, x);
                }
                Some(acc)
            }
        }
    }
    fn fresh_template(&mut self, v: Val) -> Val {
        v
    }
    fn template(&mut self, x: &Val, y: &Val) -> Val {
        tmpl(self.a, self.b, x, y)
    }
}
/// cheap identity test
fn shared(x: &Val, y: &Val) -> bool {
    match (x, y) {
        (Val::Undef, Val::Undef) | (Val::Top, Val::Top) | (Val::Opaque, Val::Opaque) => true,
        (Val::Int(a), Val::Int(b)) => a == b,
        (Val::Float(a, b), Val::Float(c, d)) => a == c && b == d,
        (Val::Agg(a), Val::Agg(b)) => Rc::ptr_eq(a, b),
        (Val::Enum(a, p), Val::Enum(b, q)) => a == b && Rc::ptr_eq(p, q),
        (Val::Ptr(a), Val::Ptr(b)) => Rc::ptr_eq(a, b),
        (Val::Seq(a), Val::Seq(b)) => Rc::ptr_eq(a, b),
        (Val::Box(a, d), Val::Box(b, e)) => d == e && Rc::ptr_eq(a, b),
        (Val::Fn(a), Val::Fn(b)) => a == b,
        (Val::Nat(n, a), Val::Nat(m, b)) => n == m && Rc::ptr_eq(a, b),
        _ => false,
    }
}
/// join of summary elements: ranges only, no relations
pub fn tmpl(a: &Num, b: &Num, x: &Val, y: &Val) -> Val {
    match (x, y) {
        (Val::Int(l), Val::Int(m)) => {
            if l == m && l.t.is_empty() {
                return x.clone();
            }
            let (ia, ib) = (lin_info(a, l), lin_info(b, m));
            let h = hull(&ia, &ib);
            if h.lo == h.hi {
                return kint(h.lo);
            }
            // keep an existing template symbol when it already covers
            if let Some(s) = l.as_sym() {
                let i = G.with(|g| g.borrow().init[s as usize].clone());
                if i == h && (!is_weak(m) || is_weak(l)) {
                    return x.clone();
                }
            }
            let _ = (&ia, &ib);
            Val::Int(Lin::s(fresh_info(h, true)))
        }
        (Val::Agg(u), Val::Agg(v)) if u.len() == v.len() => agg(u.iter().zip(v.iter()).map(|(p, q)| tmpl(a, b, p, q)).collect()),
        _ => {
            let mut j = Join { a, b, memo: HashMap::new(), phis: vec![], refs: vec![], loopphi: None, sigma: HashMap::new(), exactset: true, prop: false, blur: true };
            j.val(x, y)
        }
    }
}

/// may two states be merged without losing a distinction worth keeping
pub fn same_shape(a: &State, b: &State, flags: &dyn Fn(usize, usize) -> bool, tt: &TyTab) -> bool {
    if a.ghosts != b.ghosts || a.frames.len() != b.frames.len() {
        return false;
    }
    for (d, (f, g)) in a.frames.iter().zip(b.frames.iter()).enumerate().rev() {
        if Rc::ptr_eq(f, g) {
            continue;
        }
        for (l, (x, y)) in f.locals.iter().zip(g.locals.iter()).enumerate() {
            if flags(d, l) {
                continue;
            }
            if !shape(&a.num, &b.num, x, y, 0, tt) {
                return false;
            }
        }
    }
    true
}
fn shape(n: &Num, m: &Num, x: &Val, y: &Val, d: u32, tt: &TyTab) -> bool {
    if d > 7 {
        return true;
    }
    match (x, y) {
        (Val::Int(a), Val::Int(b)) => {
            if a.t.is_empty() && b.t.is_empty() && a.c != b.c && a.c >= 0 && a.c <= 1 && b.c >= 0 && b.c <= 1 && d == 0 {
                // constant 0/1 in a local: mostly booleans
                return false;
            }
            true
        }
        (Val::Agg(a), Val::Agg(b)) => Rc::ptr_eq(a, b) || a.len() != b.len() || a.iter().zip(b.iter()).all(|(p, q)| shape(n, m, p, q, d + 1, tt)),
        (Val::Enum(a, p), Val::Enum(b, q)) => {
            if let (Some(i), Some(j)) = (n.konst(a), m.konst(b)) {
                if i != j {
                    return i > 5 || j > 5;
                }
                if let (Some(u), Some(v)) = (p.get(&(i as u32)), q.get(&(i as u32))) {
                    return u.iter().zip(v.iter()).all(|(s, t)| shape(n, m, s, t, d + 1, tt));
                }
            }
            true
        }
        (Val::Ptr(a), Val::Ptr(b)) => {
            let r = match (&a.root, &b.root) {
                (Root::Loc(f, l), Root::Loc(g, m)) => f == g && l == m,
                (Root::Cst(u), Root::Cst(v)) => Rc::ptr_eq(u, v),
                _ => false,
            };
            r && a.path.len() == b.path.len()
                && a.dynty == b.dynty
                && a.path.iter().zip(b.path.iter()).all(|(u, v)| match (u, v) {
                    (Pe::I(_), Pe::I(_)) => true,
                    (u, v) => u == v,
                })
        }
        (Val::Seq(a), Val::Seq(b)) => {
            if Rc::ptr_eq(a, b) {
                return true;
            }
            match (&a.d, &b.d) {
                (SeqD::Exact(u), SeqD::Exact(v)) => u.len() == v.len() && (u.len() > 64 || u.iter().zip(v.iter()).all(|(p, q)| shape(n, m, p, q, d + 1, tt))),
                (SeqD::Summ(_), SeqD::Summ(_)) => true,
                _ => false,
            }
        }
        (Val::Box(a, e), Val::Box(b, f)) => e == f && (Rc::ptr_eq(a, b) || shape(n, m, a, b, d + 1, tt)),
        (Val::Nat(k, a), Val::Nat(l, b)) => k == l && a.len() == b.len() && a.iter().zip(b.iter()).all(|(p, q)| shape(n, m, p, q, d + 1, tt)),
        _ => true,
    }
}

/// join of two states of the same program point (phis get exact hulls)
pub fn join_states(a: &State, b: &State) -> State {
    let mut j = Join { a: &a.num, b: &b.num, memo: HashMap::new(), phis: vec![], refs: vec![], loopphi: None, sigma: HashMap::new(), exactset: true, prop: false, blur: false };
    let frames = join_frames(a, b, &mut j);
    let gnum = join_gnum(a, b, &mut j);
    let phis = std::mem::take(&mut j.phis);
    let mut num = join_num(&a.num, &b.num);
    let (mut pa, mut pb) = (a.num.pc.clone(), b.num.pc.clone());
    for (s, x, y) in &phis {
        pa = crate::pc::and(&pa, crate::pc::Fact::Def(*s, x.clone()));
        pb = crate::pc::and(&pb, crate::pc::Fact::Def(*s, y.clone()));
    }
    num.pc = crate::pc::or(&pa, &pb);
    phi_cons(&a.num, &b.num, &phis, &mut num);
    State {
        frames,
        num,
        ghosts: a.ghosts.clone(),
        gnum,
        trail: common_trail(a, b),
        sites: all_sites(a, b),
    }
}
pub fn all_sites(a: &State, b: &State) -> Rc<Vec<u32>> {
    if Rc::ptr_eq(&a.sites, &b.sites) || a.sites == b.sites {
        return a.sites.clone();
    }
    let mut v: Vec<u32> = a.sites.iter().cloned().collect();
    for x in b.sites.iter() {
        if !v.contains(x) {
            v.push(*x);
        }
    }
    let n = v.len();
    if n > 8 {
        v.drain(..n - 8);
    }
    Rc::new(v)
}
pub fn common_trail(a: &State, b: &State) -> Rc<Vec<String>> {
    if Rc::ptr_eq(&a.trail, &b.trail) {
        return a.trail.clone();
    }
    Rc::new(a.trail.iter().zip(b.trail.iter()).take_while(|(x, y)| x == y).map(|x| x.0.clone()).collect())
}
pub fn join_gnum(a: &State, b: &State, j: &mut Join) -> Rc<BTreeMap<u32, Lin>> {
    let mut m = BTreeMap::new();
    for (k, v) in a.gnum.iter() {
        if let Some(w) = b.gnum.get(k) {
            m.insert(*k, j.lin(v, w));
        }
    }
    Rc::new(m)
}
pub fn join_frames(a: &State, b: &State, j: &mut Join) -> Vec<Rc<Frame>> {
    a.frames
        .iter()
        .zip(b.frames.iter())
        .map(|(f, g)| if Rc::ptr_eq(f, g) && j.loopphi.is_none() { f.clone() } else { Rc::new(Frame { inst: f.inst, locals: j.vals(&f.locals, &g.locals) }) })
        .collect()
}
pub fn join_num(a: &Num, b: &Num) -> Num {
    if Rc::ptr_eq(&a.refs, &b.refs) && Rc::ptr_eq(&a.cons, &b.cons) {
        return a.clone();
    }
    let refs = if Rc::ptr_eq(&a.refs, &b.refs) {
        a.refs.clone()
    } else {
        let mut m = BTreeMap::new();
        for (s, ra) in a.refs.iter() {
            // only facts known on both sides survive; b may derive it
            if let Some(ib) = b.refs.get(s) {
                if ib == ra {
                    m.insert(*s, ra.clone());
                    continue;
                }
            }
            let ib = match b.refs.get(s) {
                Some(_) => b.info(*s),
                None if is_fresh(*s) => continue,
                None => {
                    let t = b.info(*s);
                    t
                }
            };
            let ia = a.info(*s);
            m.insert(*s, hull(&ia, &ib));
        }
        for (s, _) in b.refs.iter() {
            if !m.contains_key(s) && !a.refs.contains_key(s) && !is_fresh(*s) {
                let h = hull(&a.info(*s), &b.info(*s));
                m.insert(*s, h);
            }
        }
        Rc::new(m)
    };
    let cons = if Rc::ptr_eq(&a.cons, &b.cons) {
        a.cons.clone()
    } else {
        let mut v: Vec<Lin> = vec![];
        for c in a.cons.iter() {
            if b.cons.contains(c) || b.prove(c) {
                v.push(c.clone());
            }
        }
        for c in b.cons.iter() {
            if !v.contains(c) && a.prove(c) {
                v.push(c.clone());
            }
        }
        Rc::new(v)
    };
    Num { refs, cons, pc: a.pc.clone(), gc: a.gc.max(b.gc) }
}
/// relate phis to one another and to unchanged symbols by constraints valid on both sides
pub fn phi_cons(a: &Num, b: &Num, phis: &[(Sym, Lin, Lin)], out: &mut Num) {
    if phis.len() > 12 {
        return;
    }
    let mut add = vec![];
    for (p, x, y) in phis {
        // candidates from either side's constraints mentioning x or y exactly as a symbol
        for (n, me, oth, o) in [(a, x, y, b), (b, y, x, a)] {
            if let Some(s) = me.as_sym() {
                for c in n.cons.iter() {
                    if c.has(s) && c.t.len() <= 3 {
                        let there = c.subst(s, oth);
                        if o.prove(&there) {
                            add.push(c.subst(s, &Lin::s(*p)));
                        }
                    }
                }
            }
        }
        // upper bounds by a common symbol
        for (n, me, oth, o) in [(a, x, y, b), (b, y, x, a)] {
            let _ = n;
            for &(s, k) in me.t.iter() {
                if k == 1 && me.t.len() == 1 && me.c <= 0 {
                    let ub = Lin::s(s);
                    if o.prove(&ub.sub(oth)) {
                        add.push(ub.sub(&Lin::s(*p)));
                    }
                }
            }
        }
    }
    if !add.is_empty() {
        let v = Rc::make_mut(&mut out.cons);
        for c in add {
            if !v.contains(&c) {
                v.push(c);
            }
        }
    }
}

fn lin_live(l: &Lin, out: &mut std::collections::HashSet<Sym>) {
    for x in &l.t {
        if out.insert(x.0) && !is_fresh(x.0) {
            for l in operands(&term(x.0)) {
                lin_live(l, out);
            }
        }
    }
}
fn val_live(v: &Val, out: &mut std::collections::HashSet<Sym>, seen: &mut std::collections::HashSet<usize>) {
    match v {
        Val::Int(l) => lin_live(l, out),
        Val::Agg(a) => {
            if seen.insert(Rc::as_ptr(a) as usize) {
                a.iter().for_each(|x| val_live(x, out, seen))
            }
        }
        Val::Enum(d, p) => {
            lin_live(d, out);
            if seen.insert(Rc::as_ptr(p) as usize) {
                p.values().flatten().for_each(|x| val_live(x, out, seen))
            }
        }
        Val::Ptr(p) => {
            if seen.insert(Rc::as_ptr(p) as usize) {
                if let Some((a, b)) = &p.view {
                    lin_live(a, out);
                    lin_live(b, out);
                }
                for e in &p.path {
                    if let Pe::I(l) = e {
                        lin_live(l, out)
                    }
                }
                if let Root::Cst(c) = &p.root {
                    val_live(c, out, seen)
                }
            }
        }
        Val::Seq(s) => {
            if seen.insert(Rc::as_ptr(s) as usize) {
                lin_live(&s.len, out);
                match &s.d {
                    SeqD::Exact(e) => e.iter().for_each(|x| val_live(x, out, seen)),
                    SeqD::Summ(e) => val_live(e, out, seen),
                }
            }
        }
        Val::Box(b, _) => {
            if seen.insert(Rc::as_ptr(b) as *const u8 as usize) {
                val_live(b, out, seen)
            }
        }
        Val::Nat(_, a) => {
            if seen.insert(Rc::as_ptr(a) as usize) {
                a.iter().for_each(|x| val_live(x, out, seen))
            }
        }
        _ => {}
    }
}
/// forget facts about symbols no value mentions any more (the path condition keeps the decisions themselves)
pub fn collect(st: &mut State) {
    let n = st.num.refs.len() + st.num.cons.len();
    if n <= 96 || n <= st.num.gc as usize {
        return;
    }
    let mut live = std::collections::HashSet::new();
    let mut seen = std::collections::HashSet::new();
    for f in &st.frames {
        for v in &f.locals {
            val_live(v, &mut live, &mut seen);
        }
    }
    for l in st.gnum.values() {
        lin_live(l, &mut live);
    }
    fn ok(s: Sym, live: &std::collections::HashSet<Sym>) -> bool {
        live.contains(&s) || (!is_fresh(s) && operands(&term(s)).iter().all(|l| l.t.iter().all(|x| ok(x.0, live))))
    }
    let dead: Vec<Sym> = st.num.refs.keys().filter(|s| !ok(**s, &live)).cloned().collect();
    if !dead.is_empty() {
        // symbols tied to a live one by a constraint stay
        let mut keep = std::collections::HashSet::new();
        for c in st.num.cons.iter() {
            if c.t.iter().any(|x| ok(x.0, &live)) {
                keep.extend(c.t.iter().map(|x| x.0));
            }
        }
        let m = Rc::make_mut(&mut st.num.refs);
        for s in dead {
            if !keep.contains(&s) {
                m.remove(&s);
            }
        }
    }
    if st.num.cons.iter().any(|c| !c.t.iter().any(|x| ok(x.0, &live))) {
        let v: Vec<Lin> = st.num.cons.iter().filter(|c| c.t.iter().any(|x| ok(x.0, &live))).cloned().collect();
        st.num.cons = Rc::new(v);
    }
    st.num.gc = 2 * (st.num.refs.len() + st.num.cons.len()) as u32;
}
