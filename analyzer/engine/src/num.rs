//! Per-state numeric facts: refinements of symbols, linear constraints, entailment.
use crate::dom::*;
use crate::pc::Fact;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Num {
    pub refs: Rc<BTreeMap<Sym, Info>>,
    pub cons: Rc<Vec<Lin>>,
    /// branch outcomes this state stands for
    pub pc: crate::pc::Pc,
    /// collect dead facts when there are more than this many
    pub gc: u32,
}

type DomKey = (i128, i128, [u64; 4]);
thread_local! {
    static RCACHE: RefCell<HashMap<(Lin, DomKey), Option<(i128,i128)>>> = RefCell::new(HashMap::new());
    pub static PROVE_STEPS: RefCell<u64> = RefCell::new(0);
}
fn fdiv(a: i128, b: i128) -> i128 {
    a.div_euclid(b)
}
fn cdiv(a: i128, b: i128) -> i128 {
    -((-a).div_euclid(b))
}
const INF: i128 = i128::MAX / 4;
fn clampi(v: i128) -> i128 {
    v.max(-INF).min(INF)
}
fn smul(a: i128, b: i128) -> i128 {
    a.checked_mul(b).map(clampi).unwrap_or(if (a < 0) != (b < 0) { -INF } else { INF })
}

impl Num {
    pub fn info(&self, s: Sym) -> Info {
        self.info_d(s, 0)
    }
    fn info_d(&self, s: Sym, d: u32) -> Info {
        if let Some(i) = self.refs.get(&s) {
            if i.lo == i.hi || is_fresh(s) {
                return i.clone();
            }
            if d > 6 {
                return i.clone();
            }
            let (lo, hi) = self.op_range(s, d + 1);
            return Info::new(lo.max(i.lo), hi.min(i.hi));
        }
        if is_fresh(s) || d > 6 {
            return G.with(|g| g.borrow().init[s as usize].clone());
        }
        let (lo, hi) = self.op_range(s, d + 1);
        Info::new(lo, hi)
    }
    fn dom_key(&self, b: Sym) -> Option<(Info, DomKey)> {
        let i = self.info_d(b, 7);
        if i.hi - i.lo > 256 {
            return None;
        }
        let k = (i.lo, i.hi, i.set.as_ref().map_or([!0u64; 4], |s| **s));
        Some((i, k))
    }
    fn enum_range(&self, l: &Lin) -> Option<(i128, i128)> {
        let b = lin_base(l)?;
        let (i, k) = self.dom_key(b)?;
        let key = (l.clone(), k);
        if let Some(r) = RCACHE.with(|c| c.borrow().get(&key).cloned()) {
            return r;
        }
        let mut r: Option<(i128, i128)> = None;
        let mut ok = true;
        for v in i.lo..=i.hi {
            if !i.contains(v) {
                continue;
            }
            match eval_lin(l, b, v) {
                Some(x) => {
                    r = Some(match r {
                        None => (x, x),
                        Some((a, c)) => (a.min(x), c.max(x)),
                    })
                }
                None => {
                    ok = false;
                    break;
                }
            }
        }
        let r = if ok { r } else { None };
        RCACHE.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() > 200_000 {
                c.clear();
            }
            c.insert(key, r);
        });
        r
    }
    fn op_range(&self, s: Sym, d: u32) -> (i128, i128) {
        if let Some(b) = base_of(s) {
            if b != s {
                if let Some(r) = self.enum_range(&Lin::s(s)) {
                    return r;
                }
            }
        }
        let rg = |l: &Lin| self.range_d(l, d);
        let t = term(s);
        let full = |i: ITy| (i.lo(), i.hi());
        match &t {
            Term::Fresh => {
                let i = G.with(|g| g.borrow().init[s as usize].clone());
                (i.lo, i.hi)
            }
            Term::FDiv(a, k) => {
                let (l, h) = rg(a);
                (fdiv(l, *k), fdiv(h, *k))
            }
            Term::FRem(a, k) => {
                let (l, h) = rg(a);
                if l >= 0 && h < *k { (l, h) } else { (0, k - 1) }
            }
            Term::Div(a, b, i) => {
                let (al, ah) = rg(a);
                let (bl, bh) = rg(b);
                if bl > 0 && al >= 0 {
                    (al / bh, ah / bl)
                } else if bl > 0 {
                    (al.min(al / bh).min(0), ah.max(0))
                } else {
                    full(*i)
                }
            }
            Term::Rem(a, b, i) => {
                let (al, ah) = rg(a);
                let (bl, bh) = rg(b);
                if bl > 0 && al >= 0 {
                    (0, ah.min(bh - 1))
                } else if bl > 0 {
                    (-(bh - 1), bh - 1)
                } else {
                    full(*i)
                }
            }
            Term::Mul(a, b) => {
                let (al, ah) = rg(a);
                let (bl, bh) = rg(b);
                let c = [smul(al, bl), smul(al, bh), smul(ah, bl), smul(ah, bh)];
                (*c.iter().min().unwrap(), *c.iter().max().unwrap())
            }
            Term::And(a, b, i) => {
                let (al, ah) = rg(a);
                let (bl, bh) = rg(b);
                if al >= 0 && bl >= 0 {
                    (0, ah.min(bh))
                } else if al >= 0 {
                    (0, ah)
                } else if bl >= 0 {
                    (0, bh)
                } else {
                    full(*i)
                }
            }
            Term::Or(a, b, i) | Term::Xor(a, b, i) => {
                let (al, ah) = rg(a);
                let (bl, bh) = rg(b);
                if al >= 0 && bl >= 0 {
                    let m = ah.max(bh).max(0) as u128;
                    let p = if m == 0 { 0 } else { (1u128 << (128 - m.leading_zeros()).min(126)) - 1 };
                    let lo = if matches!(t, Term::Or(..)) { al.max(bl) } else { 0 };
                    (lo, (p as i128).min(i.hi()))
                } else {
                    full(*i)
                }
            }
            Term::Shl(a, b, i) => {
                let (al, ah) = rg(a);
                let (bl, bh) = rg(b);
                if bl >= 0 && bh < i.bits as i128 {
                    let lo = if al >= 0 { smul(al, 1 << bl) } else { smul(al, 1 << bh) };
                    let hi = if ah >= 0 { smul(ah, 1 << bh) } else { smul(ah, 1 << bl) };
                    if lo >= i.lo() && hi <= i.hi() {
                        return (lo, hi);
                    }
                }
                full(*i)
            }
            Term::Shr(a, b, i) => {
                let (al, ah) = rg(a);
                let (bl, bh) = rg(b);
                if bl >= 0 && bh < i.bits as i128 {
                    let lo = if al >= 0 { al >> bh.min(120) } else { al >> bl.min(120) };
                    let hi = if ah >= 0 { ah >> bl.min(120) } else { ah >> bh.min(120) };
                    (lo, hi)
                } else if al >= 0 {
                    (0, ah)
                } else {
                    full(*i)
                }
            }
            Term::Wrap(a, i) => {
                let (al, ah) = rg(a);
                if al >= i.lo() && ah <= i.hi() { (al, ah) } else { full(*i) }
            }
            Term::Ge0(a) => {
                let (l, h) = rg(a);
                if l >= 0 { (1, 1) } else if h < 0 { (0, 0) } else { (0, 1) }
            }
            Term::Eq0(a) => {
                let (l, h) = rg(a);
                if l == 0 && h == 0 { (1, 1) } else if l > 0 || h < 0 { (0, 0) } else { (0, 1) }
            }
            Term::BAnd(a, b) => {
                let (al, ah) = rg(a);
                let (bl, bh) = rg(b);
                (al & bl, ah & bh)
            }
            Term::BOr(a, b) => {
                let (al, ah) = rg(a);
                let (bl, bh) = rg(b);
                (al | bl, ah | bh)
            }
            Term::Sel(a, t) => {
                let (al, ah) = rg(a);
                let lo = al.max(0) as usize;
                let hi = ah.min(t.len() as i128 - 1);
                if hi < lo as i128 {
                    return (t.iter().min().copied().unwrap_or(0), t.iter().max().copied().unwrap_or(0));
                }
                let v = &t[lo..=hi as usize];
                (*v.iter().min().unwrap(), *v.iter().max().unwrap())
            }
        }
    }
    pub fn range(&self, l: &Lin) -> (i128, i128) {
        self.range_d(l, 0)
    }
    fn range_d(&self, l: &Lin, d: u32) -> (i128, i128) {
        if l.t.is_empty() {
            return (l.c, l.c);
        }
        if l.t.len() > 1 {
            if let Some(r) = self.enum_range(l) {
                return r;
            }
        }
        let (mut lo, mut hi) = (l.c, l.c);
        for &(s, k) in &l.t {
            let i = self.info_d(s, d);
            if k > 0 {
                lo = clampi(lo + smul(k, i.lo));
                hi = clampi(hi + smul(k, i.hi));
            } else {
                lo = clampi(lo + smul(k, i.hi));
                hi = clampi(hi + smul(k, i.lo));
            }
        }
        if l.t.len() > 1 {
            // constraints over proportional terms
            for c in self.cons.iter() {
                if c.t.len() != l.t.len() || c.t[0].0 != l.t[0].0 {
                    continue;
                }
                let (p, q) = (l.t[0].1, c.t[0].1);
                // l.t = p/q * c.t
                if !c.t.iter().zip(&l.t).all(|(x, y)| x.0 == y.0 && x.1.checked_mul(p).is_some() && x.1.checked_mul(p) == y.1.checked_mul(q)) {
                    continue;
                }
                let (p, q) = if q < 0 { (-p, -q) } else { (p, q) };
                let Some(m) = c.c.checked_mul(p) else { continue };
                if p > 0 {
                    lo = lo.max(l.c - fdiv(m, q));
                } else {
                    hi = hi.min(l.c - -fdiv(-m, q));
                }
            }
            if lo > hi {
                hi = lo;
            }
        }
        (lo, hi)
    }
    pub fn konst(&self, l: &Lin) -> Option<i128> {
        if l.t.is_empty() {
            return Some(l.c);
        }
        let (a, b) = self.range(l);
        if a == b { Some(a) } else { None }
    }
    /// replace constant symbols
    pub fn norm(&self, l: &Lin) -> Lin {
        if l.t.is_empty() {
            return l.clone();
        }
        let mut r = Lin::k(l.c);
        let mut changed = false;
        for &(s, k) in &l.t {
            let i = self.info(s);
            if i.lo == i.hi {
                r.c += k * i.lo;
                changed = true;
            } else {
                r.t.push((s, k));
            }
        }
        if changed { r } else { l.clone() }
    }
    fn implied(&self, s: Sym, out: &mut Vec<Lin>) {
        match term(s) {
            Term::FDiv(x, k) => {
                // 0 <= x - k q <= k-1
                let q = Lin::s(s).mulk(k);
                out.push(x.sub(&q));
                out.push(q.addk(k - 1).sub(&x));
            }
            Term::FRem(x, _) => {
                if self.range(&x).0 >= 0 {
                    out.push(x.sub(&Lin::s(s)));
                }
            }
            Term::Div(a, b, _) => {
                if self.range(&a).0 >= 0 && self.range(&b).0 > 0 {
                    out.push(a.sub(&Lin::s(s)));
                    // q * blo <= a
                    let bl = self.range(&b).0;
                    out.push(a.sub(&Lin::s(s).mulk(bl)));
                }
            }
            Term::Rem(a, b, _) => {
                if self.range(&a).0 >= 0 && self.range(&b).0 > 0 {
                    out.push(a.sub(&Lin::s(s)));
                    out.push(b.addk(-1).sub(&Lin::s(s)));
                }
            }
            Term::And(a, b, _) => {
                if self.range(&a).0 >= 0 {
                    out.push(a.sub(&Lin::s(s)));
                }
                if self.range(&b).0 >= 0 {
                    out.push(b.sub(&Lin::s(s)));
                }
            }
            Term::Or(a, b, _) => {
                if self.range(&a).0 >= 0 && self.range(&b).0 >= 0 {
                    out.push(a.add(&b).sub(&Lin::s(s)));
                    out.push(Lin::s(s).sub(&a));
                    out.push(Lin::s(s).sub(&b));
                }
            }
            Term::Shr(a, _, _) => {
                if self.range(&a).0 >= 0 {
                    out.push(a.sub(&Lin::s(s)));
                }
            }
            Term::Mul(a, b) => {
                let (al, ah) = self.range(&a);
                let (bl, bh) = self.range(&b);
                // McCormick-like bounds with constant factors
                if bl >= 0 && bl < INF {
                    if al >= 0 {
                        out.push(Lin::s(s).sub(&a.mulk(bl)));
                    }
                    if bh < (1 << 40) && al >= 0 {
                        out.push(a.mulk(bh).sub(&Lin::s(s)));
                    }
                }
                if al >= 0 && al < INF && bl >= 0 {
                    out.push(Lin::s(s).sub(&b.mulk(al.min(1 << 40))));
                    if ah < (1 << 40) {
                        out.push(b.mulk(ah).sub(&Lin::s(s)));
                    }
                }
            }
            Term::Wrap(x, i) => {
                let (l, h) = self.range(&x);
                if l >= i.lo() && h <= i.hi() {
                    out.push(x.sub(&Lin::s(s)));
                    out.push(Lin::s(s).sub(&x));
                }
            }
            _ => {}
        }
    }
    /// does the state entail l >= 0 ?
    pub fn prove(&self, l: &Lin) -> bool {
        if self.range(l).0 >= 0 {
            return true;
        }
        if l.t.is_empty() {
            return false;
        }
        let mut cs: Vec<Lin> = self.cons.as_ref().clone();
        let mut seen: Vec<Sym> = vec![];
        let mut stack: Vec<Sym> = l.t.iter().map(|x| x.0).collect();
        for c in self.cons.iter() {
            for x in &c.t {
                stack.push(x.0);
            }
        }
        while let Some(s) = stack.pop() {
            if seen.contains(&s) || is_fresh(s) {
                continue;
            }
            if seen.len() > 40 {
                break;
            }
            seen.push(s);
            let n = cs.len();
            self.implied(s, &mut cs);
            for c in &cs[n..] {
                for x in &c.t {
                    stack.push(x.0);
                }
            }
        }
        let mut budget = 400;
        self.prove_d(l, &cs, 4, &mut budget)
    }
    fn prove_d(&self, l: &Lin, cs: &[Lin], depth: u32, budget: &mut i32) -> bool {
        if self.range(l).0 >= 0 {
            return true;
        }
        if depth == 0 || *budget <= 0 {
            return false;
        }
        let hi = self.range(l).1;
        if hi < 0 {
            // could still be contradictory state; give up
            return false;
        }
        for &(s, k) in &l.t {
            for c in cs {
                let kc = c.coef(s);
                if kc == 0 || (kc > 0) != (k > 0) {
                    continue;
                }
                *budget -= 1;
                if *budget <= 0 {
                    return false;
                }
                // kc*l - k*c with positive multipliers |kc|, |k|
                let g = gcd(kc.abs(), k.abs());
                let Some(e) = l.comb(kc.abs() / g, c, -(k.abs() / g)) else { continue };
                if e.t.len() > 6 {
                    continue;
                }
                if self.prove_d(&e, cs, depth - 1, budget) {
                    return true;
                }
            }
        }
        false
    }
    /// decide a boolean-valued expression
    pub fn decide(&self, b: &Lin) -> Option<bool> {
        if let Some(k) = self.konst(b) {
            return Some(k != 0);
        }
        if b.t.len() == 1 && b.t[0].1.abs() == 1 {
            let s = b.t[0].0;
            let pos = if b.t[0].1 == 1 { b.c == 0 } else { false };
            let neg = b.t[0].1 == -1 && b.c == 1;
            if pos || neg {
                return self.decide_sym(s).map(|v| v == pos);
            }
        }
        None
    }
    fn decide_sym(&self, s: Sym) -> Option<bool> {
        let i = self.info(s);
        if i.lo == i.hi {
            return Some(i.lo != 0);
        }
        match term(s) {
            Term::Ge0(l) => {
                if self.prove(&l) {
                    Some(true)
                } else if self.prove(&l.neg().addk(-1)) {
                    Some(false)
                } else {
                    None
                }
            }
            Term::Eq0(l) => {
                if self.prove(&l.addk(-1)) || self.prove(&l.neg().addk(-1)) {
                    Some(false)
                } else if self.prove(&l) && self.prove(&l.neg()) {
                    Some(true)
                } else {
                    None
                }
            }
            Term::BAnd(a, b) => match (self.decide(&a), self.decide(&b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Term::BOr(a, b) => match (self.decide(&a), self.decide(&b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            _ => None,
        }
    }
    // ---------------------------------------------------------- refinement
    pub fn narrow(&mut self, s: Sym, lo: i128, hi: i128, d: u32) -> bool {
        let mut i = self.info(s);
        if lo <= i.lo && hi >= i.hi {
            return true;
        }
        i.lo = i.lo.max(lo);
        i.hi = i.hi.min(hi);
        if i.lo > i.hi {
            return false;
        }
        i.tighten();
        if i.lo > i.hi {
            return false;
        }
        let (l2, h2) = (i.lo, i.hi);
        Rc::make_mut(&mut self.refs).insert(s, i);
        if d == 0 {
            return true;
        }
        if let Some(b) = base_of(s) {
            if b != s && !self.filter_base(b, |v| eval_sym(s, b, v).map_or(true, |x| x >= l2 && x <= h2)) {
                return false;
            }
        }
        match term(s) {
            Term::FDiv(x, k) => {
                if !self.refine_d(&x.addk(-smul(k, l2)), d - 1) {
                    return false;
                }
                if !self.refine_d(&x.neg().addk(clampi(smul(k, h2) + k - 1)), d - 1) {
                    return false;
                }
            }
            Term::Wrap(x, i) => {
                let (l, h) = self.range(&x);
                if l >= i.lo() && h <= i.hi() && (!self.refine_d(&x.addk(-l2), d - 1) || !self.refine_d(&x.neg().addk(h2), d - 1)) {
                    return false;
                }
            }
            Term::Or(a, b, _) => {
                if l2 >= 0 && h2 == 0 {
                    // x|y == 0  (non-negative operands)
                    if self.range(&a).0 >= 0 && self.range(&b).0 >= 0 && (!self.refine_d(&a.neg(), d - 1) || !self.refine_d(&b.neg(), d - 1)) {
                        return false;
                    }
                }
            }
            _ => {}
        }
        // one round of propagation through constraints mentioning s
        let cs = self.cons.clone();
        for c in cs.iter() {
            if c.has(s) && !self.tighten_lin(c, d - 1) {
                return false;
            }
        }
        true
    }
    pub fn filter_base(&mut self, b: Sym, f: impl Fn(i128) -> bool) -> bool {
        let mut i = self.info(b);
        if i.hi - i.lo > 256 || i.lo < 0 || i.hi > 255 {
            return true;
        }
        let mut set = [0u64; 4];
        let mut n = 0;
        let mut any_removed = false;
        for v in i.lo..=i.hi {
            if i.contains(v) {
                if f(v) {
                    set[(v >> 6) as usize] |= 1 << (v & 63);
                    n += 1;
                } else {
                    any_removed = true;
                }
            }
        }
        if n == 0 {
            return false;
        }
        if !any_removed {
            return true;
        }
        i.set = Some(Rc::new(set));
        i.tighten();
        if i.set.is_some() && (i.lo..=i.hi).all(|v| i.contains(v)) {
            i.set = None;
        }
        Rc::make_mut(&mut self.refs).insert(b, i);
        true
    }
    fn tighten_lin(&mut self, l: &Lin, d: u32) -> bool {
        let (_, hi) = self.range(l);
        if hi < 0 {
            return false;
        }
        // use plain interval sums for the rest
        for &(s, k) in &l.t {
            let mut rest = l.c;
            for &(s2, k2) in &l.t {
                if s2 != s {
                    let i = self.info(s2);
                    rest = clampi(rest + if k2 > 0 { smul(k2, i.hi) } else { smul(k2, i.lo) });
                }
            }
            if rest >= INF {
                continue;
            }
            let i = self.info(s);
            if k > 0 {
                let lo = cdiv(-rest, k);
                if lo > i.lo && !self.narrow(s, lo, i.hi, d) {
                    return false;
                }
            } else {
                let h = fdiv(rest, -k);
                if h < i.hi && !self.narrow(s, i.lo, h, d) {
                    return false;
                }
            }
        }
        true
    }
    fn refine_d(&mut self, l: &Lin, d: u32) -> bool {
        let (lo, hi) = self.range(l);
        if hi < 0 {
            return false;
        }
        if lo >= 0 {
            return true;
        }
        if let Some(b) = lin_base(l) {
            if !self.filter_base(b, |v| eval_lin(l, b, v).map_or(true, |x| x >= 0)) {
                return false;
            }
        }
        self.tighten_lin(l, d)
    }
    /// assume a fact without recording it as a branch outcome
    pub fn apply(&mut self, f: &Fact) -> bool {
        match f {
            Fact::Ge(l) => self.a_ge0(l),
            Fact::Eq(l) => self.a_eq0(l),
            Fact::Ne(l) => self.a_ne0(l),
            Fact::B(l, t) => self.a_bool(l, *t),
            Fact::Def(s, l) => self.a_eq0(&Lin::s(*s).sub(l)),
        }
    }
    /// do the operands of a recorded decision still allow it
    pub fn consistent(&self, f: &Fact) -> bool {
        for &(s, _) in &f.lin().t {
            if is_fresh(s) {
                continue;
            }
            if let Some(i) = self.refs.get(&s) {
                let (lo, hi) = self.op_range(s, 1);
                if hi < i.lo || lo > i.hi {
                    return false;
                }
            }
        }
        true
    }
    fn take_fact(&mut self, f: Fact) -> bool {
        if self.apply(&f) {
            self.pc = crate::pc::and(&self.pc, f);
            true
        } else {
            false
        }
    }
    pub fn assume_ge0(&mut self, l: &Lin) -> bool {
        let l = self.norm(l);
        if self.range(&l).0 >= 0 {
            return true;
        }
        self.take_fact(Fact::Ge(l))
    }
    pub fn assume_eq0(&mut self, l: &Lin) -> bool {
        let l = self.norm(l);
        if let Some(c) = l.konst() {
            return c == 0;
        }
        self.take_fact(Fact::Eq(l))
    }
    /// assume that a boolean expression has the given truth value; false if infeasible
    pub fn assume(&mut self, b: &Lin, truth: bool) -> bool {
        let b = self.norm(b);
        if let Some(k) = b.konst() {
            return (k != 0) == truth;
        }
        // 1 - s is the negation of s
        if b.c == 1 && b.t.len() == 1 && b.t[0].1 == -1 {
            return self.take_fact(Fact::B(Lin::s(b.t[0].0), !truth));
        }
        self.take_fact(Fact::B(b, truth))
    }
    /// l >= 0 ; false if infeasible
    fn a_ge0(&mut self, l: &Lin) -> bool {
        let l = &self.norm(l);
        let (lo, hi) = self.range(l);
        if hi < 0 {
            return false;
        }
        if lo >= 0 {
            return true;
        }
        if l.t.len() >= 2 && lin_base(l).is_none() {
            if self.prove(&l.neg().addk(-1)) {
                return false;
            }
            if !self.cons.contains(l) {
                Rc::make_mut(&mut self.cons).push(l.clone());
            }
        }
        self.refine_d(l, 3)
    }
    fn a_eq0(&mut self, l: &Lin) -> bool {
        self.a_ge0(l) && self.a_ge0(&l.neg())
    }
    fn a_ne0(&mut self, l: &Lin) -> bool {
        let l = &self.norm(l);
        if let Some(c) = l.konst() {
            return c != 0;
        }
        if let Some(b) = lin_base(l) {
            if !self.filter_base(b, |v| eval_lin(l, b, v).map_or(true, |x| x != 0)) {
                return false;
            }
        }
        let (lo, hi) = self.range(l);
        if lo == 0 && hi == 0 {
            return false;
        }
        if lo == 0 {
            return self.a_ge0(&l.addk(-1));
        }
        if hi == 0 {
            return self.a_ge0(&l.neg().addk(-1));
        }
        if self.cons.contains(l) {
            return self.a_ge0(&l.addk(-1));
        }
        let n = l.neg();
        if self.cons.contains(&n) {
            return self.a_ge0(&n.addk(-1));
        }
        if l.t.len() >= 2 {
            if self.prove(l) {
                return self.a_ge0(&l.addk(-1));
            }
            if self.prove(&n) {
                return self.a_ge0(&n.addk(-1));
            }
        }
        true
    }
    fn a_bool(&mut self, b: &Lin, truth: bool) -> bool {
        let b = &self.norm(b);
        if let Some(k) = b.konst() {
            return (k != 0) == truth;
        }
        if b.t.len() == 1 {
            let (s, k) = b.t[0];
            if k == 1 && b.c == 0 {
                return self.assume_sym(s, truth);
            }
            if k == -1 && b.c == 1 {
                return self.assume_sym(s, !truth);
            }
        }
        if truth { self.a_ne0(b) } else { self.a_eq0(b) }
    }
    fn assume_sym(&mut self, s: Sym, truth: bool) -> bool {
        let t = term(s);
        let v = truth as i128;
        let i = self.info(s);
        if i.lo > v || i.hi < v {
            return false;
        }
        if i.lo != i.hi && !self.narrow(s, v, v, 3) {
            return false;
        }
        match (&t, truth) {
            (Term::Ge0(l), true) => self.a_ge0(l),
            (Term::Ge0(l), false) => self.a_ge0(&l.neg().addk(-1)),
            (Term::Eq0(l), true) => self.a_eq0(l),
            (Term::Eq0(l), false) => self.a_ne0(l),
            (Term::BAnd(a, b), true) => self.a_bool(a, true) && self.a_bool(b, true),
            (Term::BAnd(a, b), false) => {
                if self.decide(a) == Some(true) {
                    self.a_bool(b, false)
                } else if self.decide(b) == Some(true) {
                    self.a_bool(a, false)
                } else {
                    true
                }
            }
            (Term::BOr(a, b), false) => self.a_bool(a, false) && self.a_bool(b, false),
            (Term::BOr(a, b), true) => {
                if self.decide(a) == Some(false) {
                    self.a_bool(b, true)
                } else if self.decide(b) == Some(false) {
                    self.a_bool(a, true)
                } else {
                    true
                }
            }
            _ => true,
        }
    }
    // ---------------------------------------------------------- constructors
    pub fn ge0(&self, l: &Lin) -> Lin {
        let l = self.norm(l);
        let (lo, hi) = self.range(&l);
        if lo >= 0 {
            Lin::k(1)
        } else if hi < 0 {
            Lin::k(0)
        } else {
            Lin::s(mk(Term::Ge0(l)))
        }
    }
    pub fn eq0(&self, l: &Lin) -> Lin {
        let l = self.norm(l);
        let (lo, hi) = self.range(&l);
        if lo == 0 && hi == 0 {
            return Lin::k(1);
        }
        if lo > 0 || hi < 0 {
            return Lin::k(0);
        }
        // canonical sign
        let l = if l.t[0].1 < 0 { l.neg() } else { l };
        // boolean b == const
        if l.t.len() == 1 && l.t[0].1 == 1 {
            let i = self.info(l.t[0].0);
            if i.lo >= 0 && i.hi <= 1 {
                if l.c == 0 {
                    return Lin::k(1).sub(&Lin::s(l.t[0].0));
                } else if l.c == -1 {
                    return Lin::s(l.t[0].0);
                }
            }
        }
        if let Some(b) = lin_base(&l) {
            if let Some((i, _)) = self.dom_key(b) {
                if !(i.lo..=i.hi).any(|v| i.contains(v) && eval_lin(&l, b, v).map_or(true, |x| x == 0)) {
                    return Lin::k(0);
                }
            }
        }
        Lin::s(mk(Term::Eq0(l)))
    }
    pub fn band(&self, a: &Lin, b: &Lin) -> Lin {
        match (self.konst(a), self.konst(b)) {
            (Some(0), _) | (_, Some(0)) => Lin::k(0),
            (Some(_), _) => b.clone(),
            (_, Some(_)) => a.clone(),
            _ => {
                if a == b {
                    a.clone()
                } else {
                    Lin::s(mk(Term::BAnd(a.clone(), b.clone())))
                }
            }
        }
    }
    pub fn bor(&self, a: &Lin, b: &Lin) -> Lin {
        match (self.konst(a), self.konst(b)) {
            (Some(0), _) => b.clone(),
            (_, Some(0)) => a.clone(),
            (Some(_), _) | (_, Some(_)) => Lin::k(1),
            _ => {
                if a == b {
                    a.clone()
                } else {
                    Lin::s(mk(Term::BOr(a.clone(), b.clone())))
                }
            }
        }
    }
    pub fn bnot(&self, a: &Lin) -> Lin {
        Lin::k(1).sub(a)
    }
    pub fn fits(&self, l: &Lin, t: ITy) -> bool {
        let (lo, hi) = self.range(l);
        (lo >= t.lo() && hi <= t.hi()) || (self.prove(&l.addk(-t.lo())) && self.prove(&l.neg().addk(t.hi())))
    }
    pub fn wrap(&self, l: &Lin, t: ITy) -> Lin {
        if let Some(k) = l.konst() {
            return Lin::k(t.wrap(k));
        }
        if self.fits(l, t) {
            return l.clone();
        }
        if t.bits == 0 {
            return Lin::k(0);
        }
        // multiples of 2^n vanish
        if t.bits <= 64 {
            let k = 1i128 << t.bits;
            if l.t.iter().any(|x| x.1 % k == 0) {
                let r = Lin { c: t.wrap(l.c), t: l.t.iter().filter(|x| x.1 % k != 0).cloned().collect() };
                return self.wrap(&r, t);
            }
        }
        // x mod 2^n for unsigned targets of a non-negative value stays a remainder
        let (lo, _) = self.range(l);
        if !t.signed && lo >= 0 && t.bits < 64 {
            return Lin::s(mk(Term::FRem(l.clone(), 1i128 << t.bits)));
        }
        Lin::s(mk(Term::Wrap(l.clone(), t)))
    }
}
pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.max(1) } else { gcd(b, a % b) }
}
