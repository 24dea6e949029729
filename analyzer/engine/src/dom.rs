//! Numeric domain: linear expressions over hash-consed symbols.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type Sym = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct ITy {
    pub bits: u8,
    pub signed: bool,
}
pub const U8: ITy = ITy { bits: 8, signed: false };
pub const U64: ITy = ITy { bits: 64, signed: false };
pub const BOOL: ITy = ITy { bits: 1, signed: false };
/// discriminants / mathematical integers
pub const MATH: ITy = ITy { bits: 120, signed: true };
impl ITy {
    pub fn lo(self) -> i128 {
        if self.signed {
            if self.bits >= 128 { i128::MIN } else { -(1i128 << (self.bits - 1)) }
        } else {
            0
        }
    }
    pub fn hi(self) -> i128 {
        if self.signed {
            if self.bits >= 128 { i128::MAX } else { (1i128 << (self.bits - 1)) - 1 }
        } else if self.bits >= 127 {
            i128::MAX
        } else {
            (1i128 << self.bits) - 1
        }
    }
    pub fn wrap(self, v: i128) -> i128 {
        if self.bits >= 120 {
            return v;
        }
        let m = 1i128 << self.bits;
        let r = v.rem_euclid(m);
        if self.signed && r >= m / 2 { r - m } else { r }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Lin {
    pub c: i128,
    pub t: Vec<(Sym, i128)>,
}
const BIG: i128 = 1 << 110;
fn ck(v: Option<i128>) -> Option<i128> {
    v.filter(|x| x.abs() < BIG)
}
impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { c, t: vec![] }
    }
    pub fn s(s: Sym) -> Lin {
        Lin { c: 0, t: vec![(s, 1)] }
    }
    pub fn konst(&self) -> Option<i128> {
        if self.t.is_empty() { Some(self.c) } else { None }
    }
    pub fn as_sym(&self) -> Option<Sym> {
        if self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1 { Some(self.t[0].0) } else { None }
    }
    /// None on coefficient overflow
    pub fn comb(&self, a: i128, o: &Lin, b: i128) -> Option<Lin> {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                let v = ck(self.t[i].1.checked_mul(a))?;
                if v != 0 {
                    t.push((self.t[i].0, v));
                }
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                let v = ck(o.t[j].1.checked_mul(b))?;
                if v != 0 {
                    t.push((o.t[j].0, v));
                }
                j += 1;
            } else {
                let v = ck(ck(self.t[i].1.checked_mul(a))?.checked_add(ck(o.t[j].1.checked_mul(b))?))?;
                if v != 0 {
                    t.push((self.t[i].0, v));
                }
                i += 1;
                j += 1;
            }
        }
        let c = ck(ck(self.c.checked_mul(a))?.checked_add(ck(o.c.checked_mul(b))?))?;
        Some(Lin { c, t })
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.comb(1, o, 1).unwrap_or_else(|| fresh_lin(i128::MIN / 4, i128::MAX / 4, true))
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.comb(1, o, -1).unwrap_or_else(|| fresh_lin(i128::MIN / 4, i128::MAX / 4, true))
    }
    pub fn addk(&self, k: i128) -> Lin {
        let mut l = self.clone();
        l.c += k;
        l
    }
    pub fn mulk(&self, k: i128) -> Lin {
        self.comb(k, &Lin::k(0), 0).unwrap_or_else(|| fresh_lin(i128::MIN / 4, i128::MAX / 4, true))
    }
    pub fn neg(&self) -> Lin {
        self.mulk(-1)
    }
    pub fn coef(&self, s: Sym) -> i128 {
        match self.t.binary_search_by_key(&s, |x| x.0) {
            Ok(i) => self.t[i].1,
            Err(_) => 0,
        }
    }
    /// replace symbol by expression
    pub fn subst(&self, s: Sym, e: &Lin) -> Lin {
        let k = self.coef(s);
        if k == 0 {
            return self.clone();
        }
        let mut r = self.clone();
        r.t.retain(|x| x.0 != s);
        r.comb(1, e, k).unwrap_or_else(|| fresh_lin(i128::MIN / 4, i128::MAX / 4, true))
    }
    pub fn has(&self, s: Sym) -> bool {
        self.coef(s) != 0
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Term {
    Fresh,
    /// floor division by positive constant
    FDiv(Lin, i128),
    /// x - k*floor(x/k)
    FRem(Lin, i128),
    Div(Lin, Lin, ITy),
    Rem(Lin, Lin, ITy),
    Mul(Lin, Lin),
    And(Lin, Lin, ITy),
    Or(Lin, Lin, ITy),
    Xor(Lin, Lin, ITy),
    Shl(Lin, Lin, ITy),
    Shr(Lin, Lin, ITy),
    Wrap(Lin, ITy),
    Ge0(Lin),
    Eq0(Lin),
    BAnd(Lin, Lin),
    BOr(Lin, Lin),
    /// constant table lookup
    Sel(Lin, Rc<Vec<i128>>),
}

pub type Set = Rc<[u64; 4]>;

#[derive(Clone, Debug, PartialEq)]
pub struct Info {
    pub lo: i128,
    pub hi: i128,
    pub set: Option<Set>, // values 0..=255, only if 0<=lo and hi<=255
}
impl Info {
    pub fn new(lo: i128, hi: i128) -> Info {
        Info { lo, hi, set: None }
    }
    pub fn contains(&self, v: i128) -> bool {
        if v < self.lo || v > self.hi {
            return false;
        }
        match &self.set {
            Some(s) if (0..256).contains(&v) => s[(v >> 6) as usize] >> (v & 63) & 1 == 1,
            _ => true,
        }
    }
    /// shrink bounds to the set
    pub fn tighten(&mut self) {
        if let Some(s) = self.set.clone() {
            let mut lo = self.lo;
            let mut hi = self.hi;
            while lo <= hi && !(s[(lo >> 6) as usize] >> (lo & 63) & 1 == 1) {
                lo += 1;
            }
            while hi >= lo && !(s[(hi >> 6) as usize] >> (hi & 63) & 1 == 1) {
                hi -= 1;
            }
            self.lo = lo;
            self.hi = hi;
            if lo > hi {
                self.set = None;
            }
        }
    }
}

pub struct Global {
    pub terms: Vec<Term>,
    pub init: Vec<Info>,
    pub weak: Vec<bool>,
    pub nonlin: Vec<bool>,
    /// the single fresh symbol with a small domain this term depends on
    pub base: Vec<Option<Sym>>,
    /// size of the expression tree
    pub size: Vec<u32>,
    pub cons: HashMap<Term, Sym>,
}
thread_local! {
    pub static G: RefCell<Global> = RefCell::new(Global{terms:vec![],init:vec![],weak:vec![],nonlin:vec![],base:vec![],size:vec![],cons:HashMap::new()});
}

pub fn fresh(lo: i128, hi: i128, weak: bool) -> Sym {
    G.with(|g| {
        let mut g = g.borrow_mut();
        let id = g.terms.len() as Sym;
        g.terms.push(Term::Fresh);
        g.init.push(Info::new(lo, hi));
        g.weak.push(weak);
        g.nonlin.push(false);
        g.size.push(1);
        g.base.push(if lo >= 0 && hi <= 255 { Some(id) } else { None });
        id
    })
}
pub fn fresh_info(i: Info, weak: bool) -> Sym {
    let s = fresh(i.lo, i.hi, weak);
    G.with(|g| g.borrow_mut().init[s as usize] = i);
    s
}
pub fn fresh_lin(lo: i128, hi: i128, weak: bool) -> Lin {
    Lin::s(fresh(lo, hi, weak))
}
pub fn set_weak(s: Sym) {
    G.with(|g| g.borrow_mut().weak[s as usize] = true)
}
pub fn is_weak_sym(s: Sym) -> bool {
    G.with(|g| g.borrow().weak[s as usize])
}
pub fn is_weak(l: &Lin) -> bool {
    G.with(|g| {
        let g = g.borrow();
        l.t.iter().any(|x| g.weak[x.0 as usize])
    })
}
pub fn lin_size(l: &Lin) -> u32 {
    G.with(|g| {
        let g = g.borrow();
        l.t.iter().fold(0u32, |a, x| a.saturating_add(g.size[x.0 as usize]))
    })
}
pub fn is_nonlin(l: &Lin) -> bool {
    G.with(|g| {
        let g = g.borrow();
        l.t.iter().any(|x| g.nonlin[x.0 as usize])
    })
}
pub fn term(s: Sym) -> Term {
    G.with(|g| g.borrow().terms[s as usize].clone())
}
pub fn is_fresh(s: Sym) -> bool {
    G.with(|g| matches!(g.borrow().terms[s as usize], Term::Fresh))
}
pub fn nsyms() -> usize {
    G.with(|g| g.borrow().terms.len())
}

pub fn operands(t: &Term) -> Vec<&Lin> {
    match t {
        Term::Fresh => vec![],
        Term::FDiv(a, _) | Term::FRem(a, _) | Term::Wrap(a, _) | Term::Ge0(a) | Term::Eq0(a) | Term::Sel(a, _) => vec![a],
        Term::Div(a, b, _) | Term::Rem(a, b, _) | Term::Mul(a, b) | Term::And(a, b, _) | Term::Or(a, b, _) | Term::Xor(a, b, _) | Term::Shl(a, b, _) | Term::Shr(a, b, _) | Term::BAnd(a, b) | Term::BOr(a, b) => vec![a, b],
    }
}
pub fn term_syms(t: &Term) -> Vec<Sym> {
    let mut v = vec![];
    for l in operands(t) {
        for x in &l.t {
            v.push(x.0);
        }
    }
    v
}

pub fn mk(t: Term) -> Sym {
    G.with(|g| {
        let mut g = g.borrow_mut();
        if let Some(&s) = g.cons.get(&t) {
            return s;
        }
        let id = g.terms.len() as Sym;
        let mut weak = false;
        let mut nonlin = matches!(t, Term::Mul(..) | Term::Div(..) | Term::Rem(..));
        let mut base = None;
        let mut single = true;
        let mut size = 1u32;
        for l in operands(&t) {
            for &(s, _) in &l.t {
                weak |= g.weak[s as usize];
                size = size.saturating_add(g.size[s as usize]);
                nonlin |= g.nonlin[s as usize];
                match g.base[s as usize] {
                    Some(b) => {
                        if base.is_none() {
                            base = Some(b);
                        } else if base != Some(b) {
                            single = false;
                        }
                    }
                    None => single = false,
                }
            }
        }
        let isbool = matches!(t, Term::Ge0(_) | Term::Eq0(_) | Term::BAnd(..) | Term::BOr(..));
        g.terms.push(t.clone());
        g.init.push(if isbool { Info::new(0, 1) } else { Info::new(i128::MIN / 4, i128::MAX / 4) });
        g.weak.push(weak);
        g.nonlin.push(nonlin);
        g.size.push(size);
        g.base.push(if single { base } else { None });
        g.cons.insert(t, id);
        id
    })
}
pub fn base_of(s: Sym) -> Option<Sym> {
    G.with(|g| g.borrow().base[s as usize])
}
/// the single base of all symbols in l (None if constant or several)
pub fn lin_base(l: &Lin) -> Option<Sym> {
    G.with(|g| {
        let g = g.borrow();
        let mut b = None;
        for x in &l.t {
            match (g.base[x.0 as usize], b) {
                (None, _) => return None,
                (Some(y), None) => b = Some(y),
                (Some(y), Some(z)) if y == z => {}
                _ => return None,
            }
        }
        b
    })
}
/// evaluate under base:=v
pub fn eval_lin(l: &Lin, base: Sym, v: i128) -> Option<i128> {
    let mut r = l.c;
    for &(s, k) in &l.t {
        r = r.checked_add(k.checked_mul(eval_sym(s, base, v)?)?)?;
    }
    Some(r)
}
pub fn eval_sym(s: Sym, base: Sym, v: i128) -> Option<i128> {
    if s == base {
        return Some(v);
    }
    let t = term(s);
    let e = |l: &Lin| eval_lin(l, base, v);
    Some(match &t {
        Term::Fresh => return None,
        Term::FDiv(a, k) => e(a)?.div_euclid(*k),
        Term::FRem(a, k) => e(a)?.rem_euclid(*k),
        Term::Div(a, b, _) => e(a)?.checked_div(e(b)?)?,
        Term::Rem(a, b, _) => e(a)?.checked_rem(e(b)?)?,
        Term::Mul(a, b) => e(a)?.checked_mul(e(b)?)?,
        Term::And(a, b, i) => i.wrap(e(a)? & e(b)?),
        Term::Or(a, b, i) => i.wrap(e(a)? | e(b)?),
        Term::Xor(a, b, i) => i.wrap(e(a)? ^ e(b)?),
        Term::Shl(a, b, i) => {
            let n = e(b)?.rem_euclid(i.bits as i128);
            i.wrap(e(a)?.checked_mul(1i128.checked_shl(n as u32)?)?)
        }
        Term::Shr(a, b, i) => {
            let n = e(b)?.rem_euclid(i.bits as i128);
            e(a)? >> n
        }
        Term::Wrap(a, i) => i.wrap(e(a)?),
        Term::Ge0(a) => (e(a)? >= 0) as i128,
        Term::Eq0(a) => (e(a)? == 0) as i128,
        Term::BAnd(a, b) => e(a)? & e(b)?,
        Term::BOr(a, b) => e(a)? | e(b)?,
        Term::Sel(a, t) => *t.get(usize::try_from(e(a)?).ok()?)?,
    })
}
