//! Path conditions: which combinations of branch outcomes an abstract state stands for.
//! Joins keep them as a disjunction, so that a join loses no correlation for good.
use crate::dom::*;
use crate::num::Num;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Fact {
    /// l >= 0
    Ge(Lin),
    /// l == 0
    Eq(Lin),
    /// l != 0
    Ne(Lin),
    /// boolean expression is true / false
    B(Lin, bool),
    /// the symbol introduced by a join has this value
    Def(Sym, Lin),
}
impl Fact {
    pub fn lin(&self) -> &Lin {
        match self {
            Fact::Ge(l) | Fact::Eq(l) | Fact::Ne(l) | Fact::B(l, _) | Fact::Def(_, l) => l,
        }
    }
    fn complements(&self, o: &Fact) -> bool {
        match (self, o) {
            (Fact::B(a, x), Fact::B(b, y)) => a == b && x != y,
            (Fact::Eq(a), Fact::Ne(b)) | (Fact::Ne(a), Fact::Eq(b)) => a == b || *a == b.neg(),
            (Fact::Ge(a), Fact::Ge(b)) => a.addk(1) == b.neg(),
            _ => false,
        }
    }
}
pub enum PcN {
    And(Pc, Fact),
    Or(Vec<Pc>),
}
pub type Pc = Option<Rc<PcN>>;
const MAX_OR: usize = 64;

fn same(a: &Pc, b: &Pc) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => Rc::ptr_eq(a, b),
        _ => false,
    }
}
pub fn and(p: &Pc, f: Fact) -> Pc {
    if let Some(n) = p {
        if let PcN::And(_, g) = n.as_ref() {
            if *g == f {
                return p.clone();
            }
        }
    }
    Some(Rc::new(PcN::And(p.clone(), f)))
}
/// is `a` an ancestor of (or the same as) `b` along the conjunction chain
pub fn extends(b: &Pc, a: &Pc) -> bool {
    let mut c = b.clone();
    loop {
        if same(&c, a) {
            return true;
        }
        match c {
            Some(n) => match n.as_ref() {
                PcN::And(p, _) => c = p.clone(),
                PcN::Or(_) => return false,
            },
            None => return false,
        }
    }
}
fn combine(a: &Pc, b: &Pc) -> Option<Pc> {
    if extends(b, a) {
        return Some(a.clone());
    }
    if extends(a, b) {
        return Some(b.clone());
    }
    if let (Some(x), Some(y)) = (a, b) {
        if let (PcN::And(p, f), PcN::And(q, g)) = (x.as_ref(), y.as_ref()) {
            if same(p, q) && f.complements(g) {
                return Some(p.clone());
            }
        }
    }
    None
}
pub fn or(a: &Pc, b: &Pc) -> Pc {
    if let Some(p) = combine(a, b) {
        return p;
    }
    let mut v: Vec<Pc> = vec![];
    for x in [a, b] {
        match x {
            Some(n) => match n.as_ref() {
                PcN::Or(c) => v.extend(c.iter().cloned()),
                _ => v.push(x.clone()),
            },
            None => return None,
        }
    }
    // complementary outcomes of one decision collapse
    'again: loop {
        for i in 0..v.len() {
            for j in 0..i {
                if let Some(p) = combine(&v[i], &v[j]) {
                    v.swap_remove(i);
                    v.swap_remove(j);
                    match p {
                        None => return None,
                        Some(n) => match n.as_ref() {
                            PcN::Or(c) => v.extend(c.iter().cloned()),
                            _ => v.push(Some(n)),
                        },
                    }
                    continue 'again;
                }
            }
        }
        break;
    }
    if v.len() == 1 {
        return v.pop().unwrap();
    }
    if v.len() > MAX_OR {
        return unknown();
    }
    Some(Rc::new(PcN::Or(v)))
}
/// a condition about which nothing is known
pub fn unknown() -> Pc {
    and(&None, Fact::B(fresh_lin(0, 1, true), true))
}
/// the same condition without one fact
pub fn without(p: &Pc, f: &Fact) -> Pc {
    match p {
        None => None,
        Some(n) => match n.as_ref() {
            PcN::And(q, g) => {
                if g == f {
                    return q.clone();
                }
                let r = without(q, f);
                if same(&r, q) {
                    p.clone()
                } else {
                    Some(Rc::new(PcN::And(r, g.clone())))
                }
            }
            PcN::Or(v) => {
                let w: Vec<Pc> = v.iter().map(|x| without(x, f)).collect();
                if w.iter().zip(v.iter()).all(|(a, b)| same(a, b)) {
                    p.clone()
                } else {
                    let mut r = w[0].clone();
                    for x in &w[1..] {
                        r = or(&r, x);
                    }
                    r
                }
            }
        },
    }
}
/// what the leaf test says about one consistent-looking combination
pub enum Leaf {
    Accept(String),
    Refute,
    Unknown,
}
pub enum Verdict {
    /// no combination of branch outcomes is consistent with the facts
    Empty,
    /// a consistent combination was accepted by the leaf test
    Found(String),
    Unknown,
}
/// input symbols with few values, by number of decisions depending on them
fn pivots(num: &Num) -> Vec<Sym> {
    use std::collections::{BTreeMap, HashSet};
    let mut n: BTreeMap<Sym, usize> = BTreeMap::new();
    let mut seen = HashSet::new();
    let mut work = vec![num.pc.clone()];
    fn bases(s: Sym, out: &mut HashSet<Sym>, d: u32) {
        if is_fresh(s) {
            out.insert(s);
        } else if d < 6 {
            for x in term_syms(&term(s)) {
                bases(x, out, d + 1);
            }
        }
    }
    while let Some(Some(p)) = work.pop() {
        if !seen.insert(std::rc::Rc::as_ptr(&p) as usize) || seen.len() > 4000 {
            continue;
        }
        match p.as_ref() {
            PcN::And(q, f) => {
                if !matches!(f, Fact::Def(..)) {
                    let mut b = HashSet::new();
                    for x in &f.lin().t {
                        bases(x.0, &mut b, 0);
                    }
                    for s in b {
                        *n.entry(s).or_default() += 1;
                    }
                }
                work.push(q.clone());
            }
            PcN::Or(v) => work.extend(v.iter().cloned()),
        }
    }
    let mut v: Vec<(usize, Sym)> = n
        .into_iter()
        .filter(|(s, k)| {
            let i = num.info(*s);
            *k >= 2 && i.lo < i.hi && i.hi - i.lo <= 255 && (i.lo..=i.hi).filter(|x| i.contains(*x)).count() <= 40
        })
        .map(|(s, k)| (k, s))
        .collect();
    v.sort();
    v.reverse();
    v.into_iter().map(|x| x.1).collect()
}
/// Is some combination of branch outcomes consistent with the facts in `num`? Undecided cases are split on the
/// values of an input with few of them.
pub fn search(num: &Num, leaf: &mut dyn FnMut(&Num, &[Fact]) -> Leaf, budget: i32) -> Verdict {
    let mut left = 15 * budget as i64;
    split(num, leaf, budget, &mut left, 0)
}
fn split(num: &Num, leaf: &mut dyn FnMut(&Num, &[Fact]) -> Leaf, budget: i32, left: &mut i64, depth: u32) -> Verdict {
    let r = search1(num, leaf, budget, left);
    if !matches!(r, Verdict::Unknown) || depth >= 3 || *left <= 0 || num.pc.is_none() {
        return r;
    }
    let Some(&s) = pivots(num).first() else { return r };
    let i = num.info(s);
    let mut open = false;
    for v in i.lo..=i.hi {
        if !i.contains(v) {
            continue;
        }
        let mut n = num.clone();
        if !n.narrow(s, v, v, 3) {
            continue;
        }
        match split(&n, leaf, budget, left, depth + 1) {
            Verdict::Empty => {}
            Verdict::Found(w) => return Verdict::Found(w),
            Verdict::Unknown => open = true,
        }
        if *left <= 0 {
            return Verdict::Unknown;
        }
        if open {
            return Verdict::Unknown;
        }
    }
    if open { Verdict::Unknown } else { Verdict::Empty }
}
/// Enumerate the consistent disjuncts of the state's path condition under extra facts (already in `num`).
/// `leaf` gets the refined facts and the conjunction of the disjunct and may accept it.
fn search1(num: &Num, leaf: &mut dyn FnMut(&Num, &[Fact]) -> Leaf, budget: i32, left: &mut i64) -> Verdict {
    struct Cx<'a> {
        leaf: &'a mut dyn FnMut(&Num, &[Fact]) -> Leaf,
        budget: i32,
        leaves: i32,
        open: bool,
    }
    fn go(cx: &mut Cx, num: Num, pc: &Pc, facts: &mut Vec<Fact>) -> Option<String> {
        let n0 = facts.len();
        let mut num = num;
        let mut c = pc.clone();
        loop {
            cx.budget -= 1;
            if cx.budget <= 0 {
                cx.open = true;
                facts.truncate(n0);
                return None;
            }
            let Some(n) = c else {
                // facts learned later may contradict ones applied earlier
                for _ in 0..2 {
                    for f in facts.iter() {
                        if !num.apply(f) || !num.consistent(f) {
                            facts.truncate(n0);
                            return None;
                        }
                    }
                }
                cx.leaves += 1;
                let r = if cx.leaves <= 64 { (cx.leaf)(&num, facts) } else { Leaf::Unknown };
                facts.truncate(n0);
                return match r {
                    Leaf::Accept(s) => Some(s),
                    Leaf::Refute => None,
                    Leaf::Unknown => {
                        cx.open = true;
                        None
                    }
                };
            };
            match n.as_ref() {
                PcN::And(p, f) => {
                    if !num.apply(f) {
                        facts.truncate(n0);
                        return None;
                    }
                    facts.push(f.clone());
                    c = p.clone();
                }
                PcN::Or(v) => {
                    for x in v {
                        if let Some(r) = go(cx, num.clone(), x, facts) {
                            facts.truncate(n0);
                            return Some(r);
                        }
                        if cx.budget <= 0 {
                            break;
                        }
                    }
                    facts.truncate(n0);
                    return None;
                }
            }
        }
    }
    let mut cx = Cx { leaf, budget, leaves: 0, open: false };
    let dbg = DBG.with(|d| d.get());
    let mut f = vec![];
    let mut base = num.clone();
    let pc = std::mem::take(&mut base.pc);
    let r = go(&mut cx, base, &pc, &mut f);
    *left -= (budget - cx.budget.max(0)) as i64 + 40 * cx.leaves as i64;
    if dbg {
        eprintln!("  search: budget left {} leaves {} open {} found {}", cx.budget, cx.leaves, cx.open, r.is_some());
    }
    match r {
        Some(s) => Verdict::Found(s),
        None if cx.open => Verdict::Unknown,
        None => Verdict::Empty,
    }
}

thread_local! {
    pub static DBG: std::cell::Cell<bool> = std::cell::Cell::new(std::env::var("JPEGAI_WIT").is_ok());
}
