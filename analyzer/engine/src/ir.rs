//! Compact form of the driver's MIR dump.
use serde_json::Value as J;
use std::collections::HashMap;

pub type TyId = usize;
pub type InstId = usize;

#[derive(Debug)]
pub enum TyK {
    Bool,
    Char,
    Int(u8, bool),
    Float,
    Str,
    Never,
    Tuple(Vec<TyId>),
    Array(TyId, u64),
    Slice(TyId),
    Ref(TyId, bool),
    RawPtr(TyId, bool),
    FnPtr,
    FnDef(Box<Callee>),
    Closure(Vec<TyId>, InstId),
    Dyn(String),
    Adt { name: String, is_enum: bool, is_union: bool, local: bool, args: Vec<TyId>, vars: Vec<Variant> },
    Other,
}
#[derive(Debug)]
pub struct Variant {
    pub n: String,
    pub d: i128,
    pub f: Vec<TyId>,
    pub fnames: Vec<String>,
}
#[derive(Debug)]
pub struct Ty {
    pub s: String,
    pub k: TyK,
}
#[derive(Clone, Debug)]
pub enum Proj {
    Deref,
    Field(usize, TyId),
    Index(usize),
    ConstIdx(u64, u64, bool),
    Sub(u64, u64, bool),
    Variant(usize),
    Other,
}
#[derive(Clone, Debug)]
pub struct Place {
    pub l: usize,
    pub p: Vec<Proj>,
}
#[derive(Debug)]
pub enum Op {
    Copy(Place),
    Move(Place),
    Const(Const),
}
#[derive(Clone, Debug)]
pub struct Const {
    pub t: TyId,
    pub k: ConstK,
}
#[derive(Clone, Debug)]
pub enum ConstK {
    Int(i128),
    Float(f64),
    Fn(Box<Callee>),
    FnPtr(InstId),
    Slice(Vec<Const>),
    Str(String),
    Ref(Box<Const>),
    Static(usize),
    Arr(Vec<Const>),
    Agg(i64, Vec<Const>),
    EmptyVec,
    Unk,
}
#[derive(Clone, Debug)]
pub enum CalleeK {
    Inst(InstId),
    Virtual(usize),
    Intrinsic(String),
    Ctor(TyId, usize),
    Ptr(Box<OpBox>),
    Unresolved,
}
#[derive(Debug)]
pub struct OpBox(pub Op);
impl Clone for OpBox {
    fn clone(&self) -> Self {
        OpBox(match &self.0 {
            Op::Copy(p) => Op::Copy(p.clone()),
            Op::Move(p) => Op::Move(p.clone()),
            Op::Const(c) => Op::Const(c.clone()),
        })
    }
}
#[derive(Clone, Debug)]
pub struct Callee {
    pub k: CalleeK,
    pub decl: String,
    pub name: String,
    pub args: Vec<TyId>,
}
#[derive(Debug)]
pub enum Rv {
    Use(Op),
    Repeat(Op, u64),
    Ref(Place),
    Cast { k: String, o: Op, from: TyId, to: TyId, inst: i64 },
    Bin(String, Op, Op, TyId),
    Un(String, Op, TyId),
    Discr(Place, TyId),
    Agg { k: String, v: usize, t: TyId, os: Vec<Op> },
    Other,
}
#[derive(Debug)]
pub enum St {
    Assign(Place, Rv, u32),
    SetDiscr(Place, usize),
    Dead(usize),
    Assume(Op),
    Nop,
}
#[derive(Debug)]
pub enum Tm {
    Goto(usize),
    Switch { o: Op, ts: Vec<(i128, usize)>, els: usize },
    Ret,
    Unreachable,
    Drop(Place, TyId, usize),
    Call { f: Callee, a: Vec<Op>, at: Vec<TyId>, d: Place, to: Option<usize> },
    Assert { o: Op, exp: bool, k: String, os: Vec<Op>, to: usize },
    Other,
}
#[derive(Debug)]
pub struct Block {
    pub st: Vec<St>,
    pub tm: Tm,
    pub sp: u32,
    pub cleanup: bool,
}
#[derive(Debug)]
pub struct Body {
    pub args: usize,
    pub spread: i64,
    pub locals: Vec<TyId>,
    pub names: HashMap<usize, String>,
    pub blocks: Vec<Block>,
    pub cfg: Cfg,
    /// drop-flag like locals: constants only, used in switches only
    pub flags: Vec<bool>,
}
#[derive(Debug, Default)]
pub struct Cfg {
    pub rpo: Vec<usize>,
    pub idom: Vec<usize>,
    /// innermost loop of each block (loop id = index)
    pub inner: Vec<Option<usize>>,
    pub loops: Vec<Loop>,
}
#[derive(Debug)]
pub struct Loop {
    pub head: usize,
    pub body: Vec<bool>,
    pub parent: Option<usize>,
    /// blocks of the loop that leave it and dominate every latch
    pub ctrl: Vec<usize>,
}
#[derive(Debug)]
pub struct Inst {
    pub id: InstId,
    pub path: String,
    pub name: String,
    pub full: String,
    pub local: bool,
    pub kind: String,
    pub args: Vec<TyId>,
    pub tr: String,
    pub implof: String,
    pub selfty: i64,
    pub features: Vec<String>,
    pub body: Option<Body>,
}
pub struct Prog {
    pub roots: Vec<(String, InstId)>,
    pub tys: Vec<Ty>,
    pub insts: Vec<Inst>,
    pub statics: Vec<(String, Option<Const>, TyId)>,
    pub vt: HashMap<(TyId, TyId), HashMap<String, InstId>>,
    pub spans: Vec<String>,
}

struct L {
    spans: Vec<String>,
    smap: HashMap<String, u32>,
}
fn us(j: &J) -> usize {
    j.as_u64().unwrap() as usize
}
fn s(j: &J) -> String {
    j.as_str().unwrap_or("").to_string()
}
fn i(j: &J) -> i128 {
    match j {
        J::Number(n) => n.to_string().parse::<i128>().unwrap_or_else(|_| n.as_f64().unwrap_or(0.0) as i128),
        _ => 0,
    }
}
fn arr(j: &J) -> &Vec<J> {
    j.as_array().unwrap()
}
impl L {
    fn sp(&mut self, j: &J) -> u32 {
        let t = j.as_str().unwrap_or("");
        if let Some(&x) = self.smap.get(t) {
            return x;
        }
        let id = self.spans.len() as u32;
        self.spans.push(t.to_string());
        self.smap.insert(t.to_string(), id);
        id
    }
    fn callee(&mut self, j: &J) -> Callee {
        let decl = s(&j["decl"]);
        let name = if j["name"].is_string() { s(&j["name"]) } else { decl.rsplit("::").next().unwrap_or("").to_string() };
        let args = j["args"].as_array().map_or(vec![], |v| v.iter().map(us).collect());
        let k = if !j["inst"].is_null() {
            CalleeK::Inst(us(&j["inst"]))
        } else if !j["virtual"].is_null() {
            CalleeK::Virtual(us(&j["virtual"]))
        } else if j["intrinsic"].is_string() {
            CalleeK::Intrinsic(s(&j["intrinsic"]))
        } else if !j["ctor"].is_null() {
            CalleeK::Ctor(us(&j["ty"]), us(&j["variant"]))
        } else if !j["ptr"].is_null() {
            CalleeK::Ptr(Box::new(OpBox(self.op(&j["ptr"]))))
        } else {
            CalleeK::Unresolved
        };
        Callee { k, decl, name, args }
    }
    fn konst(&mut self, j: &J) -> Const {
        let t = us(&j["t"]);
        let k = match j["k"].as_str().unwrap() {
            "i" => ConstK::Int(i(&j["v"])),
            "f" => ConstK::Float(j["v"].as_f64().unwrap_or(0.0)),
            "fn" => ConstK::Fn(Box::new(self.callee(&j["callee"]))),
            "fnptr" => ConstK::FnPtr(us(&j["inst"])),
            "slice" => ConstK::Slice(arr(&j["elems"]).iter().map(|x| self.konst(x)).collect()),
            "str" => ConstK::Str(s(&j["v"])),
            "ref" => ConstK::Ref(Box::new(self.konst(&j["v"]))),
            "static" => ConstK::Static(us(&j["id"])),
            "arr" => ConstK::Arr(arr(&j["elems"]).iter().map(|x| self.konst(x)).collect()),
            "agg" => ConstK::Agg(j["variant"].as_i64().unwrap(), arr(&j["fields"]).iter().map(|x| self.konst(x)).collect()),
            "emptyvec" => ConstK::EmptyVec,
            _ => ConstK::Unk,
        };
        Const { t, k }
    }
    fn place(&mut self, j: &J) -> Place {
        let mut p = vec![];
        for e in arr(&j["p"]) {
            p.push(if e.is_string() {
                Proj::Deref
            } else if !e["f"].is_null() {
                Proj::Field(us(&e["f"]), us(&e["t"]))
            } else if !e["i"].is_null() {
                Proj::Index(us(&e["i"]))
            } else if !e["ci"].is_null() {
                Proj::ConstIdx(e["ci"].as_u64().unwrap(), e["min"].as_u64().unwrap(), e["end"].as_bool().unwrap())
            } else if !e["ss"].is_null() {
                Proj::Sub(e["ss"][0].as_u64().unwrap(), e["ss"][1].as_u64().unwrap(), e["end"].as_bool().unwrap())
            } else if !e["v"].is_null() {
                Proj::Variant(us(&e["v"]))
            } else {
                Proj::Other
            });
        }
        Place { l: us(&j["l"]), p }
    }
    fn op(&mut self, j: &J) -> Op {
        if !j["c"].is_null() {
            Op::Copy(self.place(&j["c"]))
        } else if !j["m"].is_null() {
            Op::Move(self.place(&j["m"]))
        } else {
            Op::Const(self.konst(&j["k"]))
        }
    }
    fn rv(&mut self, j: &J) -> Rv {
        match j["r"].as_str().unwrap() {
            "use" => Rv::Use(self.op(&j["o"])),
            "repeat" => Rv::Repeat(self.op(&j["o"]), j["n"].as_u64().unwrap()),
            "ref" => Rv::Ref(self.place(&j["p"])),
            "cast" => Rv::Cast { k: s(&j["k"]), o: self.op(&j["o"]), from: us(&j["from"]), to: us(&j["to"]), inst: j["inst"].as_i64().unwrap_or(-1) },
            "bin" => Rv::Bin(s(&j["op"]), self.op(&j["a"]), self.op(&j["b"]), us(&j["t"])),
            "un" => Rv::Un(s(&j["op"]), self.op(&j["o"]), us(&j["t"])),
            "discr" => Rv::Discr(self.place(&j["p"]), us(&j["t"])),
            "agg" => Rv::Agg { k: s(&j["k"]), v: us(&j["v"]), t: us(&j["t"]), os: arr(&j["os"]).iter().map(|x| self.op(x)).collect() },
            _ => Rv::Other,
        }
    }
}

pub fn load(path: &str) -> Prog {
    let txt = std::fs::read_to_string(path).expect("read dump");
    let j: J = serde_json::from_str(&txt).expect("parse dump");
    let mut l = L { spans: vec![], smap: HashMap::new() };
    let mut tys = vec![];
    for t in arr(&j["types"]) {
        let k = match t["k"].as_str().unwrap() {
            "bool" => TyK::Bool,
            "char" => TyK::Char,
            "int" => TyK::Int(us(&t["bits"]) as u8, t["signed"].as_bool().unwrap()),
            "float" => TyK::Float,
            "str" => TyK::Str,
            "never" => TyK::Never,
            "tuple" => TyK::Tuple(arr(&t["elems"]).iter().map(us).collect()),
            "array" => TyK::Array(us(&t["elem"]), t["len"].as_u64().unwrap()),
            "slice" => TyK::Slice(us(&t["elem"])),
            "ref" => TyK::Ref(us(&t["ty"]), t["mut"].as_bool().unwrap()),
            "ptr" => TyK::RawPtr(us(&t["ty"]), t["mut"].as_bool().unwrap()),
            "fnptr" => TyK::FnPtr,
            "fndef" => TyK::FnDef(Box::new(l.callee(&t["callee"]))),
            "closure" => TyK::Closure(arr(&t["upvars"]).iter().map(us).collect(), us(&t["inst"])),
            "dyn" => TyK::Dyn(s(&t["trait"])),
            "adt" => TyK::Adt {
                name: s(&t["name"]),
                is_enum: t["adt"] == "enum",
                is_union: t["adt"] == "union",
                local: t["local"].as_bool().unwrap(),
                args: arr(&t["args"]).iter().map(us).collect(),
                vars: arr(&t["variants"])
                    .iter()
                    .map(|v| Variant {
                        n: s(&v["n"]),
                        d: i(&v["d"]),
                        f: arr(&v["f"]).iter().map(|f| us(&f["t"])).collect(),
                        fnames: arr(&v["f"]).iter().map(|f| s(&f["n"])).collect(),
                    })
                    .collect(),
            },
            _ => TyK::Other,
        };
        tys.push(Ty { s: s(&t["s"]), k });
    }
    let mut insts = vec![];
    for x in arr(&j["insts"]) {
        let body = if x["body"].is_null() {
            None
        } else {
            let b = &x["body"];
            let mut blocks = vec![];
            for bl in arr(&b["blocks"]) {
                let mut st = vec![];
                for q in arr(&bl["st"]) {
                    st.push(match q["s"].as_str().unwrap() {
                        "=" => {
                            let p = l.place(&q["p"]);
                            let v = l.rv(&q["v"]);
                            let sp = l.sp(&q["sp"]);
                            St::Assign(p, v, sp)
                        }
                        "sd" => St::SetDiscr(l.place(&q["p"]), us(&q["v"])),
                        "dead" => St::Dead(us(&q["l"])),
                        "assume" => St::Assume(l.op(&q["o"])),
                        _ => St::Nop,
                    });
                }
                let t = &bl["tm"];
                let tm = match t["t"].as_str().unwrap() {
                    "goto" => Tm::Goto(us(&t["to"])),
                    "switch" => Tm::Switch { o: l.op(&t["o"]), ts: arr(&t["ts"]).iter().map(|x| (i(&x[0]), us(&x[1]))).collect(), els: us(&t["else"]) },
                    "ret" => Tm::Ret,
                    "unreachable" => Tm::Unreachable,
                    "drop" => Tm::Drop(l.place(&t["p"]), us(&t["ty"]), us(&t["to"])),
                    "call" => Tm::Call {
                        f: l.callee(&t["f"]),
                        a: arr(&t["a"]).iter().map(|x| l.op(x)).collect(),
                        at: arr(&t["at"]).iter().map(us).collect(),
                        d: l.place(&t["d"]),
                        to: t["to"].as_i64().filter(|x| *x >= 0).map(|x| x as usize),
                    },
                    "assert" => Tm::Assert { o: l.op(&t["o"]), exp: t["exp"].as_bool().unwrap(), k: s(&t["k"]), os: arr(&t["os"]).iter().map(|x| l.op(x)).collect(), to: us(&t["to"]) },
                    _ => Tm::Other,
                };
                blocks.push(Block { st, tm, sp: l.sp(&bl["sp"]), cleanup: bl["cleanup"].as_bool().unwrap() });
            }
            let cfg = cfg(&blocks);
            let nl = arr(&b["locals"]).len();
            let locals: Vec<TyId> = arr(&b["locals"]).iter().map(us).collect();
            let names: HashMap<usize, String> = arr(&b["names"]).iter().map(|x| (us(&x[0]), s(&x[1]))).collect();
            let mut flags: Vec<bool> = (0..nl).map(|k| matches!(tys[locals[k]].k, TyK::Bool) && !names.contains_key(&k)).collect();
            flags[0] = false;
            mark_flags(&blocks, &mut flags);
            Some(Body { args: us(&b["args"]), spread: b["spread"].as_i64().unwrap(), locals, names, blocks, cfg, flags })
        };
        insts.push(Inst {
            id: us(&x["id"]),
            path: s(&x["path"]),
            name: s(&x["name"]),
            full: s(&x["full"]),
            local: x["local"].as_bool().unwrap(),
            kind: s(&x["kind"]),
            args: arr(&x["args"]).iter().map(us).collect(),
            tr: s(&x["trait"]),
            implof: s(&x["implof"]),
            selfty: x["self"].as_i64().unwrap(),
            features: arr(&x["features"]).iter().map(s).collect(),
            body,
        });
    }
    let mut statics = vec![];
    for x in arr(&j["statics"]) {
        let c = if x["v"].is_null() { None } else { Some(l.konst(&x["v"])) };
        statics.push((s(&x["path"]), c, us(&x["ty"])));
    }
    let mut vt = HashMap::new();
    for v in arr(&j["vtables"]) {
        let m: HashMap<String, InstId> = arr(&v["m"]).iter().map(|x| (s(&x[0]), us(&x[1]))).collect();
        vt.insert((us(&v["ty"]), us(&v["dyn"])), m);
    }
    Prog { roots: arr(&j["roots"]).iter().map(|x| (s(&x[0]), us(&x[1]))).collect(), tys, insts, statics, vt, spans: l.spans }
}

fn mark_flags(bs: &[Block], f: &mut [bool]) {
    fn op(o: &Op, f: &mut [bool]) {
        if let Op::Copy(p) | Op::Move(p) = o {
            f[p.l] = false;
            for e in &p.p {
                if let Proj::Index(i) = e {
                    f[*i] = false;
                }
            }
        }
    }
    for b in bs {
        for s in &b.st {
            if let St::Assign(p, r, _) = s {
                match r {
                    Rv::Use(Op::Const(_)) => {}
                    Rv::Use(o) | Rv::Repeat(o, _) | Rv::Cast { o, .. } | Rv::Un(_, o, _) => {
                        op(o, f);
                        f[p.l] = false;
                    }
                    Rv::Bin(_, a, b, _) => {
                        op(a, f);
                        op(b, f);
                        f[p.l] = false;
                    }
                    Rv::Ref(q) | Rv::Discr(q, _) => {
                        f[q.l] = false;
                        f[p.l] = false;
                    }
                    Rv::Agg { os, .. } => {
                        for o in os {
                            op(o, f);
                        }
                        f[p.l] = false;
                    }
                    Rv::Other => f[p.l] = false,
                }
            }
        }
        match &b.tm {
            Tm::Call { a, d, .. } => {
                for o in a {
                    op(o, f);
                }
                f[d.l] = false;
            }
            Tm::Assert { o, os, .. } => {
                op(o, f);
                for o in os {
                    op(o, f);
                }
            }
            Tm::Drop(p, ..) => f[p.l] = false,
            _ => {}
        }
    }
}

pub fn succs(t: &Tm) -> Vec<usize> {
    match t {
        Tm::Goto(x) | Tm::Drop(_, _, x) | Tm::Assert { to: x, .. } => vec![*x],
        Tm::Switch { ts, els, .. } => {
            let mut v: Vec<usize> = ts.iter().map(|x| x.1).collect();
            v.push(*els);
            v.sort();
            v.dedup();
            v
        }
        Tm::Call { to: Some(x), .. } => vec![*x],
        _ => vec![],
    }
}

fn cfg(bs: &[Block]) -> Cfg {
    let n = bs.len();
    let mut seen = vec![false; n];
    let mut post = vec![];
    let mut st: Vec<(usize, usize)> = vec![(0, 0)];
    seen[0] = true;
    let sc: Vec<Vec<usize>> = bs.iter().map(|b| succs(&b.tm)).collect();
    while let Some((b, k)) = st.pop() {
        if k < sc[b].len() {
            st.push((b, k + 1));
            let t = sc[b][k];
            if !seen[t] {
                seen[t] = true;
                st.push((t, 0));
            }
        } else {
            post.push(b);
        }
    }
    let rpo: Vec<usize> = post.into_iter().rev().collect();
    let mut num = vec![usize::MAX; n];
    for (i, &b) in rpo.iter().enumerate() {
        num[b] = i;
    }
    let mut preds = vec![vec![]; n];
    for &b in &rpo {
        for &t in &sc[b] {
            preds[t].push(b);
        }
    }
    let mut idom = vec![usize::MAX; n];
    idom[0] = 0;
    let mut ch = true;
    while ch {
        ch = false;
        for &b in rpo.iter().skip(1) {
            let mut x = usize::MAX;
            for &p in &preds[b] {
                if idom[p] == usize::MAX {
                    continue;
                }
                x = if x == usize::MAX {
                    p
                } else {
                    let (mut a, mut c) = (x, p);
                    while a != c {
                        while num[a] > num[c] {
                            a = idom[a];
                        }
                        while num[c] > num[a] {
                            c = idom[c];
                        }
                    }
                    a
                };
            }
            if x != idom[b] {
                idom[b] = x;
                ch = true;
            }
        }
    }
    let dom = |a: usize, mut b: usize| -> bool {
        loop {
            if a == b {
                return true;
            }
            if b == 0 || idom[b] == usize::MAX {
                return false;
            }
            b = idom[b];
        }
    };
    let mut loops: Vec<Loop> = vec![];
    let mut latches: HashMap<usize, Vec<usize>> = HashMap::new();
    for &b in &rpo {
        for &t in &sc[b] {
            if dom(t, b) {
                latches.entry(t).or_default().push(b);
            }
        }
    }
    let mut heads: Vec<usize> = latches.keys().cloned().collect();
    heads.sort_by_key(|h| num[*h]);
    for h in heads {
        let mut body = vec![false; n];
        body[h] = true;
        let mut st = latches[&h].clone();
        while let Some(b) = st.pop() {
            if !body[b] {
                body[b] = true;
                st.extend(preds[b].iter().cloned());
            }
        }
        let ctrl: Vec<usize> = rpo
            .iter()
            .cloned()
            .filter(|&b| body[b] && sc[b].iter().any(|t| !body[*t]) && latches[&h].iter().all(|&l| dom(b, l)))
            .filter(|&b| matches!(bs[b].tm, Tm::Switch { .. }))
            .collect();
        loops.push(Loop { head: h, body, parent: None, ctrl });
    }
    let m = loops.len();
    let size = |l: &Loop| l.body.iter().filter(|x| **x).count();
    for i in 0..m {
        let mut best: Option<usize> = None;
        for j in 0..m {
            if i != j && loops[j].body[loops[i].head] && loops[j].head != loops[i].head {
                if best.map_or(true, |b| size(&loops[j]) < size(&loops[b])) {
                    best = Some(j);
                }
            }
        }
        loops[i].parent = best;
    }
    let mut inner = vec![None; n];
    for b in 0..n {
        let mut best: Option<usize> = None;
        for j in 0..m {
            if loops[j].body[b] && best.map_or(true, |x| size(&loops[j]) < size(&loops[x])) {
                best = Some(j);
            }
        }
        inner[b] = best;
    }
    Cfg { rpo, idom, inner, loops }
}
