mod dom;
mod interp;
mod ir;
mod natives;
mod num;
mod pc;
mod state;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

/// usage: jpegai DUMP OUT [--merge] [--nd N] [--const N] [--cap N] [--steps N] [--debug] ROOT...
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(move || run(a)).unwrap();
    match h.join() {
        Ok(c) => std::process::exit(c),
        Err(_) => std::process::exit(3),
    }
}
fn run(a: Vec<String>) -> i32 {
    let prog: &'static ir::Prog = Box::leak(Box::new(ir::load(&a[1])));
    let out = a[2].clone();
    let mut roots = vec![];
    let mut it = interp::Interp::new(prog);
    let mut k = 3;
    let num = |k: usize| a[k].parse::<u64>().unwrap();
    while k < a.len() {
        match a[k].as_str() {
            "--merge" => it.cfg.merge = true,
            "--nd" => {
                k += 1;
                it.cfg.nd_unroll = num(k) as usize;
            }
            "--const" => {
                k += 1;
                it.cfg.const_unroll = num(k) as usize;
            }
            "--cap" => {
                k += 1;
                it.cfg.cap = num(k) as usize;
            }
            "--steps" => {
                k += 1;
                it.cfg.max_steps = num(k);
            }
            "--debug" => it.debug = true,
            r => roots.push(r.to_string()),
        }
        k += 1;
    }
    let mut missing = vec![];
    let mut per: BTreeMap<String, J> = BTreeMap::new();
    // fn: every function of the crate that needs a CPU feature, on arbitrary arguments
    if let Some(k) = roots.iter().position(|r| r == "fn:features") {
        roots.remove(k);
        for (i, f) in prog.insts.iter().enumerate() {
            if f.local && !f.features.is_empty() && f.body.is_some() && !f.path.starts_with("__verif") {
                let s0 = it.steps;
                it.run_fn(&f.path, i);
                per.insert(f.path.clone(), json!({"steps": it.steps - s0, "aborted": it.aborted, "returns": it.returns}));
            }
        }
    }
    for r in &roots {
        match prog.roots.iter().find(|x| &x.0 == r) {
            Some((_, i)) => {
                let t = std::time::Instant::now();
                let s0 = it.steps;
                it.run_root(r, *i);
                per.insert(r.clone(), json!({"steps": it.steps - s0, "ms": t.elapsed().as_millis() as u64, "aborted": it.aborted, "returns": it.returns}));
                if it.aborted {
                    break;
                }
            }
            None => missing.push(r.clone()),
        }
    }
    let al: Vec<J> = it
        .alarms
        .values()
        .map(|x| json!({"kind": x.kind, "func": x.func, "span": x.span, "detail": x.detail, "trail": x.trail, "sites": x.sites, "root": x.root}))
        .collect();
    let ob: Vec<J> = it
        .obl
        .iter()
        .map(|((k, i, sp), o)| json!({"kind": k, "func": prog.insts[*i].path, "local": prog.insts[*i].local, "span": prog.spans[*sp as usize], "proven": o.proven, "undecided": o.undecided, "violated": o.violated}))
        .collect();
    let fns: Vec<String> = it.fns.iter().filter(|i| prog.insts[**i].local).map(|i| prog.insts[*i].path.clone()).collect();
    let mut prof: Vec<(u64, String)> = it.profile.iter().map(|(i, n)| (*n, prog.insts[*i].full.clone())).collect();
    prof.sort();
    prof.reverse();
    prof.truncate(25);
    let j = json!({"alarms": al, "obligations": ob, "reached": it.reached, "unknown": it.unknown, "functions": fns, "roots": per, "missing": missing, "aborted": it.aborted,
        "steps": it.steps, "widened": it.widened, "unrolled": it.unrolled, "symbols": dom::nsyms(), "profile": prof, "tops": it.tops});
    std::fs::write(&out, serde_json::to_string(&j).unwrap()).unwrap();
    if it.aborted || !missing.is_empty() { 4 } else { 0 }
}
