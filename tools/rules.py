"""Structural rules decided on the type-checked program (MIR facts of every feature configuration)."""
import os, re, sys
import glue
from mir import *

ALL = ["rayon", "norayon", "portable"]


def progs(configs=ALL):
    for c in configs:
        yield c, Prog(glue.load(c))


def floor(name, n, least):
    if n < least:
        raise glue.ToolError("%s: only %d analysed, expected at least %d (anchor lost)" % (name, n, least))


def strip(p):
    return re.sub(r"<.*>", "", p)


# ---------------------------------------------------------------- C16
def c16(tier):
    v, cov = [], {"explanation": "Strongly connected components of the whole-program call graph (direct, virtual, function-pointer and closure calls, callbacks through std, monomorphised from every public method) and of the ownership graph of the crate's types (recursive drop)."}
    for c, p in progs():
        ids = [i["id"] for i in p.I if i]
        comps = sccs(ids, lambda x: p.edges.get(x, ()))
        loc = [i for i in p.locals_()]
        floor("functions", len(loc), 80)
        for comp in comps:
            l = [x for x in comp if p.I[x]["local"] and not p.is_harness(p.I[x])]
            if l:
                names = sorted({p.I[x]["path"] for x in l})
                i = p.I[l[0]]
                nxt = [y for y in p.edges[l[0]] if y in comp]
                v.append(("recursion:" + names[0], "call cycle [%s] through %s: stack depth is not bounded" % (", ".join(names), where(i, p.edges[l[0]][nxt[0]]))))
        # types owning themselves: recursive drop glue
        def tedges(t):
            ty = p.T[t]
            if ty["k"] == "adt":
                return [x for x in list(ty["args"]) + [f["t"] for va in ty["variants"] for f in va["f"]]]
            if ty["k"] in ("tuple",):
                return ty["elems"]
            if ty["k"] in ("array", "slice"):
                return [ty["elem"]]
            if ty["k"] == "closure":
                return ty["upvars"]
            return []
        tc = sccs(range(len(p.T)), tedges)
        for comp in tc:
            l = sorted(p.T[t]["name"] for t in comp if p.T[t]["k"] == "adt" and p.T[t]["local"])
            if l:
                v.append(("recursive-type:" + l[0], "type %s owns itself: dropping it recurses without bound" % l[0]))
        cov[c + "_functions"] = len(loc)
        cov[c + "_call_edges"] = sum(len(e) for e in p.edges.values())
        cov[c + "_types"] = len(p.T)
    return v, cov


# ---------------------------------------------------------------- C17
BAN17 = [
    (r"^std::time::|^core::time::.*now|::Instant::now|::SystemTime::", "clock"),
    (r"^std::env::|^std::process::|^std::fs::|^std::net::|^std::os::", "environment"),
    (r"RandomState|DefaultHasher::new|^rand", "randomness"),
    (r"(hash_map|hash_set|HashMap|HashSet).*::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|into_iter|extract_if|next)$", "hash order"),
    (r"^std::thread::(current|available_parallelism|park|sleep|yield_now)|^std::thread::Thread::id|^rayon::(current_num_threads|current_thread_index|max_num_threads)", "thread identity or machine size"),
    (r"::addr$|::expose_provenance$|::expose_addr$|fmt::Pointer|::as_ptr_range$", "address"),
    (r"Vec::<.*>::set_len$|::set_len$|::assume_init(_ref|_mut|_read)?$|^std::mem::uninitialized|^std::ptr::read_volatile", "uninitialised memory"),
    (r"^std::thread::LocalKey|^std::thread::local_impl|::LocalKey::<", "thread-local state"),
]
ONCE = re.compile(r"(OnceLock|OnceCell|LazyLock|LazyCell|Once)\b")


def c17(tier):
    v, cov = [], {"explanation": "Who-may-call rule over every callee of every function reachable from the public API (clock, environment, randomness, hash order, thread identity, addresses, uninitialised memory, thread-locals), plus an effect rule on statics: no mutable or interior-mutable static, except a once-initialised one whose initialiser captures nothing."}
    ncall = nstat = 0
    for c, p in progs():
        reach = [i for i in p.I if i and not p.is_harness(i)]
        floor("functions", len(p.locals_()), 80)
        for i in reach:
            if not i["body"]:
                continue
            for b, t, tg in p.calls(i):
                ncall += 1
                names = {p.I[x]["path"] for x in tg if "inst" in t["f"]} | {t["f"].get("decl", "")}
                for n in names:
                    if i["local"] and "box_assume_init_into_vec" not in n:
                        for pat, why in BAN17:
                            if re.search(pat, n):
                                v.append(("%s:%s:%s" % (why.replace(" ", "-"), i["path"], n), "%s calls %s: the result can depend on %s" % (where(i, b), n, why)))
            if i["local"]:
                for b, s in stmts(i):
                    r = s["v"]
                    if r["r"] == "cast" and (r["k"] == "PointerExposeProvenance" or (r["k"] == "Transmute" and p.T[r["from"]]["k"] in ("ref", "ptr", "fnptr") and p.T[r["to"]]["k"] == "int")):
                        v.append(("address:" + i["path"], "%s turns an address into an integer (%s)" % (where(i, b), s["sp"])))
        for st in p.d["statics"]:
            if not st["local"]:
                continue
            nstat += 1
            ty = p.T[st["ty"]]
            if st["mut"]:
                v.append(("static-mut:" + st["path"], "static mut %s is process-wide mutable state" % st["path"]))
            elif ty["interior"]:
                ok = bool(ONCE.search(ty["s"]))
                if ok:
                    # inner value must itself be immutable, and every initialiser must capture nothing
                    if re.search(r"Mutex|RwLock|Atomic|RefCell|\bCell\b", ty["s"]):
                        ok = False
                    for i in p.I:
                        if i and i["body"]:
                            for b, t, tg in p.calls(i):
                                for x in tg:
                                    if ONCE.search(p.I[x]["path"]) and re.search(r"::(get_or_init|get_or_try_init|set|get_mut|take|try_insert|call_once)$", p.I[x]["path"]):
                                        caps = [p.T[a] for a in t["at"] if p.T[a]["k"] == "closure"]
                                        if not caps or any(k["upvars"] for k in caps):
                                            ok = False
                if not ok:
                    v.append(("static:" + st["path"], "static %s: %s has interior mutability: state shared between decoder instances" % (st["path"], ty["s"])))
        cov[c + "_functions"] = len(p.locals_())
    cov["call_sites"] = ncall
    cov["statics"] = nstat
    floor("call sites", ncall, 1000)
    return v, cov


# ---------------------------------------------------------------- C09
def c09(tier):
    v, cov = [], {"explanation": "Typestate/who-may-call rule on every call of an std::io::Read method on the decoder's reader: only operations that deliver exactly the bytes asked for (read_exact) or that std itself drives to completion with retry (bytes, take + copy/read_to_end) are allowed; a direct read() must be in a loop that handles Interrupted."}
    ok_m = {"read_exact", "by_ref", "take", "bytes", "read_to_end", "read_to_string", "chain"}
    sites = 0
    for c, p in progs():
        n = 0
        for i in p.locals_():
            for b, t in terms(i):
                if t["t"] != "call":
                    continue
                decl = t["f"].get("decl", "")
                if not re.match(r"(std|core)::io::(Read|BufRead|Seek)::", decl):
                    continue
                selfty = p.T[t["f"]["args"][0]]["s"] if t["f"].get("args") else ""
                if "__verif" not in selfty:
                    continue
                n += 1
                m = decl.split("::")[-1]
                if m in ok_m:
                    continue
                # a read() loop that treats Interrupted as retry is acceptable
                retry = any("std::io::Error::kind" in (p.I[x]["path"]) for _, _, tg in p.calls(i) for x in tg)
                loop = any(b in comp for comp in sccs(range(len(i["body"]["blocks"])), lambda x: succs(i["body"]["blocks"][x]["tm"])))
                if m == "read" and retry and loop:
                    continue
                v.append(("reader:%s:%s" % (i["path"], m), "%s calls %s on the reader: a short or interrupted read would change the result" % (where(i, b), decl)))
            # wrapping the reader in something that reads ahead
            for b, t, tg in p.calls(i):
                for x in tg:
                    path = p.I[x]["path"]
                    if "std::io::BufReader" in path and "__verif" in p.I[x]["full"]:
                        v.append(("reader:%s:BufReader" % i["path"], "%s wraps the reader in a BufReader, which reads ahead" % where(i, b)))
        floor("reader call sites (%s)" % c, n, 5)
        cov[c + "_reader_call_sites"] = n
    return v, cov


# ---------------------------------------------------------------- C18
SPAWN = re.compile(r"(std::thread::Builder::spawn|std::thread::spawn|std::thread::Scope.*::spawn|rayon::Scope.*::spawn|rayon::ScopeFifo.*::spawn|rayon::spawn|rayon::spawn_fifo|rayon::spawn_broadcast|rayon::scope|rayon::in_place_scope|rayon::join|rayon::iter::.*::(for_each|map|try_for_each|for_each_with|for_each_init|fold|reduce|filter_map|flat_map|inspect|update|filter|find_any|position_any|any|all)|rayon::ThreadPool.*)$")
SHARED = re.compile(r"\b(Mutex|RwLock|Atomic[A-Z]\w*|Cell|RefCell|UnsafeCell|OnceLock|OnceCell|Condvar|Barrier|SyncUnsafeCell)\b")
BAN18 = [
    (r"::try_recv$|::recv_timeout$|::recv_deadline$|::try_iter$|::try_send$|::try_lock$", "non-blocking or timed channel operation: the result depends on timing"),
    (r"rayon::(spawn|spawn_fifo|spawn_broadcast)$", "detached task: nothing waits for it before its result is used"),
    (r"::find_any$|::position_any$|::find_map_any$|::par_bridge$|::while_some$|::reduce_with$", "order-dependent parallel operation"),
    (r"Condvar|Barrier|std::thread::park|std::thread::sleep|std::thread::yield_now", "manual synchronisation: threads can wait for each other"),
]


def consumed_ok(p, i, b, t, allow):
    """the result written by call terminator t must be used by match/unwrap/expect/`?`; returns None or reason"""
    l = t["d"]["l"]
    if t["d"]["p"] or l == 0:
        return None  # stored or returned
    seen = {l}
    while True:
        grew = False
        for b2, s in stmts(i):
            r = s["v"]
            if r["r"] == "discr" and r["p"]["l"] in seen:
                return None
            for o in [r.get("o"), r.get("a"), r.get("b")] + r.get("os", []):
                if o:
                    ol, op = op_local(o)
                    if ol in seen:
                        if s["p"]["l"] == 0:
                            return None
                        if s["p"]["l"] not in seen:
                            seen.add(s["p"]["l"]); grew = True
            if r["r"] == "ref" and r["p"]["l"] in seen and s["p"]["l"] not in seen:
                seen.add(s["p"]["l"]); grew = True
        if not grew:
            break
    for b2, t2, tg in p.calls(i):
        if any(op_local(a)[0] in seen for a in t2["a"]):
            n = t2["f"].get("decl", "").split("::")[-1]
            if n in ("unwrap", "expect", "branch", "from_residual", "map_err", "is_err", "is_ok", "unwrap_err", "ok_or", "ok_or_else", "into", "from"):
                return None
            if n in ("ok", "unwrap_or_default", "unwrap_or", "unwrap_or_else", "map_or", "or", "or_else", "err", "iter", "into_iter"):
                return n
            return None
    return "dropped"


def c18(tier):
    v, cov = [], {"explanation": "Effect and typestate rules on every task given to another thread: no unsafe impl or unsafe code in the worker path, only moved or exclusively borrowed data captured, no timing-dependent or detached operation, every send/recv/spawn result handled, every reply channel taken from a request answered on every path, no sender kept while waiting for its own receiver."}
    tasks = chan = 0
    for c, p in progs():
        for u in p.d["unsafe_sites"]:
            if u["what"] == "unsafe impl":
                v.append(("unsafe-impl:" + u["fn"], "%s at %s overrides the compiler's thread-safety check" % (u["fn"], u["sp"])))
        ntask = 0
        entry = set()
        thread_entry = set()
        for i in p.locals_():
            for b, t, tg in p.calls(i):
                for x in tg:
                    path = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", p.I[x]["path"])).replace("::::", "::")
                    for pat, why in BAN18:
                        if re.search(pat, path) or re.search(pat, t["f"].get("decl", "")):
                            v.append(("%s:%s" % (path, i["path"]), "%s calls %s: %s" % (where(i, b), path, why)))
                    if SPAWN.search(path) or SPAWN.search(t["f"].get("decl", "")):
                        ntask += 1
                        caller_side = path.endswith("in_place_scope") or path.endswith("rayon::scope")
                        for a in t["at"]:
                            ty = p.T[a]
                            if ty["k"] == "closure":
                                if not caller_side:
                                    entry.add(ty["inst"])
                                    if "std::thread" in path:
                                        thread_entry.add(ty["inst"])
                                    for up in ty["upvars"]:
                                        for x2 in p.deep_types(up):
                                            s2 = p.T[x2]["s"]
                                            h = p.T[x2].get("name", "") if p.T[x2]["k"] == "adt" else ""
                                            if SHARED.search(h) and "mpsc" not in h and "mpmc" not in h:
                                                v.append(("shared:%s:%s" % (i["path"], h), "%s hands a task state shared through %s: its result can depend on the schedule" % (where(i, b), s2)))
                                            if p.T[x2]["k"] == "ptr":
                                                v.append(("rawptr:%s" % i["path"], "%s hands a task a raw pointer %s" % (where(i, b), s2)))
                                            if "rayon" in path and h.endswith("mpsc::Sender"):
                                                v.append(("gather:%s" % i["path"], "%s: parallel tasks send results through one channel: arrival order is not fixed" % where(i, b)))
                        # spawn results must be handled (std threads)
                        if path.startswith("std::thread::Builder::spawn"):
                            w = consumed_ok(p, i, b, t, ())
                            if w:
                                v.append(("spawn-result:%s" % i["path"], "%s: failure to start a thread is not reported (%s)" % (where(i, b), w)))
                        if path == "std::thread::spawn":
                            v.append(("spawn-panics:%s" % i["path"], "%s: thread::spawn panics instead of reporting failure to start" % where(i, b)))
        tasks += ntask
        floor("tasks (%s)" % c, ntask, 1)
        side = p.reach(entry)
        # unsafe code on task side, outside architecture kernels
        worker_mods = {i["path"] for x in side for i in [p.I[x]] if i["local"]}
        for i in p.locals_():
            on_thread = i["id"] in thread_entry
            for b, t, tg in p.calls(i):
                for x in tg:
                    path = p.I[x]["path"]
                    if re.search(r"mpsc::(Sender|SyncSender)::<.*>::send$", path):
                        chan += 1
                        w = consumed_ok(p, i, b, t, ())
                        if w and i["id"] not in side:
                            v.append(("send-result:%s" % i["path"], "%s: failure to reach a worker is not reported (%s)" % (where(i, b), w)))
                    if re.search(r"mpsc::Receiver::<.*>::recv$", path):
                        chan += 1
                        w = consumed_ok(p, i, b, t, ())
                        if w and i["id"] not in side:
                            v.append(("recv-result:%s" % i["path"], "%s: a lost worker is not reported (%s)" % (where(i, b), w)))
                        # sender of the same channel still owned here?
                        for b3, t3, tg3 in p.calls(i):
                            if any(re.search(r"mpsc::(sync_)?channel", p.I[y]["path"]) for y in tg3):
                                pass
            # every Sender taken out of a received message must be answered on every path
            if i["id"] in side:
                v += unanswered(p, i)
            v += kept_sender(p, i)
        cov[c + "_tasks"] = ntask
        cov[c + "_task_side_functions"] = len([1 for x in side if p.I[x]["local"]])
    cov["channel_operations"] = chan
    floor("channel operations", chan, 3)
    return v, cov


def unanswered(p, i):
    """a reply Sender moved out of a message must be sent on along every path before it is dropped"""
    out = []
    blocks = i["body"]["blocks"]
    for n, bl in enumerate(blocks):
        if bl["cleanup"]:
            continue
        for k, s in enumerate(bl["st"]):
            if s["s"] != "=" or s["v"]["r"] != "use":
                continue
            ol, op = op_local(s["v"]["o"])
            dst = s["p"]["l"]
            ty = p.T[i["body"]["locals"][dst]]
            if ol is None or ty["k"] != "adt" or not ty["name"].endswith("mpsc::Sender"):
                continue
            if not any(isinstance(e, dict) and "v" in e for e in op):
                continue
            # forward search: reach a drop / return / loop-back to this block without a send using dst
            seen, st = set(), [n]
            bad = None
            first = True
            while st and bad is None:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                t = blocks[x]["tm"]
                if t["t"] == "call":
                    tg = p.callee_targets(t["f"], i)
                    if any(re.search(r"mpsc::Sender::<.*>::send$", p.I[y]["path"]) for y in tg):
                        continue
                    # moved into another function: its responsibility
                    if any(op_local(a)[0] == dst and "m" in a for a in t["a"]):
                        continue
                if t["t"] == "ret" or (t["t"] == "drop" and t["p"]["l"] == dst):
                    bad = x
                    break
                st += succs(t)
            if bad is not None:
                out.append(("unanswered:%s" % i["path"], "%s takes a reply channel from a request and can drop it unanswered at %s: the requester loses its result" % (where(i, n), blocks[bad]["sp"])))
    return out


def kept_sender(p, i):
    """a function that creates a channel and waits on its receiver must have given its only sender away"""
    out = []
    blocks = i["body"]["blocks"]
    for n, t, tg in p.calls(i):
        if not any(re.search(r"std::sync::mpsc::(sync_)?channel$", re.sub(r"::<.*>$", "", p.I[y]["path"])) for y in tg):
            continue
        ch = t["d"]["l"]
        txs, rxs = set(), set()
        for b, s in stmts(i):
            if s["v"]["r"] == "use":
                ol, op = op_local(s["v"]["o"])
                if ol == ch and op and isinstance(op[0], dict) and "f" in op[0]:
                    (txs if op[0]["f"] == 0 else rxs).add(s["p"]["l"])
        # aliases of the receiver
        for _ in range(3):
            for b, s in stmts(i):
                if s["v"]["r"] in ("use", "agg", "ref"):
                    os = s["v"].get("os") or ([s["v"]["o"]] if "o" in s["v"] else [{"c": s["v"]["p"]}])
                    if any(op_local(o)[0] in rxs for o in os):
                        rxs.add(s["p"]["l"])
        waits = []
        for b2, t2, tg2 in p.calls(i):
            if any(op_local(a)[0] in rxs for a in t2["a"]):
                r = set(tg2)
                if any(re.search(r"::(recv|iter|into_iter)$", p.I[y]["path"]) for y in p.reach(r)):
                    waits.append(b2)
        if not waits:
            continue
        moved = set()
        for b, s in stmts(i):
            for o in s["v"].get("os", []) + [s["v"].get("o")]:
                if o and "m" in o and o["m"]["l"] in txs and not o["m"]["p"]:
                    moved.add(b)
        for b, t2 in terms(i):
            if t2["t"] == "call" and any("m" in a and a["m"]["l"] in txs for a in t2["a"]):
                moved.add(b)
            if t2["t"] == "drop" and t2["p"]["l"] in txs:
                moved.add(b)
        for w in waits:
            seen, st = set(), [n]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x == w:
                    out.append(("kept-sender:%s" % i["path"], "%s waits on a channel while still holding its sender: if the worker is gone it waits for ever" % where(i, w)))
                    break
                if x in moved and x != n:
                    continue
                if x in moved and x == n:
                    continue
                st += succs(blocks[x]["tm"])
    return out


# ---------------------------------------------------------------- C19
def c19(tier):
    v = []
    p = Prog(glue.load("portable"))
    arch = re.compile(r"(core|std)::arch::|core_arch|std_detect|__is_feature_detected")
    n = 0
    for u in p.d["unsafe_sites"]:
        v.append(("unsafe:%s" % u["fn"], "%s in %s (%s) is compiled into a platform_independent build" % (u["what"], u["fn"], u["sp"])))
    for f in p.d["fns"]:
        if f["unsafe"] and "__verif" not in f["path"]:
            v.append(("unsafe-fn:" + f["path"], "unsafe fn %s (%s) is compiled into a platform_independent build" % (f["path"], f["sp"])))
    for st in p.d["statics"]:
        if st["local"] and st["mut"]:
            v.append(("static-mut:" + st["path"], "static mut %s in a platform_independent build" % st["path"]))
    calls = 0
    for i in p.locals_():
        n += 1
        if i["features"]:
            v.append(("feature:" + i["path"], "%s requires CPU features %s in a platform_independent build" % (i["path"], i["features"])))
        for b, t, tg in p.calls(i):
            calls += 1
            for x in tg:
                if arch.search(p.I[x]["path"]):
                    v.append(("arch:%s:%s" % (i["path"], p.I[x]["path"]), "%s calls %s in a platform_independent build" % (where(i, b), p.I[x]["path"])))
    floor("functions", n, 80)
    import srccfg
    sites, found = srccfg.scan(os.path.join(glue.REPO, "src"), {"platform_independent"})
    for key, txt in found:
        v.append((key, txt))
    # positive control: without the feature the same rules must fire
    p2 = Prog(glue.load("norayon"))
    if not p2.d["unsafe_sites"] or not any(i["features"] for i in p2.locals_()):
        raise glue.ToolError("C19 positive control lost: the default configuration shows no unsafe or feature-gated code")
    return v, {"explanation": "The crate as compiled with platform_independent (type-checked MIR): no unsafe block/fn/impl/extern, no target_feature function, no call to core::arch or feature detection in any function; and over the source of every module, items whose cfg can hold with the feature on for some target contain no unsafe or arch path.",
               "functions": n, "call_sites": calls, "source_items_scanned": sites}


# ---------------------------------------------------------------- C26
def c26(tier):
    import shutil
    v, n = [], 0
    w = os.path.join(glue.tmp(), "witness")
    shutil.copytree(os.path.join(glue.VERIF, "harness", "witness"), w, ignore=shutil.ignore_patterns("target"))
    src = glue.scratch_crate("c26")
    t = open(os.path.join(w, "Cargo.toml")).read()
    t = re.sub(r'path = "[^"]*"', 'path = "%s"' % src, t)
    open(os.path.join(w, "Cargo.toml"), "w").write(t)
    lock = os.path.join(src, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, w)
    e = glue.env(CARGO_TARGET_DIR=os.path.join(glue.tmp(), "tgt-w"))

    def check(feats):
        rc, out = glue.run(["cargo", "check", "--offline", "--features", ",".join(feats)], cwd=w, env=e)
        return rc, out

    obligations = {"decoder_send": "Decoder<R>: Send for every R: Send", "decoder_sync": "Decoder<R>: Sync for every R: Sync", "plain": "public error and info types: Send + Sync + 'static"}
    for cfg, feats in (("rayon", ["rayon"]), ("norayon", []), ("portable", ["rayon", "platform_independent"])):
        rc, out = check(feats)
        n += len(obligations)
        if rc != 0:
            errs = re.findall(r"error\[(E\d+)\]: (.*)\n\s*--> (src/lib.rs:\d+)", out)
            if not errs or any(c != "E0277" for c, _, _ in errs):
                raise glue.ToolError("witness crate does not compile:\n" + out[-2000:])
            for c, m, at in errs:
                m = re.sub(r"`([^`]*)`", r"\1", m)
                note = re.search(r"required because it appears within the type `(Decoder[^`]*)`", out)
                v.append(("auto-trait:" + re.sub(r"\W+", "-", m), "configuration %s: %s (witness %s)" % (cfg, m, at)))
        for neg in ("neg_send", "neg_sync"):
            n += 1
            rc, out = check(feats + [neg])
            if rc == 0:
                v.append((neg, "configuration %s: Decoder<R> is %s even when R is not" % (cfg, neg[4:].capitalize())))
            elif "E0277" not in out and not v:
                raise glue.ToolError("negative witness failed for another reason:\n" + out[-2000:])
    for c, p in progs():
        for u in p.d["unsafe_sites"]:
            if u["what"] == "unsafe impl":
                v.append(("unsafe-impl:" + u["fn"], "unsafe impl at %s overrides the auto traits" % u["sp"]))
    return v, {"explanation": "Compile-time witnesses: a crate generic in the reader type R that type-checks iff the auto traits hold for every R, with compile-fail twins (E0277) for the other direction; plus absence of unsafe impls.", "obligations": n, "discharged": n - len(v)}


CHECKS = {"C09": c09, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C26": c26}
