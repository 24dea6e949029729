"""Facts over the MIR dump: call graph, CFG helpers."""


import re


def norm_sig(s):
    s = re.sub(r"for<[^>]*>\s*", "", s)
    s = re.sub(r"'\w+\s*", "", s)
    return s.replace("unsafe ", "")


class Prog:
    def __init__(self, d):
        self.d = d
        self.T = d["types"]
        self.I = d["insts"]
        self.addr_taken = {}
        self.vt = {}
        for v in d["vtables"]:
            for n, i in v["m"]:
                self.vt.setdefault((self.T[v["dyn"]].get("trait"), n), set()).add(i)
        for i in self.I:
            for b, s in stmts(i):
                r = s["v"]
                if r["r"] == "cast" and r.get("inst", -1) >= 0 and r["k"] in ("ReifyFnPointer", "ClosureFnPointer"):
                    self.addr_taken.setdefault(r["inst"], set()).add(norm_sig(self.T[r["to"]]["s"]))
        self.edges = {i["id"]: self._edges(i) for i in self.I}

    def tname(self, t):
        return self.T[t]["s"]

    def deep_types(self, t, seen=None, through_ptr=True):
        seen = seen if seen is not None else set()
        if t in seen:
            return seen
        seen.add(t)
        ty = self.T[t]
        subs = []
        k = ty["k"]
        if k == "tuple":
            subs = ty["elems"]
        elif k in ("array", "slice"):
            subs = [ty["elem"]]
        elif k in ("ref", "ptr"):
            subs = [ty["ty"]] if through_ptr else []
        elif k == "closure":
            subs = ty["upvars"]
        elif k == "adt":
            subs = list(ty["args"]) + ([f["t"] for v in ty["variants"] for f in v["f"]] if ty["local"] else [])
        for s in subs:
            self.deep_types(s, seen, through_ptr)
        return seen

    def callee_targets(self, f, site=None):
        """instances a callee description may reach"""
        if "inst" in f:
            return {f["inst"]}
        if "virtual" in f:
            tr = f["decl"].rsplit("::", 1)[0]
            out = set()
            for (t, n), s in self.vt.items():
                if n == f["name"] and t and t.split("::")[-1] == tr.split("::")[-1]:
                    out |= s
            return out
        if "ptr" in f:
            # function pointer: every function whose address is taken at that signature
            t = None
            for k in ("c", "m"):
                if k in f["ptr"] and site is not None:
                    pl = f["ptr"][k]
                    t = site["body"]["locals"][pl["l"]]
                    for e in pl["p"]:
                        if isinstance(e, dict) and "t" in e:
                            t = e["t"]
                        elif e == "*" and self.T[t]["k"] in ("ref", "ptr"):
                            t = self.T[t]["ty"]
            if "k" in f["ptr"] and f["ptr"]["k"].get("k") == "fnptr":
                return {f["ptr"]["k"]["inst"]}
            if t is None or self.T[t]["k"] != "fnptr":
                return set(self.addr_taken)
            sig = norm_sig(self.T[t]["s"])
            return {x for x, s in self.addr_taken.items() if sig in s}
        return set()

    def type_callables(self, t):
        """closures / fn items / trait impls that code given a value of type t may call"""
        out = set()
        for x in self.deep_types(t):
            ty = self.T[x]
            if ty["k"] == "closure":
                out.add(ty["inst"])
            elif ty["k"] == "fndef" and "inst" in ty["callee"]:
                out.add(ty["callee"]["inst"])
        return out

    def _edges(self, i):
        out = {}
        for b, t in terms(i):
            if t["t"] == "call":
                tg = set(self.callee_targets(t["f"], i))
                bodiless = [x for x in tg if not self.I[x]["body"]]
                if bodiless or "inst" not in t["f"]:
                    for a in t["at"]:
                        tg |= self.type_callables(a)
                for x in bodiless:
                    for a in self.I[x]["args"]:
                        tg |= self.type_callables(a)
                for x in tg:
                    out.setdefault(x, b)
        return out

    def calls(self, i):
        """(block, terminator, set of target instances)"""
        for b, t in terms(i):
            if t["t"] == "call":
                yield b, t, self.callee_targets(t["f"], i)

    def reach(self, roots):
        seen = set(roots)
        st = list(roots)
        while st:
            x = st.pop()
            for y in self.edges.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    def is_harness(self, i):
        return i["path"].startswith("__verif") or "__verif::" in i["path"]

    def locals_(self):
        """instances of functions of the analysed crate (without the harness)"""
        return [i for i in self.I if i["local"] and i["body"] and not self.is_harness(i)]


def stmts(i):
    if i and i["body"]:
        for n, b in enumerate(i["body"]["blocks"]):
            if not b["cleanup"]:
                for s in b["st"]:
                    if s["s"] == "=":
                        yield n, s


def terms(i):
    if i and i["body"]:
        for n, b in enumerate(i["body"]["blocks"]):
            if not b["cleanup"]:
                yield n, b["tm"]


def succs(t):
    k = t["t"]
    if k == "switch":
        o = t["o"]
        if "k" in o and o["k"]["k"] == "i":  # constant condition
            for v, b in t["ts"]:
                if v == o["k"]["v"]:
                    return [b]
            return [t["else"]]
        return [b for _, b in t["ts"]] + [t["else"]]
    if k in ("goto", "drop", "assert"):
        return [t["to"]]
    if k == "call":
        return [t["to"]] if t["to"] >= 0 else []
    return []


def where(i, b):
    return "%s (%s)" % (i["path"], i["body"]["blocks"][b]["sp"])


def op_local(o):
    for k in ("c", "m"):
        if k in o:
            return o[k]["l"], o[k]["p"]
    return None, None


def sccs(nodes, edges):
    """Tarjan, iterative; returns components that contain a cycle"""
    idx, low, on, st, out = {}, {}, set(), [], []
    c = [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(edges(r)))]
        idx[r] = low[r] = c[0]; c[0] += 1
        st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]; c[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(edges(w))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop(); on.discard(w); comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in list(edges(v)):
                    out.append(comp)
    return out
