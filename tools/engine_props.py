"""Properties decided by the abstract interpreter (analyzer/engine) over harness roots.

Each root of harness/verif.rs is an abstract environment (a symbolic stream, a sequence of public calls and the
obligations the property puts on their results). The engine interprets the MIR of /repo's current source from that
root, over the linear/interval domain with disjunctive partitions, and decides every obligation it meets."""
import concurrent.futures as cf, json, os, re, subprocess
import glue

# property -> (root prefixes, feature configuration)
TABLE = {
    "C04": [("root_sof_", "rayon")],
    "C05": [("root_sos_", "rayon")],
    "C06": [("root_sof_", "rayon"), ("root_ratio_", "rayon")],
    "C07": [("root_dqt_", "rayon"), ("root_dht_", "rayon"), ("root_dri", "rayon")],
    "C08": [("root_fault_", "rayon")],
    "C10": [("root_app_", "rayon")],
    "C11": [("root_pos_", "rayon")],
    "C12": [("root_rst_", "rayon"), ("root_reset_", "portable")],
    "C13": [("root_limit_", "rayon")],
    "C14": [("root_width_", "rayon")],
    "C20": [("fn:features", "rayon"), ("root_limit_c0", "rayon"), ("root_limit_c1", "rayon"), ("root_limit_c2", "rayon"), ("root_width_1_dct", "norayon"), ("root_width_3_dct", "norayon"), ("root_width_4_dct", "norayon")],
    "C21": [("root_zigzag_", "portable"), ("root_default_", "portable"), ("root_marker_", "portable")],
    "C22": [("root_colour_", "portable")],
    "C23": [("root_colour_", "portable")],
    "C24": [("root_exif_", "rayon")],
    "C25": [("root_icc_", "rayon")],
    "C27": [("root_tables_", "portable"), ("root_mjpeg_", "portable")],
    "C28": [("root_scans_", "portable")],
    "C29": [("root_pos_", "rayon")],
    "C33": [("root_work_", "portable"), ("root_work_", "plain")],
    "C34": [("root_geo_", "portable"), ("root_lossless_", "portable"), ("root_limit_", "rayon")],
    "C35": [("root_prog_", "portable")],
    "C36": [("root_geo_", "portable")],
    "C37": [("root_lossless_", "portable")],
    "C30": [("root_scale_", "rayon"), ("root_sof_", "rayon")],
}
# arbitrary entropy-coded data (widened), enumerated symbols, code lengths and extreme dimensions, and every header root
_CRASH = [("root_ent_", "portable"), ("root_walk_", "portable"), ("root_refine_", "portable"), ("root_sum_", "portable"),
          ("root_len_", "portable"), ("root_huge_", "portable"), ("root_scans_", "portable"), ("root_tables_", "portable"),
          ("root_colour_3_set", "portable"), ("root_colour_4_set", "portable"), ("root_reset_", "portable"),
          ("root_sof_c0", "rayon"), ("root_sof_c3_1", "rayon"), ("root_ratio_", "rayon"), ("root_sos_c0_31", "rayon"), ("root_sos_c2_11", "rayon"),
          ("root_sos_c3_11", "rayon"), ("root_dqt_", "rayon"), ("root_dht_", "rayon"), ("root_dri", "rayon"), ("root_app_", "rayon"),
          ("root_exif_", "rayon"), ("root_icc_", "rayon"), ("root_rst_", "rayon"), ("root_scale_", "rayon"), ("root_width_", "rayon"),
          ("root_limit_", "rayon"), ("root_pos_", "rayon"),
          ("root_geo_any_", "portable"), ("root_lossless_", "portable"), ("root_zigzag_seq", "portable"), ("root_end_", "portable"), ("root_fill_", "portable")]
# loops over dimensions only are left to the thorough tier of C01-C03
TABLE["C15"] = [x for x in _CRASH if x[0] not in ("root_huge_", "root_geo_any_", "root_colour_3_set", "root_colour_4_set", "root_width_", "root_limit_", "root_zigzag_seq")] + [("root_fault_", "rayon")]
TABLE["C01"] = TABLE["C02"] = TABLE["C03"] = _CRASH
# alarm kinds that belong to the crash-freedom properties, collected from every root
CRASH = {"C01": ("overflow", "div0", "rem0"), "C02": ("panic",), "C03": ("bounds",)}
# root prefix -> extra engine options: unrollings of a loop over symbolic data before it is widened, and of any loop
OPTS = {"fn:features": ["--nd", "2"], "root_ent_": ["--nd", "1"], "root_huge_": ["--const", "70000", "--steps", "200000000"], "root_prog_": ["--const", "3000"], "root_work_": ["--const", "20000"], "root_geo_": ["--const", "20000", "--steps", "200000000"]}
BUDGET = {"root_sos_c1_44": 20000}  # witness-search effort per obligation (default 4000)
SLOW = ()        # roots run in the thorough tier only
TIMEOUT = {"quick": 150, "thorough": 400}
JOBS = 7
TECH = "abstract interpretation of MIR (linear/interval domain, path-sensitive disjunctive partitions) from symbolic-environment roots"
NOTE = ("decides every obligation of the listed roots for all values of their symbolic inputs (segment shapes and counts are enumerated, see DESIGN.md); "
        "loops over symbolic bounds are widened; an alarm needs a concrete falsifying assignment of the path condition; undecided obligations are reported as such in the evidence")
CLAIMED = {}


def roots_of(prefix):
    if prefix.startswith("fn:"):
        return [prefix]
    src = open(os.path.join(glue.VERIF, "harness", "verif.rs")).read()
    return [r for r in re.findall(r"pub fn (root\w+)\(\)", src) if r.startswith(prefix)]


def source_line(span):
    """text of the obligation at a span of the harness"""
    m = re.match(r"src/__verif.rs:(\d+)", span)
    if not m:
        return span
    return open(os.path.join(glue.VERIF, "harness", "verif.rs")).read().split("\n")[int(m.group(1)) - 1].strip()


def relevant(pid, kind):
    if pid == "C15":
        return kind == "loop"
    if pid == "C20":
        return kind in ("raw", "gate")
    if pid in CRASH:
        return any(kind.startswith(k) for k in CRASH[pid])
    return kind == "check:" + pid or kind.startswith("check:" + pid + "-")


def run_root(eng, dump, cfg, r, timeout):
    o = os.path.join(glue.tmp(), "o.%s.%s.json" % (cfg, r))
    e = dict(os.environ)
    e["JPEGAI_BUDGET"] = str(BUDGET.get(r, 4000))
    try:
        p = subprocess.run([eng, dump, o] + ([] if r.startswith("fn:") else ["--merge"]) + sum((x for k, x in OPTS.items() if r.startswith(k)), []) + [r], timeout=timeout, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired:
        return None, "time limit"
    if not os.path.exists(o):
        return None, "engine status %d: %s" % (p.returncode, p.stdout[-300:])
    j = json.load(open(o))
    os.remove(o)
    if j["missing"]:
        raise glue.ToolError("root %s is not in the dump" % r)
    return j, "step limit" if j["aborted"] else None


def check(pid, tier):
    entries = TABLE[pid]
    eng = glue.build("engine", True)
    jobs, dumps = [], {}
    for prefix, cfg in entries:
        if cfg not in dumps:
            dumps[cfg] = glue.dump(cfg)
        for r in roots_of(prefix):
            if (r in SLOW and tier == "quick") or (r, cfg) in jobs:
                continue
            jobs.append((r, cfg))
    viol, notes, ob, fns, reached, per = [], [], {"proven": 0, "undecided": 0, "violated": 0}, set(), set(), {}
    undec, sites, steps = [], set(), 0
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda x: (x, run_root(eng, dumps[x[1]], x[1], x[0], TIMEOUT.get(tier, 150))), jobs))
    done = 0
    for (r, cfg), (j, err) in res:
        if err:
            notes.append("%s (%s): %s" % (r, cfg, err))
        if j is None:
            continue
        if not err:
            done += 1
        steps += j["steps"]
        fns.update(j["functions"])
        reached.update(j["reached"])
        mine = {"proven": 0, "undecided": 0, "violated": 0}
        for o in j["obligations"]:
            if not relevant(pid, o["kind"]):
                continue
            if pid in CRASH and not o["local"]:
                pass
            sites.add((o["kind"], o["func"], o["span"]))
            for k in mine:
                mine[k] += o[k]
            if o["undecided"]:
                undec.append("%s: %s at %s in %s (%d paths)" % (r, o["kind"], o["span"], o["func"], o["undecided"]))
        for k in mine:
            ob[k] += mine[k]
        per[r + ("" if cfg == "rayon" else "@" + cfg)] = mine
        for a in j["alarms"]:
            if not relevant(pid, a["kind"]):
                continue
            if pid in CRASH or pid in ("C15", "C20"):
                key = "%s@%s" % (a["kind"], a["func"])
            else:
                key = "%s@%s" % (a["kind"], r)
            if pid in CRASH or pid in ("C15", "C20"):
                msg = "%s at %s in %s" % (a["kind"], a["span"], a["func"])
            else:
                msg = "obligation `%s` refuted" % source_line(a["span"])
            dec = [t for t in a["trail"] if t.startswith("src/") and not t.startswith("src/__verif")]
            calls = [t for t in a["trail"] if t.startswith("in ") and "__verif" not in t]
            msg += "; root %s (%s)" % (r, cfg)
            if a["sites"]:
                msg += "; results built at " + ", ".join(a["sites"])
            if dec:
                msg += "; branches " + ", ".join(dec[-6:])
            if calls:
                msg += "; calls " + " > ".join(calls)
            viol.append((key, msg + "; witness " + a["detail"].strip()[:300]))
    if jobs and done == 0 and not viol:
        raise glue.ToolError("no root could be analysed: " + "; ".join(notes)[:1500])
    total = sum(ob.values())
    cov = {"explanation": "Abstract interpretation of the crate's MIR from %d symbolic-environment roots; every obligation of the property met on any path is proven for all values of the symbolic inputs, left undecided (listed), or refuted by a concrete assignment." % len(jobs),
           "roots": per, "obligations": total, "discharged": ob["proven"], "undecided": ob["undecided"], "refuted": ob["violated"],
           "sites": len(sites), "functions_analysed": len(fns), "functions": sorted(fns), "steps": steps, "reached": sorted(x for x in reached if pid in CRASH or x.startswith(pid)),
           "undecided_sites": undec[:200], "incomplete": notes}
    return viol, cov


for _p in list(TABLE):
    CLAIMED[_p] = (TECH, NOTE)
