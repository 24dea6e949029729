"""Shared plumbing: build the analyser, dump /repo's MIR in a scratch copy, write evidence."""
import json, os, shutil, subprocess, sys, tempfile, time, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()
CONFIGS = {
    "rayon": [],
    "norayon": ["--no-default-features"],
    "plain": ["--no-default-features", "--features", "platform_independent"],
    "portable": ["--features", "platform_independent"],
}


class ToolError(Exception):
    pass


_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="jpegsa-")
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e.update(kw)
    return e


def build(which, release=False):
    d = os.path.join(VERIF, "analyzer", which)
    cmd = ["cargo", "build", "--offline"] + (["--release"] if release else [])
    rc, out = run(cmd, cwd=d, env=env())
    if rc != 0:
        raise ToolError("building %s failed:\n%s" % (which, out[-3000:]))
    return os.path.join(d, "target", "release" if release else "debug", {"driver": "mirdump", "engine": "jpegai"}[which])


def sysroot():
    rc, out = run(["rustc", "--print", "sysroot"], env=env())
    if rc != 0:
        raise ToolError(out)
    return out.strip()


def scratch_crate(name, harness=None):
    """copy of the crate under analysis (current working tree) with an optional harness module"""
    d = os.path.join(tmp(), "src-" + name)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), d)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
    # targets named in Cargo.toml must exist for cargo to accept the manifest
    import re
    toml = open(os.path.join(d, "Cargo.toml")).read()
    for kind, dirn in (("bench", "benches"), ("test", "tests"), ("example", "examples")):
        for m in re.finditer(r"\[\[%s\]\]\s*(?:[^\[]*?)name\s*=\s*\"([^\"]+)\"" % kind, toml):
            os.makedirs(os.path.join(d, dirn), exist_ok=True)
            open(os.path.join(d, dirn, m.group(1) + ".rs"), "w").write("fn main() {}\n")
    if harness:
        for h in harness:
            shutil.copy(os.path.join(VERIF, "harness", h), os.path.join(d, "src", "__verif.rs" if h == harness[0] else h))
        with open(os.path.join(d, "src", "lib.rs"), "a") as f:
            f.write("\nmod __verif;\n")
    return d


def dump(config, harness="verif.rs"):
    """MIR facts of the library in one feature configuration; returns path to JSON"""
    out = os.path.join(tmp(), config + ".json")
    drv = build("driver")
    d = scratch_crate(config, [harness])
    h = os.path.join(VERIF, "harness")
    e = env(MIRDUMP_OUT=out, MIRDUMP_STOP=os.path.join(h, "stop.txt"), MIRDUMP_DESCEND=os.path.join(h, "descend.txt"),
            MIRDUMP_MODELS=os.path.join(h, "models.txt"), LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
            RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=os.path.join(tmp(), "tgt-" + config))
    rc, o = run(["cargo", "check", "--offline", "--lib"] + CONFIGS[config], cwd=d, env=e)
    if rc != 0 or not os.path.exists(out):
        raise ToolError("analysing configuration %s failed:\n%s" % (config, o[-4000:]))
    shutil.rmtree(os.path.join(tmp(), "tgt-" + config), ignore_errors=True)
    return out


def load(config, harness="verif.rs"):
    return json.load(open(dump(config, harness)))


def known_findings():
    """lines 'finding: property=<id> key=<key> :: <text>' of /verif/KNOWN_FINDINGS"""
    res = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property="):
                head, _, text = l.partition(" :: ")
                w = head.split(" ", 2)
                pid = w[1].split("=", 1)[1]
                key = w[2].split("=", 1)[1]
                res[(pid, key)] = text
    return res


def finish(pid, tier, level, coverage, violations, assumptions=()):
    """violations: list of (key, text). Prints the verdict and writes the evidence; returns exit status."""
    kf = known_findings()
    new, known = [], []
    seen = set()
    for key, text in violations:
        if key in seen:
            continue
        seen.add(key)
        (known if (pid, key) in kf else new).append((key, text))
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": coverage,
          "wall_s": round(time.time() - T0, 2), "assumptions": list(assumptions),
          "violations": len(new), "violation_list": ["%s: %s" % v for v in new], "known_findings": ["%s: %s" % v for v in known]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for key, text in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[(pid, key)]))
    rc = 0
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        open(rp, "w").write("".join("%s\n    %s\n" % v for v in new))
        for key, text in new:
            print("violation: %s\n    %s" % (key, text))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %s, %s" % (pid, "VIOLATED" if rc else "held", json.dumps({k: v for k, v in coverage.items() if not isinstance(v, (list, dict))})))
    return rc
