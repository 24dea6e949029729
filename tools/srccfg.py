"""Item-level scan of Rust sources under a partial cfg assignment: known features on, everything else unknown."""
import os, re

TOK = re.compile(r"""
  (?P<ws>\s+|//[^\n]*)
 |(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?c?"(?:\\.|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x..|u\{[^}]*\}|.)|[^\\'])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<num>\d[\w.]*)
 |(?P<p>::|.)
""", re.X | re.S)


def lex(s):
    # block comments nest
    out, i, line = [], 0, 1
    while i < len(s):
        if s.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < len(s):
                if s.startswith("/*", j):
                    d += 1; j += 2
                elif s.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            line += s.count("\n", i, j)
            i = j
            continue
        m = TOK.match(s, i)
        t = m.group(0)
        if m.lastgroup != "ws" and not m.group("ws"):
            out.append((m.lastgroup if m.lastgroup != "h" else "raw", t, line))
        line += t.count("\n")
        i = m.end()
    return out


def group_end(t, i):
    """index after the group opening at i"""
    d = 0
    while i < len(t):
        if t[i][1] in "([{" and t[i][0] == "p":
            d += 1
        elif t[i][1] in ")]}" and t[i][0] == "p":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return i


def parse_pred(t, known):
    """t: tokens of a cfg predicate; returns True/False/None"""
    if not t:
        return None
    h = t[0][1]
    if h in ("all", "any", "not") and len(t) > 1 and t[1][1] == "(":
        inner = t[2:group_end(t, 1) - 1]
        parts, cur, d = [], [], 0
        for x in inner:
            if x[0] == "p" and x[1] in "([{":
                d += 1
            if x[0] == "p" and x[1] in ")]}":
                d -= 1
            if x[1] == "," and d == 0:
                parts.append(cur); cur = []
            else:
                cur.append(x)
        if cur:
            parts.append(cur)
        vs = [parse_pred(x, known) for x in parts]
        if h == "not":
            return None if not vs or vs[0] is None else not vs[0]
        if h == "all":
            return False if False in vs else (None if None in vs else True)
        return True if True in vs else (None if None in vs else False)
    if h == "feature" and len(t) >= 3:
        f = t[2][1].strip('"')
        return True if f in known else None
    if h in ("test", "doc", "doctest", "miri"):
        return False
    if h == "debug_assertions":
        return None
    return None


def skip_item(t, i):
    """index after the item/statement/arm/field starting at i"""
    while i < len(t) and t[i][1] == "#":
        j = i + 1
        if t[j][1] == "!":
            j += 1
        i = group_end(t, j)
    while i < len(t):
        x = t[i]
        if x[0] == "p":
            if x[1] == "{":
                return group_end(t, i)
            if x[1] in "([":
                i = group_end(t, i)
                continue
            if x[1] in ";,":
                return i + 1
            if x[1] in ")]}":
                return i
        i += 1
    return i


def scan(src, known):
    found, n, done = [], 0, set()
    todo = [(os.path.join(src, "lib.rs"), src)]
    while todo:
        path, moddir = todo.pop()
        if path in done or not os.path.exists(path):
            continue
        done.add(path)
        rel = os.path.relpath(path, os.path.dirname(src))
        t = lex(open(path).read())
        i = 0
        pathattr = None
        fn = "?"
        while i < len(t):
            k, x, line = t[i]
            if x == "#" and i + 1 < len(t) and t[i + 1][1] in ("[", "!"):
                inner = t[i + 1][1] == "!"
                j = i + 2 if inner else i + 1
                e = group_end(t, j)
                a = t[j + 1:e - 1]
                if a and a[0][1] == "cfg":
                    if parse_pred(a[2:-1], known) is False:
                        i = len(t) if inner else skip_item(t, e)
                        continue
                elif a and a[0][1] == "target_feature":
                    found.append(("src-feature:%s:%s" % (rel, fn), "%s:%d: target_feature code can be compiled with the feature on" % (rel, line)))
                elif a and a[0][1] == "path" and len(a) > 2:
                    pathattr = a[2][1].strip('"')
                i = e
                continue
            if k == "id":
                if x == "fn" and t[i + 1][0] == "id":
                    fn = t[i + 1][1]
                    n += 1
                if x == "unsafe":
                    found.append(("src-unsafe:%s:%s" % (rel, fn), "%s:%d: `unsafe` in an item that can be compiled with the feature on (near fn %s)" % (rel, line, fn)))
                if x in ("core", "std") and i + 2 < len(t) and t[i + 1][1] == "::" and t[i + 2][1] == "arch":
                    found.append(("src-arch:%s:%s" % (rel, fn), "%s:%d: %s::arch can be compiled with the feature on" % (rel, line, x)))
                if re.match(r"is_\w+_feature_detected$", x):
                    found.append(("src-detect:%s:%s" % (rel, fn), "%s:%d: CPU detection can be compiled with the feature on" % (rel, line)))
                if x == "mod" and i + 2 < len(t) and t[i + 2][1] == ";":
                    name = t[i + 1][1]
                    for c in ([os.path.join(moddir, pathattr)] if pathattr else []) + [os.path.join(moddir, name + ".rs"), os.path.join(moddir, name, "mod.rs")]:
                        if os.path.exists(c):
                            todo.append((c, os.path.join(moddir, name)))
                    pathattr = None
            i += 1
    return n, found
