"""Leaves of a source type, and coverage of leaves by labels."""
from absint import span

CONTAINERS = ("Vec", "VecDeque", "BTreeSet")
MAPS = ("BTreeMap", "HashMap")
WRAP = ("Option", "Box", "Rc", "Arc", "PhantomData")


def leaves(e, ty, path, depth=0):
    return [p for p, t in typed_leaves(e, ty, path, depth)]


def typed_leaves(e, ty, path, depth=0):
    t = e.T[ty]
    k = t["k"]
    if k in ("ref", "ptr"):
        return typed_leaves(e, t["t"], path, depth)
    if k in ("slice", "array"):
        return typed_leaves(e, t["t"], path + "[*]", depth)
    if k == "tuple":
        out = []
        for i, x in enumerate(t["ts"]):
            out += typed_leaves(e, x, path + ".%d" % i, depth + 1)
        return out
    if k == "adt":
        n = t["n"]
        s = n.split("::")[-1]
        if s == "PhantomData":
            return []
        if s in ("Option", "Box", "Rc", "Arc", "Cow") and t["a"]:
            return typed_leaves(e, [a for a in t["a"] if e.T[a]["k"] != "lifetime"][0], path, depth)
        if s in CONTAINERS and t["a"]:
            return typed_leaves(e, t["a"][0], path + "[*]", depth)
        if s in MAPS and len(t["a"]) >= 2:
            return typed_leaves(e, t["a"][0], path + "[*].0", depth) + typed_leaves(e, t["a"][1], path + "[*].1", depth)
        if n.startswith("zkp_") and not t["e"] and depth < 12 and t["v"]:
            out = []
            for f in t["v"][0][1]:
                if f[1] is None:
                    out.append((path + "." + f[0], None))
                else:
                    out += typed_leaves(e, f[1], path + "." + f[0], depth + 1)
            return out
    return [(path, ty)]


def _parts(label):
    """('a.b', '[*]', '.c') pieces"""
    out = []
    cur = ""
    for ch in label:
        if ch in ".[" and cur and not (ch == "." and "[" in cur and "]" not in cur):
            out.append(cur)
            cur = ch
        else:
            cur += ch
    out.append(cur)
    return out


def covers(labels, leaf):
    """is the whole of leaf among the labels?"""
    lp = _parts(leaf)
    return _cov([_parts(x) for x in labels], lp, 0)


def _cov(ls, lp, i):
    if any(len(l) == i for l in ls):
        return True         # a prefix: the enclosing value as a whole
    if i == len(lp):
        # something inside the leaf (foreign type): one of its fields, and of a vector all of it
        nxt = set(l[i] if l[i][0] == "." else "[*]" for l in ls)
        return any(_cov([l for l in ls if l[i] == n or (n == "[*]" and l[i][0] == "[")], lp + [n], i) for n in nxt)
    if not ls:
        return False
    if lp[i] == "[*]":
        if _cov([l for l in ls if l[i] == "[*]"], lp, i + 1):
            return True
        # pieces: [0], [1], [2..] / [a..b]
        start = 0
        for _ in range(64):
            nxt = None
            for l in ls:
                k = l[i]
                if k[0] != "[" or k == "[*]":
                    continue
                sp = span(k) or (int(k[1:-1]), int(k[1:-1]) + 1)
                if sp[0] <= start and (sp[1] is None or sp[1] > start):
                    grp = [x for x in ls if x[i] == k]
                    if not _cov(grp, lp, i + 1):
                        continue
                    if sp[1] is None:
                        return True
                    if nxt is None or sp[1] > nxt:
                        nxt = sp[1]
            if nxt is None or nxt <= start:
                return False
            start = nxt
        return False
    return _cov([l for l in ls if l[i] == lp[i] or (lp[i][0] == "[" and l[i] == "[*]")], lp, i + 1)


def uncovered(labels, required):
    labels = [x for x in labels if "#" not in x]
    return [x for x in required if not covers(labels, x)]
