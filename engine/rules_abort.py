"""Explicit and implicit aborts of a verifier that depend on what the adversary sends."""
import models
from leaves import typed_leaves
from analyze import run_root
from hooks import Hook

UNTRUSTED = ("proof", "public_inputs", "inputs", "outputs", "commit", "point_values", "points", "point", "upk")
WRITES = ("std::io::Error", "io::Error", "SerializationError")


def untrusted(labels):
    return [l for l in labels if l.split(".")[0].split("[")[0] in UNTRUSTED]


def lengths(labels):
    """of a number made from a list: how long the list is"""
    return [l if l.endswith("#len") or "[" not in l else l[:l.index("[")] + ".#len" for l in labels]


class Aborts(Hook):
    def __init__(self, args=()):
        self.args = args        # names and types of the parameters that the adversary chooses
        self.nums = None
        self.found = {}
        self.sites = {"branches": set(), "unwraps": set(), "indexing": set(), "arithmetic": set()}
        self.memo = {}
        self.zero = {}          # where a value is tested for zero, and its labels

    def dead(self, e, fid):
        """blocks from which the function can only panic"""
        if fid not in self.memo:
            cfg = e.cfg(fid)
            live = set()
            todo = [b for b in cfg.order if e.F[fid]["blocks"][b]["t"][0] == "return"]
            while todo:
                b = todo.pop()
                if b in live:
                    continue
                live.add(b)
                todo += [p for p in cfg.pred[b] if p not in live]
            dead = set()
            for b in cfg.order:
                if b not in live and self.panics(e, fid, cfg, b):
                    dead.add(b)
            self.memo[fid] = dead
        return self.memo[fid]

    @staticmethod
    def panics(e, fid, cfg, b):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            t = e.F[fid]["blocks"][x]["t"]
            if t[0] == "call" and t[5] is None:
                return True
            todo += cfg.succ[x]
        return False

    def known(self, e, st, *sides):
        """lengths tied to something trusted by comparisons on the way here (or bounded by it from the given sides),
        and the pairs of lengths found equal"""
        g = st.G
        sets = []
        for c in e.cmps.values():
            if g & c["bit"]:
                sets.append(set(lengths(untrusted(e.L.of(c["must"] | c["may"])))))
        tied = set(x for x in e.L.of(g) if x.endswith("#len"))
        more = True
        while more:
            more = False
            for x in sets:
                if len(x - tied) == 1 and x:
                    tied |= x
                    more = True
        marks = tuple("#%s:" % x for x in sides)
        if marks:
            tied |= set(x[4:] for x in e.L.of(g) if x.startswith(marks))
        return tied, sets

    def words(self, e):
        """numbers among what the adversary sends"""
        if self.nums is None:
            self.nums = [p for n, t in self.args for p, x in typed_leaves(e, t, n) if x is not None and e.T[x]["k"] == "uint"]
        return self.nums

    def report(self, e, st, fn, line, what, may, size=False, sides=("hi", "lo")):
        ls = untrusted(e.L.of(may))
        if not ls:
            return
        if size:
            words = self.words(e)
            ls = [l for l in lengths(ls) if l.endswith("#len") or any(l.startswith(w) or w.startswith(l) for w in words)]
        known = self.known(e, st, *sides)[0]
        ls = [l for l in ls if l not in known]
        if ls:
            self.add(fn, line, what, ls)

    def add(self, fn, line, what, ls):
        self.found.setdefault((fn["file"].split("/repo/")[-1], line, fn["path"], what), set()).update(ls)

    def on_switch(self, e, st, uid, fid, fn, bb, t, v):
        if isinstance(v.const, int):
            return
        dead = self.dead(e, fid)
        hit = False
        arms = list(t[3]) + [[None, t[4]]]
        for x, tgt in arms:
            if tgt in dead and (x is None or v.vg is None or x in v.vg):
                if x is None and v.vg is not None and not [y for y in v.vg if y not in [a[0] for a in t[3]]]:
                    continue
                hit = True
        if hit:
            self.sites["branches"].add((fid, bb))
            self.report(e, st, fn, t[1], "panic", v.may or e.vdeps(v)[0], self.sizes(e, st, uid, fn, bb, t[2]))

    @staticmethod
    def sizes(e, st, uid, fn, bb, o):
        """does the condition compare machine words?"""
        def condition(pl, bb, n):
            defs = []
            if bb is not None:
                defs = [s[3] for s in reversed(fn["blocks"][bb]["s"]) if s[0] == "=" and s[2] == pl][:1]
            if not defs:
                for b in fn["blocks"]:
                    defs += [s[3] for s in b["s"] if s[0] == "=" and s[2] == pl]
                    t = b["t"]
                    if t[0] == "call" and t[4] == pl:
                        defs.append(("call", str(t[2])))
            seen = False
            for r in defs:
                if r[0] == "call":
                    if "is_power_of_two" not in r[1]:
                        return False
                elif r[0] == "use" and r[1][0] == "k":
                    continue
                elif r[0] == "use" or r[0] == "un":
                    x = r[1] if r[0] == "use" else r[2]
                    if n > 8 or x[0] == "k" or not condition(x[1], None, n + 1):
                        return False
                elif r[0] == "bin":
                    x = r[2] if r[2][0] != "k" else r[3]
                    t = e.place(st, uid, fn, x[1])[1] if x[0] != "k" else None
                    if t is None or e.T[t]["k"] not in ("uint", "bool"):
                        return False
                else:
                    return False
                seen = True
            return seen
        return o[0] != "k" and condition(o[1], bb, 0)

    def on_unwrap(self, e, st, c):
        v = models.load_if_ref(e, st, c.args[0])
        kind = models.opt_kind(e, c.aty[0])
        if kind and v.vg is not None and (1 - models.GOOD[kind]) not in v.vg:
            return
        t = e.T[e.strip_ref(c.aty[0])]
        if kind == "Result":
            # writing to memory does not fail, nor does reading a digest of fixed size
            a = [e.T[x] for x in t["a"]]
            if len(a) == 2 and a[1].get("n", "").endswith(WRITES):
                ok = a[0]
                if ok["k"] == "tuple" and not ok["ts"] or ok.get("n", "").endswith("Vec") or ok["k"] == "array":
                    return
        self.sites["unwraps"].add((c.fid, c.bb))
        self.report(e, st, c.fn, c.line, c.name.split("::")[-1], v.may | e.deps(st, c.args[0])[0])

    def indexed(self, e, st, fn, line, own, may, opaque):
        """own: the length of the container when the adversary chooses it; may: labels of the index"""
        ix = untrusted(e.L.of(may))
        tied, sets = self.known(e, st, "lo" if own is not None else "hi")
        if own is not None and own not in tied and own not in lengths(ix):
            if not any(own in x and x & set(ix) for x in sets):
                self.add(fn, line, "index", [own])
        elif own is None and not opaque:
            ls = [l for l in lengths(ix) if l not in tied]
            if ls:
                self.add(fn, line, "index", ls)

    def on_index(self, e, st, c):
        n = c.name.split("::")[-1]
        if n not in ("index", "index_mut"):
            return
        self.sites["indexing"].add((c.fid, c.bb))
        t = e.T[c.aty[1]]
        if t.get("k") == "adt" and t.get("n", "").endswith("RangeFull"):
            return
        v = e.deref(st, c.args[0])
        if e.T[e.strip_ref(c.aty[0])].get("n", "").endswith(("BTreeMap", "HashMap")):
            # a key that is missing
            self.report(e, st, c.fn, c.line, "map index", e.deps(st, c.args[0])[0] | e.deps(st, c.args[1])[0])
            return
        own = v.path + ".#len" if v.path is not None and untrusted([v.path]) else None
        self.indexed(e, st, c.fn, c.line, own, e.deps(st, c.args[1])[0], own is None and v.path is None)

    def on_call(self, e, st, c):
        if c.name.endswith("::pow") and c.name.startswith("core::num"):
            self.sites["arithmetic"].add((c.fid, c.bb))
            self.report(e, st, c.fn, c.line, "pow", e.deps(st, c.args[1])[0], True, ("hi",))
        if c.name.endswith("::is_zero"):
            self.zero[c.uid, c.bb] = e.deps(st, c.args[0])[0]
        if c.name.split("::")[-1] in ("div", "div_assign") and "Polynomial" not in e.T[e.strip_ref(c.aty[1])].get("n", "Polynomial"):
            # dividing by zero
            self.sites["arithmetic"].add((c.fid, c.bb))
            may = e.deps(st, c.args[1])[0]
            if not any(u == w and not may & ~m and self.nonzero(e, fid, at, bb) for w, fid, at in self.around(e, c) for (u, bb), m in self.zero.items()):
                self.report(e, st, c.fn, c.line, "division", may)

    @staticmethod
    def around(e, c):
        """the point of a call, and the points of the calls it is made in"""
        out = [(c.uid, c.fid, c.bb)]
        while isinstance(e.uid_list[out[-1][0]], tuple):
            up, site, fid = e.uid_list[out[-1][0]]
            k = e.uid_list[up]
            while isinstance(site, tuple):
                site = site[0]
            if not isinstance(k, tuple) or not isinstance(site, int):
                break
            out.append((up, k[2], site))
        return out

    @staticmethod
    def nonzero(e, fid, at, bb):
        """is the given point reached only if the value tested at bb is not zero?"""
        fn, cfg = e.F[fid], e.cfg(fid)
        t = fn["blocks"][fn["blocks"][bb]["t"][5]]["t"]
        if t[0] != "switch":
            return False
        zero = [x for v, x in t[3] if v == 1] or ([t[4]] if [v for v, x in t[3]] == [0] else [])
        seen, todo = {bb}, list(zero)
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += cfg.succ[x]
        if at in seen or not zero:
            return False
        seen, todo = {bb}, [0]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += cfg.succ[x]
        return at not in seen

    def on_assert(self, e, st, uid, fid, fn, bb, t):
        if t[4] == "overflow" and t[7] in ("Sub", "Shl"):
            # more taken away than is there, or more shifted than fits
            self.sites["arithmetic"].add((fid, bb))
            a, b = [e.operand(st, uid, fn, o) for o in t[5]]
            mine, other = lengths(untrusted(e.L.of(b.may))), lengths(untrusted(e.L.of(a.may)))
            if t[7] == "Shl" or not set(mine) & set(other):
                self.report(e, st, fn, t[1], "shift" if t[7] == "Shl" else "subtract", b.may, True, ("hi",))
            if t[7] == "Sub" and not mine and not (isinstance(b.const, int) and b.const == 0):
                self.report(e, st, fn, t[1], "subtract", a.may, True, ("lo",))
        if t[4] == "divzero":
            self.sites["arithmetic"].add((fid, bb))
            self.report(e, st, fn, t[1], "division", e.operand(st, uid, fn, t[2]).may, True, ("lo",))
        if t[4] != "bounds":
            return
        self.sites["indexing"].add((fid, bb))
        ln, ix = [e.operand(st, uid, fn, o) for o in t[5]]
        if isinstance(ln.const, int) and isinstance(ix.const, int) and ix.const < ln.const:
            return
        own = [l for l in untrusted(e.L.of(ln.may)) if l.endswith("#len")]
        self.indexed(e, st, fn, t[1], own[0] if own else None, ix.may, not own and ln.path is None and ln.const is None)


def params(e, root):
    fid = e.roots["proving::" + root] if "proving::" + root in e.roots else [i for n, i in e.roots.items() if n.endswith(root)][0]
    fn = e.F[fid]
    names = dict((n[1][0], n[0]) for n in fn["names"] if n[2])
    return [(names[i + 1], fn["locals"][i + 1]) for i in range(fn["argc"]) if names[i + 1] in UNTRUSTED]


def abort_rule(e, root):
    h = Aborts(params(e, root))
    e.track_order = lambda e, m: [l for l in lengths(untrusted(e.L.of(m))) if l.endswith("#len")]
    run_root(e, root, hooks=[h])
    return h
