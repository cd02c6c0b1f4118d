"""What the constraint systems of provers and key generators keep of a circuit.

The roots hand a circuit with one variable of each kind and one constraint of unknown length
to every constraint system.  When a method of the constraint system returns, the fields of the
system are looked up: the terms of the three linear combinations (coefficient and variable) and
the value of the variable have to be there, each in a place of its own.  In the functions in
between, no path may lead around the calls that store them, and no turn of a loop over the
terms may end without one.
"""
import re

from analyze import run_root
from hooks import Hook
from leaves import leaves
from rules_secret import nodes

# constraint systems, and what each has to keep: the terms (a b c) and the values (w x)
CS = {
    "groth16_key": ("abc",),
    "groth16_prove": ("abcwx",),
    "bulletproofs_prove": ("abcwx",),
    "marlin_key": ("abc",),
    "marlin_prove": ("wx",),
    "spartan_snark_key": ("abc",),
    "spartan_snark_prove": ("wx",),
    "spartan_nizk_key": ("abc",),
    "spartan_nizk_prove": ("wx",),
    # gates of the composer: selectors and wires, and the variables that enter the permutation
    "plonk_add": (("l", "r", "o", "d", "ql", "qr", "qd", "qc", "pi"), "lrod"),
    "plonk_mul": (("l", "r", "o", "d", "qm", "qd", "qc", "pi"), "lrod"),
    "plonk_constant": (("l", "qc", "pi"), "l"),
    "plonk_equal": (("l", "r"), "lr"),
}
METHODS = {"enforce": "abc", "alloc": "w", "alloc_input": "x"}
GATES = ("alloc_and_assign", "create_add_gate", "create_mul_gate", "constrain_to_constant", "assert_equal")
LABELS = {"w": "circuit.w", "x": "circuit.x"}
STORES = re.compile(r"::(push|push_back|insert|extend|extend_from_slice|append|collect|resize|from_elem|or_insert|into_vec|write)$")
LOOKUPS = re.compile(r"Map.*::(get_mut|entry|insert)$|IndexMut::index_mut$")
LOSSY = re.compile(r"::(filter|filter_map|take|take_while|skip|skip_while|step_by|map_while|nth|last|find|truncate|pop|drain|clear|dedup|retain|remove|swap_remove)$")
KIND = {"0": "variable", "1": "coefficient"}


class Keep(Hook):
    def __init__(self, key, keeps, variables=""):
        self.key = key
        self.gates = bool(variables)
        self.want = {}          # part -> (group, label prefixes)
        for g in keeps:
            if g in "abc" and not self.gates:
                for k in "01":
                    self.want[g + k] = (g, ("circuit.%s.0[*].%s" % (g, k),))
            else:
                self.want[g] = (g, (LABELS.get(g, g) if not self.gates else g,))
        if self.gates:
            self.want["v"] = ("v", tuple("v" + g for g in variables))
        self.variables = variables
        self.named = 0
        self.roots = {}         # activation of a method -> its name, and the groups it has to keep
        self.at = {}            # activation -> block -> groups stored there
        self.turns = {}         # activation -> block of a call of next -> groups of the items
        self.looked = {}        # activation -> variables looked up in a map there or in what it called
        self.tests = {}         # activation -> block of a switch on a length -> groups
        self.errors = {}
        self.fns = {}
        self.line = {}
        self.found = {}
        self.stats = {"methods": set(), "stores": set(), "loops": set(), "parts": 0}

    # ---- labels
    def parts(self, e, mask):
        ls = e.L.of(mask)
        return {p for p, (g, pre) in self.want.items() for x in ls for q in pre if x == q or x.startswith((q + ".", q + "["))}

    def groups(self, e, mask):
        return {self.want[p][0] for p in self.parts(e, mask)}

    def about(self, e, mask):
        """groups of which some part may be among the labels"""
        ls = e.L.of(mask)
        return {g for g, pre in self.want.values() if any(re.match("(%s)(?![a-z])" % "|".join(re.escape(q if self.gates else "circuit." + g) for q in pre), x) for x in ls)}

    # ---- events
    def method(self, e, c):
        if "fn" not in c.f:
            return None
        p = e.F[c.f["fn"]]["path"]
        n = p.rsplit("::", 1)[-1]
        if self.gates:
            return n if n in GATES and "root_cs" in c.fn["path"] else None
        if n in METHODS and re.match(r"<zkp_(?!r1cs)\w+::.* as zkp_r1cs::ConstraintSystem", p) and set(METHODS[n]) & {g for g, _ in self.want.values()}:
            return n
        return None

    def on_call(self, e, st, c):
        name = c.name or ""
        self.fns[c.uid] = c.fid
        self.line[c.uid, c.bb] = "%s:%d" % (c.fn["file"].split("/repo/")[-1], c.line)
        if name.endswith("Try::branch") or "fn" in c.f:
            return
        if LOSSY.search(name):
            g = self.about(e, e.deps(st, c.args[0])[0])
            if g and self.inside(e, c.uid):
                self.found["lossy:" + self.line[c.uid, c.bb]] = "%s: %s on what holds %s" % (self.line[c.uid, c.bb], name.rsplit("::", 1)[-1], ", ".join(sorted(g)))
        if STORES.search(name):
            own = c.args if name.endswith(("collect", "from_elem", "into_vec", "or_insert", "write")) else c.args[1:]
            m = 0
            for a in own:
                m |= e.deps(st, a)[0]
            self.note(self.at, c, self.groups(e, m))
            held = self.groups(e, e.deps(st, c.args[0])[0])
            self.note(self.at, c, {g + "@" for g in self.looked.get(c.uid, ()) if g in held})
        if self.variables and LOOKUPS.search(name) and len(c.args) > 1:
            gs = {g for g in self.groups(e, e.deps(st, c.args[1])[0]) if g in self.variables}
            for v, _ in self.chain(e, c.uid):
                self.looked.setdefault(v, set()).update(gs)

    def note(self, table, c, gs):
        if gs:
            table.setdefault(c.uid, {}).setdefault(c.bb, set()).update(gs)

    def chain(self, e, u):
        """the activation and the ones that called it, with the block of each call"""
        b = None
        while u is not None and u in range(len(e.uid_list)):
            yield u, b
            k = e.uid_list[u]
            u, b = (k[0], self.block(k[1])) if isinstance(k, tuple) and len(k) == 3 else (None, None)

    @staticmethod
    def block(site):
        while isinstance(site, tuple):
            site = site[0] if not isinstance(site[0], str) else site[1]
        return site

    def inside(self, e, u):
        for v, _ in self.chain(e, u):
            k = e.uid_list[v]
            if isinstance(k, tuple) and len(k) == 3 and isinstance(k[2], int):
                p = e.F[k[2]]["path"]
                n = p.rsplit("::", 1)[-1]
                if n in (GATES if self.gates else METHODS) and (self.gates or re.match(r"<zkp_(?!r1cs)", p)):
                    return True
        return False

    def on_switch(self, e, st, uid, fid, fn, bb, t, v):
        # loops that count up to a length instead of asking for the next item
        ls = e.L.of(e.deps(st, v)[0])
        if ls and all(x.endswith(".#len") for x in ls):
            self.tests.setdefault(uid, {}).setdefault(bb, set()).update(self.about(e, e.deps(st, v)[0]))

    def on_ret(self, e, st, c, v):
        if (c.name or "").endswith("Iterator::next"):
            self.note(self.turns, c, self.about(e, e.deps(st, v)[0]))
        n = self.method(e, c)
        if n is None:
            return None
        given = 0
        for a in c.args[1:]:
            given |= e.deps(st, a)[0]
        gs = {g for g in self.about(e, given) if self.gates or g in METHODS[n]}
        if not gs:
            return None
        fid = c.f["fn"]
        for u, k in enumerate(e.uid_list):
            if isinstance(k, tuple) and len(k) == 3 and k[0] == c.uid and k[2] == fid and self.block(k[1]) == c.bb:
                self.roots[u] = (n, gs)
        self.contents(e, st, c, n, gs)
        if n == "alloc_and_assign":
            self.named += 1
            return e.sym(self.variables[self.named - 1])
        return None

    def contents(self, e, st, c, n, gs):
        fn = e.F[c.f["fn"]]
        self.stats["methods"].add(fn["path"])
        ty = e.strip_ref(c.aty[0])
        s = e.deref(st, c.args[0])
        held = {}
        for leaf in leaves(e, ty, ""):
            for _, may, must in nodes(e, st, s, leaf):
                a, b = self.parts(e, may), self.parts(e, must)
                if len(a) == 1 and a <= b:
                    held.setdefault(min(a), leaf)
        for p, (g, _) in self.want.items():
            if g in gs:
                self.stats["parts"] += 1
                if p not in held:
                    self.found["place:%s:%s" % (n, p)] = "%s:%d: %s of the constraint system does not keep %s in a place of its own" % (
                        fn["file"].split("/repo/")[-1], fn["line"], n, self.what(p))

    def what(self, g):
        if self.gates:
            return "the value of a variable" if g == "v" else "variable %s" % g if g in self.variables else "selector %s" % g
        if g[0] in "abc":
            return "the %ss of %s" % (KIND[g[1]], g[0]) if g[1:] else "the terms of %s" % g
        return "the value of the variable"

    # ---- paths
    def paths(self, e):
        up = {}
        for table in (self.at,):
            for u in list(table):
                for b, gs in list(table[u].items()):
                    for v, site in self.chain(e, u):
                        if site is not None:
                            up.setdefault(v, {}).setdefault(site, set()).update(gs)
                        if v in self.roots:
                            break
        # a block stores what the functions called from it store
        store = {u: {b: set(gs) for b, gs in t.items()} for u, t in self.at.items()}
        for u, t in up.items():
            for b, gs in t.items():
                store.setdefault(u, {}).setdefault(b, set()).update(gs)
        for u, (n, gs) in self.roots.items():
            need = set(gs) | {g + "@" for g in gs if g in self.variables}
            self.walk(e, u, e.uid_list[u][2], need, store, n, set())

    def walk(self, e, u, fid, need, store, n, seen):
        if u in seen:
            return
        seen.add(u)
        fn, cfg = e.F[fid], e.cfg(fid)
        blocks = fn["blocks"]
        mine = store.get(u, {})
        at = lambda b: "%s:%d" % (fn["file"].split("/repo/")[-1], blocks[b]["t"][1])
        bad = self.failing(e, fid, cfg)
        for g in sorted(need):
            w = self.what(g.rstrip("@")) + (" in the permutation" if g[-1] == "@" else "")
            hits = {b for b, gs in mine.items() if g in gs}
            loops = {b for b, gs in self.turns.get(u, {}).items() if g.rstrip("@") in gs}
            for b, gs in self.tests.get(u, {}).items():
                body = [body for body in cfg.loops.values() if b in body]
                if g.rstrip("@") in gs and any(not x & loops and any(y not in x for y in cfg.succ[b]) for x in body):
                    loops = loops | {b}
            around = lambda b: {x for body in cfg.loops.values() if b in body for x in body}
            loops = {b for b in loops if hits & around(b)}
            live = [b for b in cfg.order if b not in bad]
            for b in hits:
                self.stats["stores"].add((fid, b))
            ends = {b for b in live if blocks[b]["t"][0] == "return"}
            r = self.reach(cfg, [0], hits | loops, bad)
            if (r - hits - loops) & ends:
                self.found["path:%s:%s" % (fn["path"], g)] = "%s: a path through %s (for %s) does not store %s" % (at(0), fn["path"].rsplit("::", 1)[-1], n, w)
            for b in loops:
                inner = around(b)
                self.stats["loops"].add((fid, b))
                some = self.some(blocks, b) if blocks[b]["t"][0] == "call" else [y for y in cfg.succ[b] if y in inner]
                r = self.reach(cfg, some, (hits | loops) - {b}, bad)
                again = b in r
                if again or (r - hits) & ends:
                    self.found["turn:%s:%s" % (fn["path"], g)] = "%s: a turn of the loop in %s (for %s) does not store %s" % (at(b), fn["path"].rsplit("::", 1)[-1], n, w)
                r = self.reach(cfg, some, {b}, bad)
                if r & ends:
                    self.found["early:%s:%s" % (fn["path"], g)] = "%s: the loop in %s (for %s) may end before the last of %s" % (at(b), fn["path"].rsplit("::", 1)[-1], n, w)
        # the functions called where something is stored
        for v, k in enumerate(e.uid_list):
            if isinstance(k, tuple) and len(k) == 3 and k[0] == u and v in store:
                inner = set().union(*store[v].values()) & need
                if inner:
                    self.walk(e, v, k[2], inner, store, n, seen)

    def failing(self, e, fid, cfg):
        """blocks on the way of an error out of the function"""
        if fid not in self.errors:
            fn = e.F[fid]
            out = set()
            ret = e.T[fn["locals"][0]]
            result = ret["k"] == "adt" and ret["n"].endswith("Result")
            for b in cfg.order:
                t = fn["blocks"][b]["t"]
                if t[0] == "call" and (t[2].get("x") or "").endswith("from_residual"):
                    out.add(b)
                if result and any(s[0] == "=" and s[2] == [0] and s[3][0] == "adt" and s[3][2] == 1 for s in fn["blocks"][b]["s"]):
                    out.add(b)
            self.errors[fid] = out
        return self.errors[fid]

    @staticmethod
    def some(blocks, b):
        """where the loop goes with the next item"""
        t = blocks[b]["t"]
        x, n = t[5], 0
        while blocks[x]["t"][0] == "goto" and n < 8:
            x, n = blocks[x]["t"][2], n + 1
        t = blocks[x]["t"]
        if t[0] != "switch":
            return [x]
        return [y for v, y in t[3] if v == 1] or [t[4]]

    @staticmethod
    def reach(cfg, start, stop, bad):
        seen, todo = set(), list(start)
        while todo:
            b = todo.pop()
            if b not in seen and b not in bad:
                seen.add(b)
                if b not in stop:
                    todo += cfg.succ[b]
        return seen


def cs_rule(e, key):
    h = Keep(key, *CS[key])
    run_root(e, "root_cs_" + key, hooks=[h])
    h.paths(e)
    if not h.stats["methods"]:
        h.found["method"] = "%s: the constraint system is not used" % key
    return h
