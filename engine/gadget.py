"""Circuit gadgets: what do the emitted constraints pin down?

`GEngine` runs a gadget against the recording constraint system of roots/src/gad.rs.  Every
variable the gadget allocates becomes a label; linear combinations are tracked as abstract forms
(which variables, with which coefficients); every `enforce` becomes one abstract constraint
A * B = C together with the paths on which it is emitted.  `System` then derives, by propagation
over those constraints only, which variables are determined by the others.

form  = tuple of (mask, coefficient); the mask names the variable: one label, or the possible
        labels when it is an element of a container or the result of a merge
coefficient = int | 'nz' nonzero, differs between occurrences | 'w' nonzero, doubling weights
        | '?' present with an unknown coefficient | '~' maybe absent
"""
from absint import Engine, mk, _cv_join as cv_join
from models import ok, wr

SELF = "<vroots::gad::Rec as zkp_r1cs::ConstraintSystem<"
MEQ = "zkp_gadgets::operator::multieq::MultiEq<"
NZ = ("nz", "w")


def nonzero(c):
    return c in NZ or (isinstance(c, int) and c != 0)


def cjoin(a, b):
    if a == b:
        return a
    if a == "~" or b == "~":
        return "~"
    if a == "?" or b == "?":
        return "?"
    if isinstance(a, int) and isinstance(b, int):
        return "nz"
    if "w" in (a, b) and "nz" not in (a, b):
        return "w"
    return "nz"


def pow2(n):
    n = abs(n)
    return n > 0 and n & (n - 1) == 0


def coef_join(a, b):
    """join of scalar coefficients (not of terms)"""
    if isinstance(a, int) and isinstance(b, int) and a and b and a != b and pow2(a) and pow2(b):
        return "w"
    if a == 0 or b == 0:
        return a if a == b else "?"
    return cjoin(a, b)


def cmul(k, c):
    """term coefficient c scaled by k"""
    if c == "~":
        return "~"
    if isinstance(k, int) and isinstance(c, int):
        return k * c
    if isinstance(k, int) and k and c in NZ:
        return c
    if isinstance(c, int) and c and k in NZ:
        return k
    return "?"


def form(d):
    return ("lc", tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: (x[0], str(x[1])))))


class GEngine(Engine):
    def lenof(self, st, v):
        """how long a container is may depend on the lengths it was built from, not on what is in it"""
        x = self.deref(st, v)
        r = super().lenof(st, v)
        if x.path is None and not isinstance(r.const, int) and not (x.it and x.it[0] == "len"):
            return mk(it=r.it)
        return r

    def reset(self):
        Engine.reset(self)
        self.vars = {}          # label bit -> info
        self.csts = {}          # constraint index -> info
        self.cst_ix = {}
        self.multi_labels = 0
        self.var_labels = 0
        self.again = 0          # labels a loop allocates again and again
        self.one = self.L.bit("one")
        self.track_ctl = True
        self.seen_syms = 0
        self.box = {}
        self.nota = self.notb = 0   # variables allocated on one of the joined paths only

    # ------------------------------------------------------------ lattice
    def it_join(self, a, b, opt):
        if a and b and a[0] == b[0]:
            if a[0] == "coef":
                return ("coef", coef_join(a[1], b[1]))
            if a[0] == "lc":
                return self.lc_join(dict(a[1]), dict(b[1]))
        return None

    def join_state(self, a, b):
        old = self.nota, self.notb
        ka, kb = self.cvmask(a.cv), self.cvmask(b.cv)
        fa, fb = self.cvmask(a.cv, 1), self.cvmask(b.cv, 1)
        self.nota, self.notb = kb & ~ka | fa & ~fb, ka & ~kb | fb & ~fa
        try:
            return Engine.join_state(self, a, b)
        finally:
            self.nota, self.notb = old

    @staticmethod
    def cvmask(cv, fresh=0):
        """variables allocated so far, those without an older instance if fresh"""
        m = 0
        for b, x in (cv or {}).items():
            if not fresh or x[1] is None:
                m |= b
        return m

    def lc_join(self, a, b):
        out = {}

        def put(m, c):
            out[m] = tjoin(m, out[m], c) if m in out else c

        def tjoin(m, x, y):
            return coef_join(x, y) if self.is_multi(m) else cjoin(x, y)
        for m in a:
            if m in b:
                put(m, tjoin(m, a[m], b[m]))
        ra = [m for m in a if m not in b]
        rb = [m for m in b if m not in a]
        for r, d in ((ra, a), (rb, b)):
            if self.one in r:
                r.remove(self.one)
                put(self.one, "~")
        if len(ra) == 1 and len(rb) == 1:
            put(ra[0] | rb[0], cjoin(a[ra[0]], b[rb[0]]))
            ra, rb = [], []
        for m in list(ra):
            n = [x for x in rb if self.sites(x) & self.sites(m)]
            if len(n) == 1 and len([y for y in ra if self.sites(y) & self.sites(n[0])]) == 1:
                put(m | n[0], cjoin(a[m], b[n[0]]))
                ra.remove(m)
                rb.remove(n[0])
        # a variable which the other path has not allocated is not missing there
        for m in ra:
            put(m, a[m] if m & ~self.notb == 0 else "~")
        for m in rb:
            put(m, b[m] if m & ~self.nota == 0 else "~")
        return form(out)

    @staticmethod
    def bits(m):
        while m:
            b = m & -m
            m ^= b
            yield b

    def sites(self, mask):
        out = set()
        for n in self.L.of(mask & ~self.part_labels):
            out.add(n.split("@")[0])
        return out

    def is_multi(self, mask):
        return mask & (mask - 1) != 0 or bool(mask & self.multi_labels)

    def add(self, a, b):
        out = dict(a)
        for m, c in b.items():
            if m not in out:
                out[m] = c
                continue
            o = out[m]
            if o == "~" and c == "~":
                continue
            if isinstance(o, int) and isinstance(c, int) and not (self.is_multi(m) and m != self.one):
                out[m] = o + c
            elif o != c and all(x == "w" or (isinstance(x, int) and pow2(x)) for x in (o, c)) or o == c == "w":
                out[m] = "w"
            else:
                out[m] = "?"
        return {m: c for m, c in out.items() if c != 0}

    # ------------------------------------------------------------ values
    def coef(self, st, v):
        v = self.deref(st, v)
        if v.it and v.it[0] == "coef":
            return v.it[1]
        return "?"

    def lc_of(self, st, v, ty):
        """(form dict, may, must) of a Variable, LinearCombination or (coefficient, either)"""
        ty = self.strip_ref(ty) if ty is not None else None
        v = self.deref(st, v)
        t = self.T[ty] if ty is not None else None
        if t is not None and t["k"] == "tuple":
            k = self.deref(st, self.project(v, ".0"))
            d, may, must = self.lc_of(st, self.project(v, ".1"), t["ts"][1])
            c = self.coef(st, k)
            m1, m2 = self.deps(st, k)
            if c == 0:
                return {}, m1, m2
            return {m: cmul(c, x) for m, x in d.items()}, may | m1, must | m2
        if v.it and v.it[0] == "lc":
            return dict(v.it[1]), v.may, v.must
        may, must = self.deps(st, v)
        n = t["n"].split("::")[-1] if t is not None and t["k"] == "adt" else ""
        if not may:
            return {}, 0, 0
        if v.path is not None:
            self.seen_syms |= may
        known = may & (self.seen_syms | self.var_labels | self.one)
        for m in self.bits(may & ~known):
            if self.L.of(m)[0].endswith(".variable"):
                known |= m
                self.seen_syms |= m
        if known:
            known |= may & self.part_labels
        if n != "Variable" and v.path is None:
            return {known or may: "?"}, may, must
        return {known or may: 1}, may, must

    def lcv(self, d, may, must):
        return mk(may, must, it=form(d))

    # ------------------------------------------------------------ calls
    class Models:
        """functions of /repo and of the roots that are not inlined"""

        def __init__(self, e):
            self.e = e
            self.memo = {}

        def get(self, p):
            if p not in self.memo:
                self.memo[p] = self.find(p)
            return self.memo[p]

        def find(self, p):
            if p.endswith("}"):
                return None
            name = p.rsplit("::", 1)[1]
            if p.startswith(SELF):
                return lambda e, st, c: e.rec(st, c, name)
            if "::impl_lc::<impl" in p or p.startswith("<zkp_r1cs::LinearCombination<"):
                return lambda e, st, c: e.lc_op(st, c, name)
            if p in self.e.opaque:
                return GEngine.black_box
            if self.e.model_multieq and p.startswith((MEQ, MEQ.replace("MultiEq<", "MultiEq::<"))) and name == "enforce_equal":
                return GEngine.meq

    def black_box(self, st, c):
        """a gadget that is decided on its own: the result is a list of wires"""
        p = self.F[c.f["fn"]]["path"]
        may, must = self.deps(st, c.args[1])
        o = self.box.get(p)
        self.box[p] = (may, must) if o is None else (o[0] | may, o[1] & must)
        n = self.opaque[p]
        b = mk(kids={".variable": self.sym(n + "[*].variable"), ".value": self.sym(n + "[*].value")})
        w = mk(kids={".0!Is.0": b}, vg={0: 0})
        return ok(mk(kids={"[*]": w}), {0: 0}), st

    def meq(self, st, c):
        a, b = self.lc_of(st, c.args[2], c.aty[2]), self.lc_of(st, c.args[3], c.aty[3])
        self.constraint(st, c, a, ({self.one: 1}, self.one, self.one), b)
        return mk(), st

    def dispatch(self, st, c):
        if "fn" not in c.f and c.name:
            r = self.field_op(st, c)
            if r is not None:
                return r
        return Engine.dispatch(self, st, c)

    def call(self, st, uid, fid, fn, bb, t):
        self.lines.append((fn["file"], t[1]))
        try:
            return Engine.call(self, st, uid, fid, fn, bb, t)
        finally:
            self.lines.pop()

    def where(self):
        """the innermost call that is not plumbing of the constraint system itself"""
        for f, l in reversed(self.lines):
            if not f.endswith("constraint_system.rs") and "rustlib" not in f:
                return f, l
        return self.lines[-1]

    def __init__(self, facts):
        self.lines = []
        self.fn_models = self.Models(self)
        self.model_multieq = True
        self.opaque = {}
        self.box = {}
        Engine.__init__(self, facts)
        self.mark_parts = True

    def drop_glue(self, st, uid, fn, bb, locs, ty):
        t = self.T[ty]
        if self.model_multieq and t["k"] == "adt" and t.get("drop") is not None and self.F[t["drop"]]["path"].startswith("<" + MEQ):
            return st
        return Engine.drop_glue(self, st, uid, fn, bb, locs, ty)

    def phase(self):
        return ".".join("".join(map(str, p)) for p in self.phases if p)

    def rec(self, st, c, name):
        if name == "one":
            return self.lcv({self.one: 1}, self.one, self.one), st
        if name in ("alloc", "alloc_input"):
            r, st = self.invoke(st, c, c.args[2], [], "value")
            may = must = 0
            if r is not None:
                p = (r.kids or {}).get(".0!Ok.0")
                may, must = self.deps(st, p if p is not None else r)
            site = self.uid((c.uid, c.bb, "var"))
            n = "var#%d@%s" % (site, self.phase())
            b = self.L.bit(n)
            i = self.vars.get(b)
            self.var_labels |= b
            if i is None:
                self.vars[b] = i = {"site": site, "input": name == "alloc_input", "order": len(self.vars), "fn": c.fn["path"],
                                    "file": self.where()[0], "line": self.where()[1], "value": 0, "name": n, "ctl": 0,
                                    "stack": [self.F[x]["path"] for x in self.stack]}
            i["value"] |= may
            i["ctl"] |= st.ctl_may() | self.trip_mask()
            if (self.multi and self.multi[-1]) or "2" in self.phase():
                self.multi_labels |= b
            cv = dict(st.cv or {})
            if b in cv:
                self.again |= b
                cv[b] = (0, cv[b][0])
            else:
                cv[b] = (0, None)
            st.cv = cv
            return ok(mk(b, b), {0: 0}), st
        if name == "enforce":
            lc = []
            for i in (2, 3, 4):
                z = mk(it=form({}))
                r, st = self.invoke(st, c, c.args[i], [z], "lc%d" % i)
                if r is None:
                    return None, st
                lc.append(self.lc_of(st, r, None))
            self.constraint(st, c, *lc)
            return mk(), st
        if name in ("push_namespace", "pop_namespace"):
            return mk(), st
        if name == "num_constraints":
            return mk(), st
        return None

    def constraint(self, st, c, a, b, cc):
        site = self.uid((c.uid, c.bb, "cst"))
        n = "cst#%d@%s" % (site, self.phase())
        ix = self.cst_ix.setdefault(n, len(self.cst_ix))
        snap = {}
        allm = a[1] | b[1] | cc[1]
        for lab, x in (st.cv or {}).items():
            if lab & allm:
                snap[lab] = x
        k = self.csts.get(ix)
        forms = [x[0] for x in (a, b, cc)]
        may = [x[1] for x in (a, b, cc)]
        must = [x[2] for x in (a, b, cc)]
        if k is None:
            f, line = self.where()
            self.csts[ix] = {"site": site, "name": n, "forms": forms, "may": may, "must": must, "snap": snap, "cv": self.cvmask(st.cv), "fn": c.fn["path"], "file": f,
                             "line": line, "ctl": st.ctl_may() | self.trip_mask(), "order": ix, "stack": [self.F[x]["path"] for x in self.stack]}
        else:
            here = self.cvmask(st.cv)
            self.nota, self.notb = here & ~k["cv"], k["cv"] & ~here
            k["cv"] |= here
            k["forms"] = [dict(self.lc_join(x, y)[1]) if x != y else x for x, y in zip(k["forms"], forms)]
            self.nota = self.notb = 0
            k["may"] = [x | y for x, y in zip(k["may"], may)]
            k["must"] = [x & y for x, y in zip(k["must"], must)]
            k["snap"] = cv_join(k["snap"], snap)
            k["ctl"] |= st.ctl_may() | self.trip_mask()
        bit = 1 << ix
        st.cv = {lab: (x[0] | bit, x[1]) for lab, x in (st.cv or {}).items()}

    def lc_op(self, st, c, name):
        if name == "zero":
            return mk(it=form({})), st
        if name in ("clone", "from"):
            return self.lcv(*self.lc_of(st, c.args[0], c.aty[0])), st
        if name in ("add", "sub"):
            a, b = self.lc_of(st, c.args[0], c.aty[0]), self.lc_of(st, c.args[1], c.aty[1])
            d = b[0] if name == "add" else {m: cmul(-1, x) for m, x in b[0].items()}
            return self.lcv(self.add(a[0], d), a[1] | b[1], a[2] | b[2]), st
        if name == "neg":
            a = self.lc_of(st, c.args[0], c.aty[0])
            return self.lcv({m: cmul(-1, x) for m, x in a[0].items()}, a[1], a[2]), st
        if name == "mul":
            a = self.lc_of(st, c.args[0], c.aty[0])
            return self.scaled(st, a, c.args[1]), st
        if name in ("add_assign", "sub_assign", "mul_assign", "negate_in_place", "double_in_place", "replace_in_place"):
            a = self.lc_of(st, c.args[0], c.aty[0])
            if name == "mul_assign":
                r = self.scaled(st, a, c.args[1])
            elif name == "replace_in_place":
                r = self.lcv(*self.lc_of(st, c.args[1], c.aty[1]))
            elif name in ("negate_in_place", "double_in_place"):
                k = -1 if name[0] == "n" else 2
                r = self.lcv({m: cmul(k, x) for m, x in a[0].items()}, a[1], a[2])
            else:
                b = self.lc_of(st, c.args[1], c.aty[1])
                d = b[0] if name == "add_assign" else {m: cmul(-1, x) for m, x in b[0].items()}
                r = self.lcv(self.add(a[0], d), a[1] | b[1], a[2] | b[2])
            wr(self, st, c, 0, r)
            return mk(), st
        return None

    def scaled(self, st, a, k):
        x = self.coef(st, k)
        m1, m2 = self.deps(st, k)
        if x == 0:
            return self.lcv({}, a[1] | m1, a[2] | m2)
        return self.lcv({m: cmul(x, y) for m, y in a[0].items()}, a[1] | m1, a[2] | m2)

    BIN = {"std::ops::Add::add": 0, "std::ops::Sub::sub": 1, "std::ops::Mul::mul": 2}
    ASG = {"std::ops::AddAssign::add_assign": 0, "std::ops::SubAssign::sub_assign": 1, "std::ops::MulAssign::mul_assign": 2}

    def field_op(self, st, c):
        """constants of the scalar field"""
        n = c.name
        last = n.rsplit("::", 1)[-1]

        def cv(x, *args):
            may = must = 0
            for a in args:
                m1, m2 = self.deps(st, a)
                may |= m1
                must |= m2
            return mk(may, must, it=("coef", x))
        if n.endswith("One::one"):
            return cv(1), st
        if n.endswith("Zero::zero"):
            return cv(0), st
        if n == "std::convert::From::from" and c.args:
            a = self.deref(st, c.args[0])
            if isinstance(a.const, int) and not isinstance(a.const, bool) and "::Fp" in "::" + (self.T[c.dty].get("n") or "").split("::")[-1]:
                return cv(a.const, a), st
            return None
        if n == "std::ops::Neg::neg":
            k = self.coef(st, c.args[0])
            if k != "?":
                return cv(cmul(-1, k), c.args[0]), st
            return None
        if n in self.BIN or n in self.ASG:
            op = self.BIN.get(n, self.ASG.get(n))
            x, y = self.coef(st, c.args[0]), self.coef(st, c.args[1])
            if x == "?" or y == "?":
                return None
            if op == 2:
                r = cmul(x, y) if not (x == 0 or y == 0) else 0
            elif isinstance(x, int) and isinstance(y, int):
                r = x + y if op == 0 else x - y
            else:
                return None
            v = cv(r, *c.args)
            if n in self.ASG:
                wr(self, st, c, 0, v)
                return mk(), st
            return v, st
        if last == "pow" and len(c.args) == 2:
            x = self.coef(st, c.args[0])
            y = self.deref(st, c.args[1])
            while y.const is None and y.kids and len(y.kids) == 1 and set(y.kids) <= {"[*]", "[0]"}:
                y = self.deref(st, next(iter(y.kids.values())))
            if isinstance(x, int) and isinstance(y.const, int) and 0 <= y.const < 512:
                return cv(x ** y.const, *c.args), st
            return None
        if last in ("double", "double_in_place"):
            x = self.coef(st, c.args[0])
            v = cv(cmul(2, x) if x != 0 else 0, c.args[0])
            if x == "?":
                return None
            if last == "double":
                return v, st
            wr(self, st, c, 0, v)
            return c.args[0], st
        return None



class System:
    """what the constraints of one run determine"""

    def __init__(self, e, cv):
        self.e = e
        self.cv = cv or {}
        self.V = e.vars
        self.C = e.csts
        self.allv = 0
        for b in self.V:
            self.allv |= b
        self.free = []          # classes that nothing determines, in allocation order
        self.twin = {}          # instance of a later iteration -> the one of the second iteration
        by = {i["name"]: b for b, i in self.V.items()}
        for n, b in by.items():
            if "2" in n.split("@")[1]:
                t = by.get(n.split("@")[0] + "@" + n.split("@")[1].replace("2", "1"))
                if t:
                    self.twin[b] = t
        self.parts = {}         # parts of its container in which a variable occurs
        for c in self.C.values():
            for f in c["forms"]:
                for m in f:
                    if m & e.part_labels:
                        for b in self.bits(m & self.allv):
                            self.parts[b] = self.parts.get(b, 0) | m & e.part_labels
        self.solve()

    def partial(self, m):
        """the term is a variable of a part of a container, and no other part occurs anywhere"""
        return bool(m & self.e.part_labels) and any(bin(self.parts[b]).count("1") < 2 for b in self.bits(m & self.allv))

    def mustof(self, c, i=None):
        """variables that certainly occur; what holds of the second iteration holds of the later ones"""
        m = c["must"][i] if i is not None else c["must"][0] | c["must"][1] | c["must"][2]
        may = c["may"][i] if i is not None else c["may"][0] | c["may"][1] | c["may"][2]
        for b, t in self.twin.items():
            if t & m and b & may:
                m |= b
        return m

    def bits(self, m):
        while m:
            b = m & -m
            m ^= b
            yield b

    # -------------------------------------------------------- determinacy
    def emitted(self, b):
        x = self.cv.get(b)
        return x[0] if x else 0

    def solve(self):
        inputs = 0
        for b, i in self.V.items():
            if i["input"]:
                inputs |= b
        freem = 0
        while True:
            # what holds of older instances is assumed and has to be derived again
            self.prior = self.e.again
            self.olddefs = None
            while True:
                det = self.lfp(inputs | freem)
                if self.prior & ~det == 0 and self.olddefs == self.defs:
                    break
                self.prior &= det
                self.olddefs = self.defs
            und = self.allv & ~det
            if not und:
                break
            # the earliest variable nothing determines is a free choice of the prover
            first = min(self.bits(und), key=lambda b: self.V[b]["order"])
            site = self.V[first]["site"]
            self.free.append(site)
            for b, i in self.V.items():
                if i["site"] == site:
                    freem |= b
        self.det = det
        self.freem = freem
        self.inputs = inputs

    def lfp(self, det):
        self.defs = {}          # label -> constraints that determine it
        self.boolean = self.booleans()
        changed = True
        while changed:
            changed = False
            for ix, c in self.C.items():
                for b in self.defines(ix, c, det):
                    self.defs.setdefault(b, set()).add(ix)
                    det |= b
                    changed = True
            for b, ixs in list(self.is_zero(det)):
                if not det & b:
                    self.defs.setdefault(b, set()).update(ixs)
                    det |= b
                    changed = True
        return det

    def known(self, c, mask, det):
        """every variable the mask may stand for is determined where constraint c is emitted"""
        for b in self.bits(mask & self.allv & ~det):
            snap = c["snap"].get(b)
            if snap is None or not self.prior & b:
                return False
            m = snap[0] if mask == b else snap[0] | (snap[1] or 0)
            if not m or (self.olddefs is not None and not any(m >> i & 1 for i in self.olddefs.get(b, ()))):
                return False
        return True

    def const(self, d):
        return all(m == self.e.one for m in d)

    def nzconst(self, d):
        return set(d) == {self.e.one} and nonzero(d[self.e.one])

    def linear(self, c):
        """the constraint as one linear form that is zero, or None"""
        A, B, Cc = c["forms"]
        if self.nzconst(A):
            k, x = A[self.e.one], B
        elif self.nzconst(B):
            k, x = B[self.e.one], A
        elif not A or not B:
            k, x = 1, {}
        else:
            return None
        return self.e.add({m: cmul(k, y) for m, y in x.items()}, {m: cmul(-1, y) for m, y in Cc.items()})

    def target(self, c, d, det):
        """(term masks with something unknown)"""
        return [m for m in d if m & self.allv and not self.known(c, m, det)]

    def defines(self, ix, c, det):
        A, B, Cc = c["forms"]
        must = self.mustof(c)
        lin = self.linear(c)
        out = []
        cand = []
        for d, other in ((lin, []), (Cc, [A, B]), (A, [B, Cc]), (B, [A, Cc])):
            if d is None:
                continue
            if d is Cc and lin is not None:
                continue
            for m in d:
                if self.partial(m):
                    continue
                if len(self.e.sites(m)) != 1 and not (d is lin and (d[m] == "w" or isinstance(d[m], int))):
                    continue
                for b in self.bits(m & self.allv & must & ~det):
                    if not self.emitted(b) >> ix & 1:
                        continue
                    cand.append((d, other, m, b))
        for d, other, m, b in cand:
            if self.solves(c, d, other, m, b, det, lin):
                out.append(b)
        return out

    def solves(self, c, d, other, m, b, det, lin):
        """is b the unique solution of c, everything else being known"""
        A, B, Cc = c["forms"]
        # other occurrences of the label are older instances when a smaller mask names this one
        terms = [x for x in d if x & b]
        if len(terms) > 1 and (m != min(terms, key=lambda x: bin(x).count("1")) or any(x != m and x & m != m for x in terms)):
            return False
        rest = [x for x in d if x != m and x & self.allv and not self.known(c, x & ~b, det)]
        for o in other:
            if any(x & self.allv and not self.known(c, x & ~b if x != m else x, det) for x in o):
                return False
            if m in o or any(x & b and x & m != m for x in o):
                return False
        if d is lin:
            if not rest and nonzero(d[m]) and d[m] != "w" and len(self.e.sites(m)) == 1:
                return True
            if not rest and d[m] == "w" and not self.e.is_multi(m):
                return True
            # a packing: everything unknown is a bit and the weights double
            und = rest + [m]
            if all((x & self.allv & ~self.boolean) == 0 for x in und):
                ws = [d[x] for x in und]
                ints = [abs(w) for w in ws if isinstance(w, int)]
                if all(w == "w" or (isinstance(w, int) and pow2(w)) for w in ws) and len(set(ints)) == len(ints) and (len(und) == 1 and ws[0] == "w" or len(und) > 1):
                    return True
            return False
        if rest or not nonzero(d[m]) or d[m] == "w":
            return False
        if d is Cc:
            return True
        # a factor: the product is a nonzero constant and the other factor known
        return self.nzconst(Cc)

    def booleans(self):
        """labels forced to be 0 or 1"""
        e = self.e
        out = 0
        todo = []
        for ix, c in self.C.items():
            A, B, Cc = c["forms"]
            if Cc:
                continue
            for X, Y in ((A, B), (B, A)):
                ys = [m for m in Y if m != e.one]
                if len(ys) != 1 or e.one in Y:
                    continue
                m = ys[0]
                if self.partial(m):
                    continue
                k = Y[m]
                if not (isinstance(k, int) and k):
                    continue
                j = X.get(e.one)
                if not isinstance(j, int) or not isinstance(X.get(m), int) or X[m] != -j or j == 0:
                    continue
                extra = [x for x in X if x not in (m, e.one)]
                if len(extra) > 1 or any(X[x] != -j for x in extra):
                    continue
                todo.append((ix, c, m, extra))
        again = True
        while again:
            again = False
            for ix, c, m, extra in todo:
                if any(x & self.allv & ~out for x in extra):
                    continue
                must = self.mustof(c, 0) & self.mustof(c, 1)
                for b in self.bits(m & self.allv & must & ~out):
                    if self.emitted(b) >> ix & 1:
                        out |= b
                        again = True
        return out

    def is_zero(self, det):
        """inv * S = o and (1 - o) * S = 0 with S known: o says whether S is zero, inv is free exactly when it is"""
        e = self.e
        for i1, c1 in self.C.items():
            for X, S in ((c1["forms"][0], c1["forms"][1]), (c1["forms"][1], c1["forms"][0])):
                O = c1["forms"][2]
                if len(X) != 1 or len(O) != 1 or not S or self.target(c1, S, det):
                    continue
                inv, o = next(iter(X)), next(iter(O))
                if not (inv & self.allv and o & self.allv and nonzero(X[inv]) and nonzero(O[o])):
                    continue
                for i2, c2 in self.C.items():
                    for Y, S2 in ((c2["forms"][0], c2["forms"][1]), (c2["forms"][1], c2["forms"][0])):
                        if c2["forms"][2] or S2 != S:
                            continue
                        if set(Y) == {e.one, o} and isinstance(Y[o], int) and Y[o] and Y[e.one] == -Y[o]:
                            for b in self.bits((o | inv) & self.allv & self.mustof(c1)):
                                em = self.emitted(b)
                                if em >> i1 & 1 and (em >> i2 & 1 or b & inv):
                                    yield b, (i1, i2)

    # -------------------------------------------------------- dependence
    def depend(self):
        """for every variable, what its value depends on: arguments, inputs and free choices"""
        base = self.inputs | self.freem
        D = {b: b for b in self.V if b & base}
        again = True
        while again:
            # in the order in which they were determined; what is not known yet is an older instance
            again = False
            for b, ixs in self.defs.items():
                if b & base:
                    continue
                r = 0
                for ix in ixs:
                    r |= self.cst_deps(self.C[ix], D, b if b not in D or not b & self.e.again else 0)
                n = r if b not in D else D[b] & r
                if n != D.get(b):
                    D[b] = n
                    again = True
        self.D = D
        return D

    def mask_deps(self, m, must, D, skip=0):
        """instances of one allocation are alternatives, different ones the elements of a container"""
        per = {}
        r = 0
        for x in self.bits(m & ~skip):
            if x & self.allv and x not in D:
                continue
            d = D[x] if x in D else x
            if x & must:
                r |= d
            s = self.V[x]["site"] if x in self.V else x
            per[s] = per[s] & d if s in per else d
        for d in per.values():
            r |= d
        return r

    def cst_deps(self, c, D, skip=0):
        r = 0
        for j, d in enumerate(c["forms"]):
            must = self.mustof(c, j)
            r |= must & ~self.allv & ~self.e.one
            for m, k in d.items():
                if k != "~":
                    r |= self.mask_deps(m, must, D, skip)
        return r

    def residual(self):
        """constraints that determine nothing and are not booleanity: what the gadget asserts"""
        used = set()
        for s in self.defs.values():
            used |= s
        out = []
        for ix, c in self.C.items():
            if ix in used or self.vacuous(c) or any(self.partial(m) for f in c["forms"] for m in f):
                continue
            if c["forms"][2] == {} and any(m & self.boolean for f in c["forms"][:2] for m in f) and all(
                    len([m for m in f if m != self.e.one]) <= 1 for f in c["forms"][:2]) and self.is_bool_cst(c):
                continue
            out.append(ix)
        return out

    def vacuous(self, c):
        """x = x of single variables"""
        lin = self.linear(c)
        if lin is None or any(x != 0 for x in lin.values()):
            return False
        return all(bin(m).count("1") == 1 and not self.e.is_multi(m) and "[*]" not in self.e.L.of(m)[0] for f in c["forms"] for m in f)

    def used(self, ixs, alone=False):
        """variables whose value reaches one of the constraints; alone: where they are not one of several variables in a container"""
        if alone:
            seen = self.used(ixs)
            todo = set(ixs)
            for b in self.bits(seen):
                todo |= self.defs.get(b, set())
            r = 0
            for ix in todo:
                for f in self.C[ix]["forms"]:
                    for m in f:
                        if m & self.allv and len(self.e.sites(m)) == 1:
                            for x in self.bits(m & seen):
                                if ix in ixs or ix not in self.defs.get(x, ()):
                                    r |= x
            return r
        seen, todo = 0, []
        for ix in ixs:
            for f in self.C[ix]["forms"]:
                for m in f:
                    seen |= m & self.allv
        todo = list(self.bits(seen))
        while todo:
            b = todo.pop()
            for ix in self.defs.get(b, ()):
                for f in self.C[ix]["forms"]:
                    for m in f:
                        for x in self.bits(m & self.allv & ~seen):
                            if ix not in self.defs.get(x, ()):
                                seen |= x
                                todo.append(x)
        return seen

    def is_bool_cst(self, c):
        A, B, _ = c["forms"]
        a = [m for m in A if m != self.e.one]
        b = [m for m in B if m != self.e.one]
        return len(a) == 1 and a == b

    def show(self, d):
        return " + ".join("%s*%s" % (k, "|".join(self.name(b) for b in self.bits(m))) for m, k in d.items()) or "0"

    def name(self, b):
        i = self.V.get(b)
        if i is None:
            return self.e.L.of(b)[0]
        return "v@%s:%d" % (i["file"].rsplit("/", 1)[-1], i["line"])
