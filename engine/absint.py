"""Interprocedural abstract interpretation of exported MIR.

Every value is a tree of access-path labels.  For each value the engine keeps
  may   labels that can flow into it on some path,
  must  labels that flow into it on every path considered,
  vg    for booleans and enums: per variant, the labels that were compared on every
        path on which the value takes that variant,
and for the whole program state G, the labels compared on every path leading here.
Callees inside /repo are inlined (context sensitive); everything else is a model or the
default "result depends on all arguments, &mut arguments too".

Loops: the first two iterations are peeled and their loop-condition exits are dropped, that
is, loops are assumed to run at least twice.  A weak update of a container unions the must labels
(the elements of a container are treated as one unit that is traversed as a whole).
"""
import json
import sys
from collections import defaultdict

sys.setrecursionlimit(20000)


PEEL = 2    # leading iterations analysed on their own; loops are assumed to run at least that often


class AnalysisError(Exception):
    pass


# ----------------------------------------------------------------- labels
class Labels:
    def __init__(self):
        self.ix = {}
        self.names = []
        self.datamemo = {}

    def bit(self, name):
        i = self.ix.get(name)
        if i is None:
            i = len(self.names)
            self.ix[name] = i
            self.names.append(name)
        return 1 << i

    def data(self, mask):
        """the source labels of a mask"""
        r = self.datamemo.get(mask)
        if r is None:
            r = 0
            m = mask
            while m:
                low = m & -m
                m ^= low
                if "#" not in self.names[low.bit_length() - 1]:
                    r |= low
            self.datamemo[mask] = r
        return r

    def of(self, mask):
        out = []
        i = 0
        while mask:
            low = mask & -mask
            out.append(self.names[low.bit_length() - 1])
            mask ^= low
        return out


# ----------------------------------------------------------------- values
class V:
    __slots__ = ("may", "must", "path", "kids", "vg", "ref", "const", "fn", "it", "__weakref__")

    def __repr__(self):
        return "V(%s)" % ", ".join(
            "%s=%r" % (s, getattr(self, s))
            for s in ("may", "must", "path", "kids", "vg", "ref", "const", "fn", "it")
            if getattr(self, s) not in (None, 0, {})
        )


_intern = {}


def mk(may=0, must=0, path=None, kids=None, vg=None, ref=None, const=None, fn=None, it=None):
    if kids is not None and not kids:
        kids = None
    key = (
        may,
        must,
        path,
        None if kids is None else frozenset((k, id(v)) for k, v in kids.items()),
        None if vg is None else frozenset(vg.items()),
        ref,
        None if const is None else (type(const), const),
        fn,
        it,
    )
    v = _intern.get(key)
    if v is None:
        v = V()
        v.may = may
        v.must = must
        v.path = path
        v.kids = kids
        v.vg = vg
        v.ref = ref
        v.const = const
        v.fn = fn
        v.it = it
        _intern[key] = v
    return v


def reset_intern():
    _intern.clear()


EMPTY = None  # set below


def leaf(may, must):
    return mk(may, must)


def kconst(c):
    if isinstance(c, bool):
        return mk(const=c, vg={1 if c else 0: 0})
    return mk(const=c)


def key_variant(k):
    """variant index of an enum payload key '.1!Some.0', else None"""
    i = k.find("!")
    if i < 0 or k[0] != ".":
        return None
    return int(k[1:i])


def path_key(k):
    """how a key shows up in a label"""
    i = k.find("!")
    if i < 0:
        return k
    name = k[i + 1:]
    if name.endswith(".0"):
        # payload of a variant: same label as the enum itself
        return ""
    return "." + name


def span(k):
    """'[a..b]' -> (a, b); b is None (open) or an end relative to the length when negative"""
    if k[-3:] == "..]":
        return int(k[1:-3]), None
    i = k.find("..")
    if i < 0:
        return None
    return int(k[1:i]), int(k[i + 2:-1])


def span_key(a, b):
    if b is None:
        return "[%d..]" % a if a else "[*]"
    if b == a + 1:
        return "[%d]" % a
    return "[%d..%d]" % (a, b)


def shift_key(k, off):
    """key of element i of the view starting at off"""
    if k == "[*]":
        return span_key(off, None)
    sp = span(k)
    if sp is None:
        return "[%d]" % (int(k[1:-1]) + off)
    a, b = sp
    return span_key(a + off, b + off if b is not None and b > 0 else b)


# a challenge or a blinding drawn from fewer bits than this does not count as one
FULL_BITS = 96
# added to the end of a span that is min(length, constant)
CAP = 1 << 20


def index_range(a, b, off=0):
    """value of the index of a loop over a..b+off, None when a is unknown"""
    lo = a.const if isinstance(a.const, int) and not isinstance(a.const, bool) else None
    if a.it and a.it[0] == "idx":
        lo = a.it[1]
    if lo is None:
        return None
    end = None
    if isinstance(b.const, int):
        end = b.const + off
    elif b.it and b.it[0] == "cap":
        end = b.it[1] + CAP
    elif b.it and b.it[0] == "lin" and b.it[2] + off < 0:
        end = (b.it[1], b.it[2] + off)
    if isinstance(end, int) and end <= lo:
        end = None
    return mk(a.may | b.may, 0, it=("idx", lo, end) if lo or end is not None else None)


class Engine:
    def __init__(self, facts):
        self.mark_parts = False
        self.part_labels = 0
        self.T = facts["types"]
        self.F = {f["id"]: f for f in facts["fns"]}
        self.roots = {n.split("::", 1)[1] if n.startswith("vroots::") else n: i for n, i in facts["roots"]}
        self.all = facts["all"]
        self.L = Labels()
        self.cfg_cache = {}
        self.deps_memo = {}
        self.reset()

    # ------------------------------------------------------------ run state
    def reset(self):
        self.starts = {}
        self.unroll = {}        # (frame, loop head) -> number of items written out
        self.records = {}       # draw/challenge label -> must mask absorbed
        self.records_may = {}
        self.draws = {}         # label -> info dict
        self.drawbits = 0
        self.aliases = {}
        self.cmps = {}          # comparison label -> info dict
        self.uids = {}
        self.uid_list = []
        self.events = []        # callbacks append here
        self.stack = []
        self.phases = []        # stack of loop phases, one entry per frame
        self.frames = []        # (cfg, block, uid) of every frame
        self.nfresh = 0
        self.insts = {}         # draw instance -> [label, what the generator may have seen, its bit, repeated]
        self.trips = {}         # (uid, block) -> what the iteration count decided there may depend on
        self.itlens = []        # the same for the iterator adaptors around the current call
        self.closures = 0       # iterator adaptors around the current call
        self.multi = []         # stack of booleans: inside a repeated context
        self.hooks = []
        self.visited_fns = set()
        self.ncalls = 0
        self.nstmts = 0
        self.unmodelled = defaultdict(int)
        self.assumed_opaque = set()

    def uid(self, key):
        i = self.uids.get(key)
        if i is None:
            i = len(self.uid_list)
            self.uids[key] = i
            self.uid_list.append(key)
        return i

    # ------------------------------------------------------------ types
    def t(self, i):
        return self.T[i]

    TRANSPARENT = (
        "std::boxed::Box",
        "std::ptr::Unique",
        "std::ptr::NonNull",
        "std::mem::MaybeUninit",
        "std::mem::ManuallyDrop",
        "std::mem::MaybeDangling",
        "std::cell::UnsafeCell",
        "std::rc::Rc",
        "std::sync::Arc",
        "std::cmp::Reverse",
    )

    def is_transparent(self, ty):
        if ty is None:
            return False
        t = self.T[ty]
        return t["k"] == "adt" and t["n"].replace("core::", "std::").replace("alloc::", "std::") in self.TRANSPARENT

    def strip_ref(self, ty):
        while ty is not None and self.T[ty]["k"] in ("ref", "ptr"):
            ty = self.T[ty]["t"]
        return ty

    def is_bool(self, ty):
        return ty is not None and self.T[ty]["k"] == "bool"

    def adt_name(self, ty):
        t = self.T[ty]
        return t["n"] if t["k"] == "adt" else None

    def type_str(self, i, d=0):
        if i is None:
            return "?"
        t = self.T[i]
        k = t["k"]
        if d > 4:
            return ".."
        if k == "adt":
            n = t["n"].split("::")[-1]
            return n + ("<" + ",".join(self.type_str(a, d + 1) for a in t["a"]) + ">" if t["a"] else "")
        if k in ("ref", "ptr"):
            return "&" + ("mut " if t["m"] else "") + self.type_str(t["t"], d + 1)
        if k in ("slice", "array"):
            return "[" + self.type_str(t["t"], d + 1) + "]"
        if k == "tuple":
            return "(" + ",".join(self.type_str(a, d + 1) for a in t["ts"]) + ")"
        return t.get("n") or k

    # ------------------------------------------------------------ values
    def sym(self, path):
        b = self.L.bit(path)
        return mk(b, b, path=path)

    def project(self, v, key):
        k = v.kids
        if k is not None:
            r = k.get(key)
            if key[0] == "[":
                sp = span(key)
                if sp is not None:
                    # part of the elements
                    r = None
                    for kk, x in k.items():
                        if kk[0] == "[":
                            if kk != "[*]" and ".." not in kk:
                                i = int(kk[1:-1])
                                if i < sp[0] or (sp[1] is not None and sp[1] >= 0 and i >= sp[1]):
                                    continue
                            r = x if r is None else self.ojoin(r, x)
                    if r is not None:
                        if sp[1] is not None and sp[1] >= CAP and "[*]" in k:
                            r = self.weaken(r)      # a fixed number of elements of a list
                        if v.path is not None:
                            r = self.ojoin(r, self.sym(v.path + key))
                        return r
                elif key == "[*]":
                    # every element
                    r = None
                    for kk, x in k.items():
                        if kk[0] == "[":
                            r = x if r is None else self.ojoin(r, x)
                elif r is not None:
                    e = k.get("[*]")
                    if e is not None:
                        r = self.ojoin(r, e)
                else:
                    r = k.get("[*]")
                if r is not None:
                    if v.path is not None and key == "[*]":
                        r = self.ojoin(r, self.sym(v.path + "[*]"))
                    return r
            elif r is not None:
                return r
        if v.path is not None:
            pk = path_key(key)
            return self.sym(v.path + pk)
        if v.may == 0 and v.must == 0:
            return mk()
        return mk(v.may, v.must)

    def setkid(self, v, key, x, weak=False):
        kids = dict(v.kids) if v.kids else {}
        if key[0] == "[" and ".." in key:
            key = "[*]"
        if weak:
            old = kids.get(key)
            if old is None and (v.path is not None or v.may):
                old = self.project(v, key)
            kids[key] = x if old is None else self.ojoin(old, x)
        else:
            kids[key] = x
        return mk(v.may, v.must, v.path, kids, None if weak else v.vg, v.ref, None, v.fn, v.it)

    def weaken(self, v, depth=0):
        """the value, of which only a part is known to be used"""
        kids = None
        if v.kids and depth < 6:
            kids = {k: self.weaken(x, depth + 1) for k, x in v.kids.items()}
        if not v.must and kids is None and v.path is None:
            return v
        may = v.may
        if v.path is not None:
            may |= self.L.bit(v.path)
        return mk(may, 0, None, kids, v.vg, v.ref, v.const, v.fn, v.it)

    def ojoin(self, a, b):
        """optimistic join: elements of one container, must labels are unioned"""
        if a is b:
            return a
        return self._join(a, b, True, 0, 0, 0)

    def join(self, a, b, ga=0, gb=0):
        if a is b:
            return a
        return self._join(a, b, False, ga, gb, 0)

    def _vgjoin(self, a, b, opt, ga, gb):
        va, vb = a.vg, b.vg
        if va is None and vb is None:
            return None
        if va is None:
            va = {k: a.must for k in (0, 1)} if not self._is_enumish(a) else None
        if vb is None:
            vb = {k: b.must for k in (0, 1)} if not self._is_enumish(b) else None
        if va is None or vb is None:
            return None
        out = {}
        for k in set(va) | set(vb):
            if k not in va:
                out[k] = vb[k] | gb
            elif k not in vb:
                out[k] = va[k] | ga
            elif opt:
                out[k] = va[k] & vb[k]
            else:
                out[k] = (va[k] | ga) & (vb[k] | gb)
        return out

    def _is_enumish(self, v):
        return v.path is not None

    def _join(self, a, b, opt, ga, gb, depth):
        if a is b:
            return a
        may = a.may | b.may
        must = (a.must | b.must) if opt else (a.must & b.must)
        if not opt and self.drawbits:
            la = a.must & ~b.must & self.drawbits
            if la:
                lb = b.must & ~a.must & self.drawbits
                if lb:
                    must |= self.alias(la, lb)
        path = a.path if a.path == b.path else None
        kids = None
        if (a.kids or b.kids) and depth < 10:
            kids = {}
            ka, kb = a.kids or {}, b.kids or {}
            for k in list(ka) + [x for x in kb if x not in ka]:
                var = key_variant(k)
                if var is not None:
                    ina = a.vg is None or var in a.vg
                    inb = b.vg is None or var in b.vg
                    if not ina and inb:
                        kids[k] = self._addvg(self.project(b, k), gb)
                        continue
                    if not inb and ina:
                        kids[k] = self._addvg(self.project(a, k), ga)
                        continue
                xa = ka.get(k)
                xb = kb.get(k)
                if xa is None:
                    xa = self.project(a, k)
                if xb is None:
                    xb = self.project(b, k)
                kids[k] = self._join(xa, xb, opt, ga, gb, depth + 1)
        elif a.kids or b.kids:
            for s in (a, b):
                m1, m2 = self.vdeps(s)
                may |= m1
        ref = None
        if a.ref or b.ref:
            ref = (a.ref or frozenset()) | (b.ref or frozenset())
        const = a.const if (a.const is not None and b.const is not None and type(a.const) == type(b.const) and a.const == b.const) else None
        fn = a.fn if a.fn == b.fn else (a.fn or b.fn)
        it = a.it if a.it == b.it else self.it_join(a.it, b.it, opt)
        return mk(may, must, path, kids, self._vgjoin(a, b, opt, ga, gb), ref, const, fn, it)

    def alias(self, la, lb):
        """two draws of one function for the same value, as in rejection sampling, count as one"""
        key = (la, lb)
        if key in self.aliases:
            return self.aliases[key]
        out = 0
        xs, ys = self.L.of(la), self.L.of(lb)
        if len(xs) == 1 and len(ys) == 1:
            x, y = self.first_alias(xs[0]), self.first_alias(ys[0])
            dx, dy = self.draws[x], self.draws[y]
            if x == y:
                out = self.L.bit(x)
            elif dx["uid"] == dy["uid"] and dx["type"] == dy["type"] and (
                    dx["bb"] != dy["bb"] or self.redraws(dx)):
                a, b = sorted((x, y), key=lambda n: self.draws[n]["order"])
                self.records[a] &= self.records[b]
                self.records_may[a] |= self.records_may[b]
                self.draws[b]["alias"] = a
                out = self.L.bit(a)
        self.aliases[key] = out
        return out

    def redraws(self, d):
        """is there an earlier draw of the same value outside the loop, or is the function a sampler"""
        return d["sampler"] or any(x["uid"] == d["uid"] and x["type"] == d["type"] and x["bb"] != d["bb"] and x["order"] < d["order"]
                   for x in self.draws.values())

    def first_alias(self, n):
        while "alias" in self.draws[n]:
            n = self.draws[n]["alias"]
        return n

    def it_join(self, a, b, opt):
        return None

    def _addvg(self, v, g):
        if not g:
            return v
        vg = v.vg
        if vg is None:
            if v.path is not None or v.kids:
                return v
            vg = {0: v.must, 1: v.must}
        return mk(v.may, v.must, v.path, v.kids, {k: x | g for k, x in vg.items()}, v.ref, v.const, v.fn, v.it)

    def vdeps(self, v):
        """deps of the value tree without following references"""
        r = self.deps_memo.get(v)
        if r is None:
            may, must = v.may, v.must
            if v.kids:
                for x in v.kids.values():
                    a, b = self.vdeps(x)
                    may |= a
                    must |= b
            r = (may, must)
            self.deps_memo[v] = r
        return r

    def has_ref(self, v):
        if v.ref:
            return True
        if v.kids:
            return any(self.has_ref(x) for x in v.kids.values())
        return False

    def deps(self, st, v, seen=None):
        may, must = self.vdeps(v)
        if not self.has_ref(v):
            return may, must
        seen = set() if seen is None else seen
        stack = [v]
        while stack:
            x = stack.pop()
            if x.ref:
                cm = None
                for loc in x.ref:
                    if loc in seen:
                        continue
                    seen.add(loc)
                    a, b = self.deps(st, self.load(st, loc), seen)
                    may |= a
                    cm = b if cm is None else (cm & b)
                if cm:
                    must |= cm
            if x.kids:
                stack.extend(x.kids.values())
        return may, must

    # ------------------------------------------------------------ store
    def load(self, st, loc):
        uid, local, path = loc
        fr = st.f.get(uid)
        if fr is None:
            return mk()
        v = fr.get(local)
        if v is None:
            return mk()
        for k in path:
            v = self.project(v, k)
        return v

    def deref(self, st, v):
        """value behind a reference (identity on symbolic values)"""
        n = 0
        while v.ref and n < 8:
            r = None
            for loc in v.ref:
                x = self.load(st, loc)
                r = x if r is None else self.join(r, x)
            v = r
            n += 1
        return v

    def deref1(self, st, v):
        if not v.ref:
            return v
        r = None
        for loc in v.ref:
            x = self.load(st, loc)
            r = x if r is None else self.join(r, x)
        return r

    def store(self, st, locs, x, weak=False):
        single = len(locs) == 1
        for uid, local, path in locs:
            fr = st.wframe(uid)
            if fr is None:
                continue
            if not path:
                if single and not weak:
                    fr[local] = x
                else:
                    old = fr.get(local)
                    fr[local] = x if old is None else self.join(old, x)
                continue
            base = fr.get(local)
            if base is None:
                base = mk()
            fr[local] = self._store_path(base, path, 0, x, weak or not single)

    def _store_path(self, v, path, i, x, weak):
        key = path[i]
        if key[0] == "[" and ".." in key:
            key = "[*]"
        w = weak or key == "[*]"
        if i == len(path) - 1:
            if weak and key != "[*]":
                x = self.join(self.project(v, key), x)
                return self.setkid(v, key, x)
            return self.setkid(v, key, x, weak=(key == "[*]"))
        sub = self.project(v, key)
        nsub = self._store_path(sub, path, i + 1, x, weak)
        return self.setkid(v, key, nsub)

    # ------------------------------------------------------------ places
    def place(self, st, uid, fn, p):
        """-> (locs, type id)"""
        ty = fn["locals"][p[0]]
        locs = ((uid, p[0], ()),)
        variant = None
        for e in p[1:]:
            if e == "*":
                tt = self.T[ty]
                nl = []
                for loc in locs:
                    v = self.load(st, loc)
                    if v.ref:
                        nl.extend(v.ref)
                    else:
                        nl.append(loc)
                locs = tuple(dict.fromkeys(nl))
                ty = tt["t"] if tt["k"] in ("ref", "ptr") else (tt["a"][0] if tt["k"] == "adt" and tt["a"] else ty)
            elif e[0] == "f":
                if not self.is_transparent(ty):
                    key = self.field_key(ty, e[1], variant)
                    locs = tuple((u, l, q + (key,)) for u, l, q in locs)
                ty = e[2]
                variant = None
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                iv = self.load(st, (uid, e[1], ()))
                locs = tuple((u, l, q + (self.index_key(st, iv, (u, l, q)),)) for u, l, q in locs)
                ty = self.elem_ty(ty)
            elif e[0] == "c":
                key = "[*]" if e[2] else "[%d]" % e[1]
                locs = tuple((u, l, q + (key,)) for u, l, q in locs)
                ty = self.elem_ty(ty)
            # subslice / opaque: identity
        return locs, ty

    def index_key(self, st, iv, loc):
        """key under which the element with index iv of the container at loc is found"""
        if isinstance(iv.const, int) and not isinstance(iv.const, bool):
            return "[%d]" % iv.const
        if iv.it and iv.it[0] == "idx":
            lo, end = iv.it[1], iv.it[2]
            b = None
            if isinstance(end, int):
                b = end
            elif end is not None:
                c = self.load(st, loc)
                if c.path is not None and c.path + ".#len" == end[0]:
                    b = end[1]
            return span_key(lo, b)
        return "[*]"

    def elem_ty(self, ty):
        t = self.T[ty]
        return t.get("t", ty)

    def field_key(self, ty, idx, variant):
        t = self.T[ty]
        if t["k"] == "adt":
            if t["e"]:
                v = t["v"][variant or 0]
                return ".%d!%s.%s" % (variant or 0, v[0], v[1][idx][0])
            return "." + t["v"][0][1][idx][0]
        return ".%d" % idx

    def read(self, st, locs):
        r = None
        for loc in locs:
            v = self.load(st, loc)
            r = v if r is None else self.join(r, v)
        return r

    def operand(self, st, uid, fn, o):
        if o[0] == "k":
            return self.konst(o)
        locs, ty = self.place(st, uid, fn, o[1])
        v = self.read(st, locs)
        for x in o[1][1:]:
            if x[0] == "i":
                iv = self.load(st, (uid, x[1], ()))
                v = self.indexed(v, iv)
                if isinstance(iv.const, int) and self.narrow_elem(v, ty):
                    v = self.weaken(v)
            elif x[0] == "c" and self.narrow_elem(v, ty):
                v = self.weaken(v)
        return v

    def width_of(self, ty):
        """width of an integer type, or of an array of them; None for anything else"""
        t = self.T[ty] if ty is not None else {}
        k = t.get("k")
        if k == "bool":
            return 1
        if k in ("uint", "int"):
            return {"usize": 64, "isize": 64}.get(t["n"]) or int(t["n"][1:])
        if k == "array" and isinstance(t.get("len"), int):
            b = self.width_of(t["t"])
            return b * t["len"] if b else None
        return None

    def narrow_elem(self, v, ty):
        """a single limb or byte of an opaque value"""
        if not v.must or v.kids or v.path is not None or v.ref:
            return False
        b = self.width_of(ty)
        return b is not None and b < FULL_BITS

    def indexed(self, v, iv):
        """an element selected by data depends on that data"""
        may, must = self.L.data(iv.may), self.L.data(iv.must)
        if not may or v.ref or v.fn:
            return v
        return mk(v.may | may, v.must | must, path=v.path, kids=v.kids, vg=v.vg, it=v.it)

    def konst(self, o):
        ty, c = o[1], o[2]
        if ty is not None:
            t = self.T[ty]
            if t["k"] == "fndef":
                return mk(fn=("fndef", ty))
            if t["k"] == "closure":
                return mk(fn=("closure", ty))
            if t["k"] == "bool" and "i" in c:
                return kconst(bool(c["i"]))
            if t["k"] == "adt" and t["e"]:
                d = self.const_variant(t, c)
                if d is not None:
                    return mk(vg={d: 0})
        if "i" in c:
            return mk(const=c["i"], it=("lit", c["i"])) if isinstance(c["i"], int) and c["i"] > 1 else kconst(c["i"])
        if "s" in c:
            return kconst(c["s"])
        if "r" in c and isinstance(c["r"], dict) and "i" in c["r"]:
            return kconst(c["r"]["i"])
        if "r" in c and isinstance(c["r"], dict) and "b" in c["r"]:
            return kconst("#" + c["r"]["b"])
        if "r" in c and isinstance(c["r"], str):
            return kconst("#" + c["r"])
        if "b" in c:
            return kconst("#" + c["b"])
        return mk()

    def const_variant(self, t, c):
        # fieldless or small enums exported as bytes: trust only Option::None / unit enums
        b = c.get("b")
        if b is None or c.get("p"):
            return None
        if all(not v[1] for v in t["v"]) and len(b) == 2:
            return int(b, 16)
        return None

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, uid, fn, r, dst_ty, bb):
        k = r[0]
        if k == "use":
            return self.operand(st, uid, fn, r[1])
        if k in ("ref", "addr"):
            locs, ty = self.place(st, uid, fn, r[1])
            # a reference to a symbolic place that is itself reached through a symbolic
            # reference keeps its location
            return mk(ref=frozenset(locs))
        if k == "bin":
            a = self.operand(st, uid, fn, r[2])
            b = self.operand(st, uid, fn, r[3])
            self.cmp_ctx = (uid, bb, fn, 0)
            v = self.binop(st, r[1], a, b)
            self.cmp_ctx = None
            if r[4]:
                return mk(kids={".0": v, ".1": mk()})
            return v
        if k == "un":
            a = self.operand(st, uid, fn, r[2])
            if r[1] == "Not":
                c = (not a.const) if isinstance(a.const, bool) else None
                vg = None
                if a.vg is not None:
                    vg = {1 - kk: m for kk, m in a.vg.items() if kk in (0, 1)}
                return mk(a.may, a.must, vg=vg, const=c)
            if r[1] == "PtrMetadata":
                return self.lenof(st, a)
            return mk(*self.deps(st, a))
        if k == "cast":
            a = self.operand(st, uid, fn, r[2])
            if r[1].startswith("IntToInt"):
                if isinstance(a.const, bool):
                    return mk(a.may, a.must, const=int(a.const))
                return mk(a.may, a.must, const=a.const, path=a.path, it=a.it if a.it and a.it[0] in ("idx", "lin") else None)
            return a
        if k == "discr":
            locs, ty = self.place(st, uid, fn, r[1])
            v = self.read(st, locs)
            it = ("discr", locs[0]) if len(locs) == 1 else None
            return mk(v.may, v.must, vg=v.vg, it=it)
        if k == "len":
            locs, ty = self.place(st, uid, fn, r[1])
            t = self.T[ty]
            if t["k"] == "array" and t["len"] is not None:
                return kconst(t["len"])
            return self.lenof(st, self.read(st, locs))
        if k == "adt":
            ops = [self.operand(st, uid, fn, o) for o in r[3]]
            t = self.T[r[1]]
            if self.is_transparent(r[1]) and ops:
                return ops[0]
            kids = {}
            var = r[2]
            for i, o in enumerate(ops):
                kids[self.field_key(r[1], i, var)] = o
            return mk(kids=kids, vg={var: 0} if t["e"] else None)
        if k == "closure":
            ops = [self.operand(st, uid, fn, o) for o in r[2]]
            return mk(kids={".%d" % i: o for i, o in enumerate(ops)}, fn=("closure", r[1]))
        if k == "tuple":
            ops = [self.operand(st, uid, fn, o) for o in r[1]]
            return mk(kids={".%d" % i: o for i, o in enumerate(ops)})
        if k == "array":
            ops = [self.operand(st, uid, fn, o) for o in r[1]]
            return mk(kids={"[%d]" % i: o for i, o in enumerate(ops)})
        if k == "repeat":
            a = self.operand(st, uid, fn, r[1])
            n = self.T[dst_ty] if dst_ty is not None else {}
            return mk(kids={"[*]": a}, it=("repeat", n.get("len") if n.get("k") == "array" else None))
        return mk()

    def lenof(self, st, v):
        v = self.deref(st, v)
        if v.path is not None and not v.kids:
            return self.sym(v.path + ".#len")
        if v.kids and not v.path:
            ks = [k for k in v.kids if k[0] == "["]
            if ks and "[*]" not in ks and v.may == 0:
                return kconst(len(ks))
        # length of a derived container: tainted by the lengths it was built from
        may = 0
        it = v.it
        if it and it[0] == "len":
            return mk(it[1], it[2])
        m1, m2 = self.deps(st, v)
        return mk(m1, 0)

    def binop(self, st, op, a, b):
        am, bm = (a.may, a.must), (b.may, b.must)
        may, must = a.may | b.may, a.must | b.must
        ca, cb = a.const, b.const
        const = None
        if isinstance(ca, int) and isinstance(cb, int) and not isinstance(ca, bool) and not isinstance(cb, bool):
            try:
                const = {
                    "Add": lambda: ca + cb, "Sub": lambda: ca - cb, "Mul": lambda: ca * cb,
                    "Div": lambda: ca // cb, "Rem": lambda: ca % cb, "Shl": lambda: ca << cb, "Shr": lambda: ca >> cb,
                    "BitAnd": lambda: ca & cb, "BitOr": lambda: ca | cb, "BitXor": lambda: ca ^ cb,
                    "Eq": lambda: ca == cb, "Ne": lambda: ca != cb, "Lt": lambda: ca < cb,
                    "Le": lambda: ca <= cb, "Gt": lambda: ca > cb, "Ge": lambda: ca >= cb,
                }[op.replace("Unchecked", "")]()
            except Exception:
                const = None
            if isinstance(const, int) and not isinstance(const, bool) and (const < 0 or const >= 1 << 64):
                const = None
        if const is not None:
            return kconst(const)
        if op in ("Add", "Sub", "AddUnchecked", "SubUnchecked"):
            it = self._index_arith(op[:3], a, b)
            if it is not None:
                return mk(may, must, it=it)
        if op == "Eq" or op == "Ne":
            m = must
            if a.path is not None and a.path == b.path:
                m = 0
            # comparing a boolean with a constant keeps what the boolean implies
            for x, y in ((a, b), (b, a)):
                if isinstance(y.const, (bool, int)) and x.vg is not None and y.const in (0, 1, True, False):
                    c = int(y.const)
                    t1 = x.vg.get(c)
                    t0 = x.vg.get(1 - c)
                    vg = {}
                    if t1 is not None:
                        vg[1] = t1
                    if t0 is not None:
                        vg[0] = t0
                    if op == "Ne":
                        vg = {1 - k: z for k, z in vg.items()}
                    return mk(may, must, vg=vg)
            if m and self.cmp_ctx is not None:
                m |= self.compared(self.cmp_ctx, m, may, (a, b), st)
            vg = {1: m, 0: 0}
            if op == "Ne":
                vg = {0: m, 1: 0}
            return mk(may, must, vg=vg)
        if self.track_order and op in ("Lt", "Le", "Gt", "Ge"):
            ua, ub = self.track_order(self, a.must), self.track_order(self, b.must)
            if bool(ua) != bool(ub):
                big, small = self.bounds("lo", ua or ub), self.bounds("hi", ua or ub)
                if (op in ("Gt", "Ge")) != bool(ua):
                    big, small = small, big
                return mk(may, must, vg={1: big, 0: small})
        if op in ("BitAnd", "BitOr") and (a.vg is not None or b.vg is not None):
            va = a.vg if a.vg is not None else {0: a.must, 1: a.must}
            vb = b.vg if b.vg is not None else {0: b.must, 1: b.must}
            vg = {}
            if op == "BitAnd":
                if 1 in va and 1 in vb:
                    vg[1] = va[1] | vb[1]
                z = [x[0] for x in (va, vb) if 0 in x]
                if z:
                    vg[0] = z[0] if len(z) == 1 else z[0] & z[1]
            else:
                if 0 in va and 0 in vb:
                    vg[0] = va[0] | vb[0]
                z = [x[1] for x in (va, vb) if 1 in x]
                if z:
                    vg[1] = z[0] if len(z) == 1 else z[0] & z[1]
            return mk(may, must, vg=vg)
        return mk(may, must)

    def bounds(self, side, labels):
        r = 0
        for l in labels:
            r |= self.L.bit("#%s:%s" % (side, l))
        return r

    def _index_arith(self, op, a, b):
        """affine forms of loop indices and container lengths"""
        if op == "Add" and isinstance(a.const, int):
            a, b = b, a
        if not isinstance(b.const, int) or isinstance(b.const, bool):
            return None
        d = b.const if op == "Add" else -b.const
        if a.path is not None and a.path.endswith(".#len"):
            return ("lin", a.path, d) if d else None
        if a.it and a.it[0] == "lin":
            return ("lin", a.it[1], a.it[2] + d) if a.it[2] + d else None
        if a.it and a.it[0] == "idx":
            lo, end = a.it[1] + d, a.it[2]
            if lo < 0:
                return None
            if isinstance(end, int):
                end += d
            elif end is not None:
                end = (end[0], end[1] + d)
                if end[1] >= 0:
                    end = None
            return ("idx", lo, end) if lo or end is not None else None
        return None

    # ------------------------------------------------------------ CFG helpers
    def cfg(self, fid):
        c = self.cfg_cache.get(fid)
        if c is None:
            c = CFG(self.F[fid])
            self.cfg_cache[fid] = c
        return c

    # ------------------------------------------------------------ interpretation
    def call_fn(self, st, caller_uid, site, fid, args):
        """inline fid; -> (value or None if it never returns, state)"""
        keep, self.keep_parts = self.keep_parts, False
        parts = self.call_parts(st, caller_uid, site, fid, args)
        if keep:
            return parts
        if not parts:
            return None, st
        v, s = parts[0][1:]
        for _, w, t in parts[1:]:
            v, s = self.join(v, w, s.G, t.G), self.join_state(s, t)
        return v, s

    def shape(self, v, depth=0):
        """what is definitely known about the discriminants and booleans of a returned value"""
        if isinstance(v.const, bool):
            return ("b", v.const)
        out = []
        if v.vg is not None and len(v.vg) == 1:
            out.append(("d", next(iter(v.vg))))
        if v.kids and depth < 3:
            for k in sorted(v.kids):
                if k[0] == ".":
                    x = self.shape(v.kids[k], depth + 1)
                    if x:
                        out.append((k, x))
        return tuple(out)

    def call_parts(self, st, caller_uid, site, fid, args):
        """inline fid; -> [(shape, value, state)], one entry per shape of the result"""
        fn = self.F[fid]
        if self.stack.count(fid) >= 2 or len(self.stack) > 60:
            self.assumed_opaque.add(fn["path"])
            return [((), self.opaque_result(st, args), st)]
        uid = self.uid((caller_uid, site, fid))
        self.ncalls += 1
        self.visited_fns.add(fid)
        st.newframe(uid)
        fr = st.wframe(uid)
        for i, a in enumerate(args):
            fr[i + 1] = a
        self.stack.append(fid)
        try:
            ret = self.run(st, uid, fid)
        finally:
            self.stack.pop()
        out = []
        for sh, r in ret.items():
            v = r.f[uid].get(0) or mk()
            v = self.detach(r, v, uid)
            r.dropframe(uid)
            out.append((sh, v, r))
        return out

    def detach(self, st, v, uid, depth=0):
        """references into a dying frame are replaced by the values they point to"""
        if depth > 8:
            return mk(*self.vdeps(v))
        if v.ref and any(l[0] == uid for l in v.ref):
            keep = frozenset(l for l in v.ref if l[0] != uid)
            r = None
            for l in v.ref:
                if l[0] == uid:
                    x = self.detach(st, self.load(st, l), uid, depth + 1)
                    r = x if r is None else self.join(r, x)
            if keep:
                r = self.join(r, mk(ref=keep))
            return r
        if v.kids and self.has_ref(v):
            kids = {k: self.detach(st, x, uid, depth + 1) for k, x in v.kids.items()}
            if any(kids[k] is not v.kids[k] for k in kids):
                return mk(v.may, v.must, v.path, kids, v.vg, v.ref, v.const, v.fn, v.it)
        return v

    def opaque_result(self, st, args):
        may = must = 0
        for a in args:
            m1, m2 = self.deps(st, a)
            may |= m1
            must |= m2
        return mk(may, must)

    def run(self, st, uid, fid):
        import heapq

        fn = self.F[fid]
        cfg = self.cfg(fid)
        entry = (0, cfg.phases_at_entry(), None, ())
        inst = {entry: st}
        heap = [(cfg.prio(entry), entry)]
        inheap = {entry}
        ret = {}
        rounds = defaultdict(int)
        depth = len(self.frames)
        while heap:
            _, node = heapq.heappop(heap)
            inheap.discard(node)
            rounds[node] += 1
            if rounds[node] > 60:
                raise AnalysisError("no fixpoint in %s bb%d" % (fn["path"], node[0]))
            s = inst[node].copy()
            rep = any(p for _, p in node[1])
            self.multi.append(rep or (self.multi[-1] if self.multi else False))
            self.phases.append(tuple(p for _, p in node[1]))
            try:
                self.parts = None
                self.frames.append((cfg, node[0], uid))
                outs = self.block(s, uid, fid, fn, node[0])
                parts = self.parts
                self.parts = None
            finally:
                del self.frames[depth:]
                self.multi.pop()
                self.phases.pop()
            for i, (tgt, ns) in enumerate(outs):
                if tgt == "return":
                    sh = self.shape(ns.f[uid].get(0) or mk())
                    old = ret.get(sh)
                    ret[sh] = ns if old is None else self.join_state(old, ns)
                    continue
                nn = cfg.edge(node, tgt, self.unroll, uid)
                if nn is None:
                    continue
                r0 = ns.f[uid].get(0)
                nn = nn + ((node[0], parts[i]) if parts else node[2], self.shape(r0) if r0 is not None else ())
                old = inst.get(nn)
                if old is None:
                    inst[nn] = ns
                    changed = True
                else:
                    j = self.join_state(old, ns)
                    changed = not j.same(old)
                    inst[nn] = j
                if changed and nn not in inheap:
                    inheap.add(nn)
                    heapq.heappush(heap, (cfg.prio(nn), nn))
        if len(ret) > 6:
            r = None
            for x in ret.values():
                r = x if r is None else self.join_state(r, x)
            ret = {(): r}
        return ret

    def join_state(self, a, b):
        if a is b:
            return a
        g = a.G & b.G
        r = State()
        r.G = g
        r.f = {}
        r.owned = set()
        ga, gb = a.G, b.G
        for uid in a.f:
            fa = a.f[uid]
            fb = b.f.get(uid)
            if fb is None:
                r.f[uid] = fa
                continue
            if fa is fb:
                r.f[uid] = fa
                continue
            fr = {}
            diff = False
            for l, va in fa.items():
                vb = fb.get(l)
                if vb is None:
                    # dead or uninitialised on one side
                    fr[l] = va
                elif va is vb:
                    fr[l] = va
                else:
                    x = self._join(va, vb, False, ga, gb, 0)
                    if x is not va:
                        diff = True
                    fr[l] = x
            for l, vb in fb.items():
                if l not in fa:
                    fr[l] = vb
                    diff = True
            r.f[uid] = fr if diff else fa
        for uid in b.f:
            if uid not in r.f:
                r.f[uid] = b.f[uid]
        r.ctl = a.ctl if a.ctl is b.ctl else _ctl_join(a.ctl, b.ctl)
        r.cv = a.cv if a.cv is b.cv else _cv_join(a.cv, b.cv)
        return r

    def block(self, st, uid, fid, fn, bb):
        b = fn["blocks"][bb]
        cfg = self.cfg(fid)
        if bb in cfg.loops and self.phases[-1][cfg.of[bb].index(bb)] == 0:
            # counters are not known by their first values
            for l in cfg.steps(bb):
                x = st.f[uid].get(l)
                if x is not None:
                    self.starts[uid, bb, l] = x
                    self.store(st, ((uid, l, ()),), mk(x.may, x.must))
        for s in b["s"]:
            self.nstmts += 1
            if s[0] == "=":
                locs, ty = self.place(st, uid, fn, s[2])
                v = self.rvalue(st, uid, fn, s[3], ty, bb)
                if self.track_ctl and st.ctl and (isinstance(v.const, int) or s[3][0] == "use" and ty is not None and self.T[ty].get("k") in ("uint", "int")):
                    # a number chosen by a condition says something about the condition
                    m = st.ctl_may()
                    if m & ~v.may:
                        v = mk(self.deps(st, v)[0] | m, v.must, None, v.kids, v.vg, v.ref, v.const, v.fn, v.it)
                self.store(st, locs, v)
            elif s[0] == "dead":
                pass
            elif s[0] == "setd":
                locs, ty = self.place(st, uid, fn, s[2])
                v = self.read(st, locs)
                self.store(st, locs, mk(v.may, v.must, v.path, v.kids, {s[3]: 0}, v.ref, None, v.fn, v.it))
        t = b["t"]
        k = t[0]
        cfg = self.cfg(fid)
        if st.ctl:
            st.leave_ctl(uid, bb)
        if k == "goto":
            return [(t[2], st)]
        if k == "return":
            return [("return", st)]
        if k in ("resume", "abort", "unreachable", "asm"):
            return []
        if k == "drop":
            locs, ty = self.place(st, uid, fn, t[2])
            st2 = self.drop_glue(st, uid, fn, bb, locs, ty)
            if st2 is None:
                return []
            return [(t[3], st2)]
        if k == "assert":
            for h in self.hooks:
                h.on_assert(self, st, uid, fid, fn, bb, t)
            return [(t[6], st)]
        if k == "switch":
            return self.switch(st, uid, fid, fn, bb, t, cfg)
        if k == "call":
            return self.call(st, uid, fid, fn, bb, t)
        raise AnalysisError("terminator %s" % k)

    def drop_glue(self, st, uid, fn, bb, locs, ty):
        t = self.T[ty]
        if t["k"] == "adt" and t.get("drop") is not None:
            v, st2 = self.call_fn(st, uid, (bb, "drop"), t["drop"], [mk(ref=frozenset(locs))])
            if v is None:
                return None
            return st2
        return st

    def counter(self, st, uid, fn, bb, cfg):
        """(local, value it has in the body, target) for the loop counters tested here"""
        out = []
        for h, l, tgt, d, n, off in cfg.counters().get(bb, ()):
            a = self.starts.get((uid, h, l))
            if a is None:
                continue
            if d > 0:
                b = self.operand(st, uid, fn, n)
                x = index_range(a, b, off)
            else:
                x = index_range(kconst(0), a, 0)
                if x is not None and x.it:
                    lo, end = x.it[1] + 1, x.it[2]
                    if isinstance(end, int):
                        end += 1
                    elif end is not None:
                        end = (end[0], end[1] + 1) if end[1] + 1 < 0 else None
                    x = mk(x.may, x.must, it=("idx", lo, end))
            if x is not None:
                out.append((l, x, tgt))
        return out

    def switch(self, st, uid, fid, fn, bb, t, cfg):
        v = self.operand(st, uid, fn, t[2])
        outs = self.switch1(st, uid, fid, fn, bb, t, cfg, v)
        for l, x, tgt in self.counter(st, uid, fn, bb, cfg):
            for k, ns in outs:
                if k == tgt:
                    self.store(ns, ((uid, l, ()),), x)
        return outs

    def switch1(self, st, uid, fid, fn, bb, t, cfg, v):
        targets = [(int(c), tgt) for c, tgt in t[3]]
        other = t[4]
        for h in self.hooks:
            h.on_switch(self, st, uid, fid, fn, bb, t, v)
        if v.const is not None and isinstance(v.const, (int, bool)):
            c = int(v.const)
            for x, tgt in targets:
                if x == c:
                    return [(tgt, st)]
            return [(other, st)]
        if bb in cfg.heads:
            self.trip(uid, bb, v.may)
        outs = []
        may, must = v.may, v.must
        covered = set()
        ctl_may = v.may
        if not ctl_may and v.kids:
            ctl_may = self.vdeps(v)[0]
        join_pt = cfg.ipdom(bb) if self.track_ctl else None

        def emit(tgt, vals, rest=False):
            ns = st.copy()
            if v.vg is not None:
                cands = [x for x in vals if x in v.vg]
                if not cands:
                    return
                g = None
                for x in cands:
                    g = v.vg[x] if g is None else g & v.vg[x]
                ns.G |= g
                if v.it and v.it[0] == "discr":
                    loc = v.it[1]
                    cur = self.load(ns, loc)
                    if cur.vg is not None and set(cur.vg) - set(cands):
                        nv = mk(cur.may, cur.must, cur.path, cur.kids, {x: cur.vg[x] for x in cands if x in cur.vg}, cur.ref, cur.const, cur.fn, cur.it)
                        self.store(ns, (loc,), nv)
            else:
                ns.G |= must
            if self.track_ctl:
                ns.enter_ctl(uid, bb, join_pt, ctl_may)
            outs.append((tgt, ns))

        for x, tgt in targets:
            covered.add(x)
            if fn["blocks"][tgt]["t"][0] == "unreachable" and not fn["blocks"][tgt]["s"]:
                continue
            emit(tgt, [x])
        if not (fn["blocks"][other]["t"][0] == "unreachable" and not fn["blocks"][other]["s"]):
            if v.vg is not None:
                rest = [x for x in v.vg if x not in covered]
                if rest:
                    emit(other, rest)
            else:
                emit(other, None, True)
        return outs

    track_ctl = False
    track_order = None      # labels for which it matters in which direction they are bounded

    # ------------------------------------------------------------ calls
    def call(self, st, uid, fid, fn, bb, t):
        f, ops, dest, target, aty, dty = t[2], t[3], t[4], t[5], t[6], t[7]
        args = [self.operand(st, uid, fn, o) for o in ops]
        c = Call(self, uid, fid, fn, bb, t[1], f, args, aty, dty, ops)
        for h in self.hooks:
            h.on_call(self, st, c)
        if "fn" in f and self.fn_models.get(self.F[f["fn"]]["path"]) is None:
            g = self.F[f["fn"]]
            if len(args) == 2 and "{closure#" in g["path"].rsplit("::", 1)[-1]:
                # the arguments of a closure come as one tuple
                tt = self.T[aty[1]]
                if tt["k"] == "tuple" and len(tt["ts"]) == g["argc"] - 1:
                    args = [args[0]] + [self.project(args[1], ".%d" % i) for i in range(len(tt["ts"]))]
            parts = self.call_parts(st, uid, bb, f["fn"], args)
        else:
            v, st2 = self.dispatch(st, c)
            parts = [] if v is None else v if isinstance(v, list) else [((), v, st2)]
        if target is None:
            for h in self.hooks:
                h.on_diverge(self, st, c)
            return []
        outs = []
        for sh, v, st2 in parts:
            for h in self.hooks:
                v2 = h.on_ret(self, st2, c, v)
                if v2 is not None:
                    v = v2
            locs, ty = self.place(st2, uid, fn, dest)
            if self.track_ctl and st2.ctl and not args and "fn" not in f and not v.ref and not v.kids and v.fn is None:
                v = mk(v.may | st2.ctl_may(), v.must, v.path, v.kids, v.vg, v.ref, v.const, v.fn, v.it)
            self.store(st2, locs, v)
            outs.append((target, st2))
        self.parts = [sh for sh, _, _ in parts] if len(parts) > 1 else None
        return outs

    def dispatch(self, st, c):
        from models import model_call

        f = c.f
        x = f.get("x")
        if x in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
            tup = c.args[1]
            n = 0
            ty = c.aty[1]
            if ty is not None and self.T[ty]["k"] == "tuple":
                n = len(self.T[ty]["ts"])
            a = [self.project(tup, ".%d" % i) for i in range(n)]
            return self.invoke(st, c, c.args[0], a, "call")
        if "fn" in f:
            r = None
            m = self.fn_models.get(self.F[f["fn"]]["path"])
            if m is not None:
                r = m(self, st, c)
            if r is not None:
                return r
            return self.call_fn(st, c.uid, c.bb, f["fn"], c.args)
        if x is None:
            # function pointer
            v = self.operand_fn(st, c)
            if v is not None:
                return self.invoke(st, c, v, c.args, "fnptr")
            return self.opaque_result(st, c.args), st
        m = self.ext_models.get(c.name)
        if m is not None:
            return m(self, st, c)
        return model_call(self, st, c)

    fn_models = {}
    ext_models = {}

    def operand_fn(self, st, c):
        o = c.f.get("o")
        if o is None:
            return None
        return self.operand(st, c.uid, c.fn, o)

    def fn_target(self, st, v):
        n = 0
        while v.fn is None and v.ref and n < 4:
            v = self.deref1(st, v)
            n += 1
        return v

    def invoke_parts(self, st, c, f, args, tag):
        """... -> [(shape, value, state)]"""
        self.keep_parts = True
        try:
            r = self.invoke(st, c, f, args, tag)
        finally:
            self.keep_parts = False
        return r if isinstance(r, list) else [] if r[0] is None else [((), r[0], r[1])]

    keep_parts = False

    def invoke(self, st, c, f, args, tag):
        """call a closure or function value with the given argument list"""
        fv = self.fn_target(st, f)
        if fv.fn is None:
            self.unmodelled["invoke-unknown:" + str(c.f.get("r") or c.f.get("x"))] += 1
            return self.opaque_result(st, list(args) + [f]), st
        kind, ty = fv.fn
        t = self.T[ty]
        if kind == "closure":
            fid = t["fn"]
            if fid is None:
                return self.opaque_result(st, list(args) + [f]), st
            body = self.F[fid]
            selfty = body["locals"][1]
            if self.T[selfty]["k"] == "ref":
                if f.ref:
                    s = f
                    # reference to a reference to the closure
                    while True:
                        inner = self.deref1(st, s)
                        if inner.ref and inner.fn is None:
                            s = inner
                        else:
                            break
                else:
                    tmp = (c.uid, ("t", c.bb, tag), ())
                    self.store(st, (tmp,), f)
                    s = mk(ref=frozenset([tmp]))
            else:
                s = fv
            return self.call_fn(st, c.uid, (c.bb, tag), fid, [s] + list(args))
        fd = t["f"]
        if fd.get("fn") is not None:
            return self.call_fn(st, c.uid, (c.bb, tag), fd["fn"], list(args))
        # tuple-struct / variant constructors or external functions by path
        from models import model_call

        c2 = Call(self, c.uid, c.fid, c.fn, (c.bb, tag), c.line, fd, list(args), [None] * len(args), None, None)
        return model_call(self, st, c2)

    # ------------------------------------------------------------ draws and challenges
    def fresh(self, st, c, kind, absorbed_may, absorbed_must, extra=None, bits=None):
        ctx = self.uid((c.uid, c.bb, kind))
        name = "%s#%d" % (kind, ctx)
        ph = ""
        if kind == "draw":
            # one label per iteration phase: values drawn in different iterations are different
            ph = ".".join("".join(map(str, p)) for p in self.phases if p)
            if ph:
                name += "@" + ph
        b = self.L.bit(name)
        self.nfresh += 1
        # one instance per iteration phase, for the order among draws
        inst = "%s#%d@%s" % (kind, ctx, ".".join("".join(map(str, p)) for p in self.phases if p))
        self.last_fresh = inst
        x = self.insts.get(inst)
        if x is None:
            self.insts[inst] = [name, absorbed_may, self.L.bit("seq#" + inst), self.closures > 0]
        else:
            x[1] |= absorbed_may
        if name in self.records:
            self.records[name] &= absorbed_must
            self.records_may[name] |= absorbed_may
        else:
            self.records[name] = absorbed_must
            self.records_may[name] = absorbed_may
            self.draws[name] = {
                "order": len(self.draws), "kind": kind, "fn": c.fn["path"], "file": c.fn["file"], "line": c.line,
                "stack": [self.F[i]["path"] for i in self.stack], "multi": False, "site": ctx,
                "depth": self.closures + sum(1 for p in self.phases for x in p if x), "uid": c.uid, "type": c.dty, "bb": c.bb, "weak": None,
                "sampler": c.dty is not None and c.fn["locals"][0] == c.dty,
            }
            if kind == "draw":
                self.drawbits |= b
                self.draws[name]["loop"] = self.around(c)
            if extra:
                self.draws[name].update(extra)
        if self.multi and self.multi[-1]:
            self.draws[name]["multi"] = True
        if bits is not None and bits < FULL_BITS:
            self.draws[name]["weak"] = bits
            return mk(b, 0)
        return mk(b, b)

    cmp_ctx = None

    def around(self, c):
        """innermost loop around a call"""
        hs = self.cfg(c.fid).of.get(c.bb)
        if hs:
            return c.uid, hs[-1]
        for cfg, bb, uid in reversed(self.frames):
            hs = cfg.of.get(bb)
            if hs:
                return uid, hs[-1]
        return None

    def loop_of(self, c):
        """head of the loop steered by the call of next() at hand"""
        cfg = self.cfg(c.fid)
        hs = cfg.of.get(c.bb)
        if not hs or hs[-1] != c.bb or len(self.phases[-1]) != len(hs):
            return None
        t = cfg.succ[c.bb]
        return c.bb if t and cfg.cond_exit.get(c.bb) == t[0] else None

    def trip(self, uid, bb, may):
        """what the number of iterations of the loop steered from here may depend on"""
        self.trips[uid, bb] = self.trips.get((uid, bb), 0) | may

    def trip_mask(self):
        """... for all the loops around the current point"""
        m = 0
        for x in self.itlens:
            m |= x
        for cfg, bb, uid in self.frames:
            for h in cfg.of.get(bb, ()):
                for b in cfg.loops[h]:
                    m |= self.trips.get((uid, b), 0)
        return m

    def compared(self, ctx, must, may, sides, st):
        """a comparison: its own label, so that obligations can name single equations"""
        uid, bb, fn, line = ctx
        site = self.uid((uid, bb, "cmp"))
        ph = ".".join("".join(map(str, p)) for p in self.phases if p)
        name = "cmp#%d@%s" % (site, ph)
        bit = self.L.bit(name)
        c = self.cmps.get(name)
        sm = [self.deps(st, x)[1] for x in sides]
        if c is None:
            self.cmps[name] = {"site": site, "phase": ph, "must": must, "may": may, "sides": sm, "fn": fn["path"], "file": fn["file"], "line": line,
                               "stack": [self.F[i]["path"] for i in self.stack], "bit": bit, "trip": self.trip_mask()}
        else:
            c["trip"] |= self.trip_mask()
            c["must"] &= must
            c["may"] |= may
            c["sides"] = [x & y for x, y in zip(c["sides"], sm)] if len(sm) == len(c["sides"]) else sm
        return bit

    def closure_mask(self, mask):
        """expand challenge labels by what they absorbed (must)"""
        todo = mask
        done = 0
        while todo:
            low = todo & -todo
            todo ^= low
            if done & low:
                continue
            done |= low
            n = self.L.names[low.bit_length() - 1]
            r = self.records.get(n)
            if r:
                todo |= r & ~done
        return done


class Call:
    __slots__ = ("eng", "uid", "fid", "fn", "bb", "line", "f", "args", "aty", "dty", "ops")

    def __init__(self, eng, uid, fid, fn, bb, line, f, args, aty, dty, ops):
        self.eng = eng
        self.uid = uid
        self.fid = fid
        self.fn = fn
        self.bb = bb
        self.line = line
        self.f = f
        self.args = args
        self.aty = aty
        self.dty = dty
        self.ops = ops

    @property
    def name(self):
        return self.f.get("x")

    @property
    def rname(self):
        return self.f.get("r") or self.f.get("x")


def _cv_join(a, b):
    """labels on one side only were not allocated on the other path"""
    if not a or not b:
        return a or b
    r = dict(a)
    for k, x in b.items():
        if k in r:
            y = r[k]
            o = y[1] if x[1] is None else x[1] if y[1] is None else x[1] & y[1]
            r[k] = (x[0] & y[0], o)
        else:
            r[k] = x
    return r


def _ctl_join(a, b):
    if a is b:
        return a
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for k, v in b.items():
        if k in r:
            r[k] = (v[0], v[1] | r[k][1])
        else:
            r[k] = v
    return r


class State:
    __slots__ = ("f", "owned", "G", "ctl", "cv")

    def __init__(self):
        self.f = {}
        self.owned = set()
        self.G = 0
        self.ctl = None
        self.cv = None      # circuit gadgets: variable -> constraints emitted since, before the last allocation

    def copy(self):
        n = State()
        n.f = dict(self.f)
        n.owned = set()
        self.owned = set()
        n.G = self.G
        n.ctl = self.ctl
        n.cv = self.cv
        return n

    def newframe(self, uid):
        self.f[uid] = {}
        self.owned.add(uid)

    def dropframe(self, uid):
        del self.f[uid]
        self.owned.discard(uid)
        if self.ctl:
            c = {k: v for k, v in self.ctl.items() if k[0] != uid}
            self.ctl = c or None

    def wframe(self, uid):
        fr = self.f.get(uid)
        if fr is None:
            return None
        if uid not in self.owned:
            fr = dict(fr)
            self.f[uid] = fr
            self.owned.add(uid)
        return fr

    def same(self, o):
        if self.G != o.G or self.f.keys() != o.f.keys() or self.ctl != o.ctl or (self.cv is not o.cv and self.cv != o.cv):
            return False
        for u, fr in self.f.items():
            fo = o.f[u]
            if fr is fo:
                continue
            if len(fr) != len(fo):
                return False
            for l, v in fr.items():
                if fo.get(l) is not v:
                    return False
        return True

    def enter_ctl(self, uid, bb, join_pt, may):
        if not may:
            return
        c = dict(self.ctl) if self.ctl else {}
        k = (uid, bb)
        old = c.get(k)
        c[k] = (join_pt, may | (old[1] if old else 0))
        self.ctl = c

    def leave_ctl(self, uid, bb):
        if any(k[0] == uid and v[0] == bb for k, v in self.ctl.items()):
            c = {k: v for k, v in self.ctl.items() if not (k[0] == uid and v[0] == bb)}
            self.ctl = c or None

    def ctl_may(self):
        m = 0
        if self.ctl:
            for _, v in self.ctl.items():
                m |= v[1]
        return m


class CFG:
    """control flow graph without unwind edges, natural loops, peeling"""

    def __init__(self, fn):
        self.fn = fn
        blocks = fn["blocks"]
        n = len(blocks)
        self.succ = [self._succ(b) for b in blocks]
        # reachable, RPO
        seen = set()
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(self.succ[v])))
                    break
            else:
                order.append(u)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.pred = defaultdict(list)
        for u in order:
            for v in self.succ[u]:
                self.pred[v].append(u)
        self._dom()
        self._loops()
        self._reorder()
        self._ipd = None

    @staticmethod
    def _succ(b):
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [t[2]]
        if k == "switch":
            return [x[1] for x in t[3]] + [t[4]]
        if k == "drop":
            return [t[3]]
        if k == "call":
            return [t[5]] if t[5] is not None else []
        if k == "assert":
            return [t[6]]
        return []

    def _dom(self):
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for u in self.order:
                if u == 0:
                    continue
                new = None
                for p in self.pred[u]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if new is not None and idom.get(u) != new:
                    idom[u] = new
                    changed = True
        self.idom = idom

    def _inter(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]:
                a = idom[a]
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _loops(self):
        loops = {}
        for u in self.order:
            for h in self.succ[u]:
                if self.dominates(h, u):
                    body = loops.setdefault(h, {h})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(self.pred[x])
        self.loops = loops
        self.latches = {h: [u for u in self.order if h in self.succ[u] and u in body] for h, body in loops.items()}
        # loops containing each block, outermost first
        self.of = {}
        for b in self.order:
            hs = [h for h, body in loops.items() if b in body]
            hs.sort(key=lambda h: -len(loops[h]))
            self.of[b] = hs
        # the exit tested first on every iteration
        self.cond_exit = {}
        self.heads = set()
        for h, body in loops.items():
            cands = []
            for u in body:
                if any(v not in body for v in self.succ[u]) and all(self.dominates(u, l) for l in self.latches[h]):
                    cands.append(u)
            if cands:
                cands.sort(key=lambda u: self.rpo[u])
                self.cond_exit[h] = cands[0]
                self.heads.add(cands[0])

    def _reorder(self):
        """reverse post-order in which loop bodies come before what follows the loop"""
        def key(u, v):
            # successors that leave more loops are visited first, so they come last
            return -sum(1 for h in self.of[u] if v not in self.loops[h])

        seen = {0}
        order = []
        stack = [(0, iter(sorted(self.succ[0], key=lambda v: key(0, v))))]
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(sorted(self.succ[v], key=lambda w: key(v, w)))))
                    break
            else:
                order.append(u)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order

    def phases_at_entry(self):
        return tuple((h, 0) for h in self.of[0])

    def edge(self, node, tgt, unroll=None, uid=None):
        bb, ph = node[0], node[1]
        d = dict(ph)
        out = []
        for h in self.of[tgt]:
            if h == tgt and h in d and bb in self.loops[h]:
                if unroll and (uid, h) in unroll:
                    # iterations of a loop over items written out, PEEL left out
                    out.append((h, min(d[h] + 1 + (d[h] + 1 == PEEL), unroll[uid, h] + 2)))
                else:
                    out.append((h, min(d[h] + 1, PEEL)))
            elif h in d:
                out.append((h, d[h]))
            else:
                out.append((h, 0))
        # dropped exit of the peeled iteration
        for h, p in ph:
            if p < PEEL and self.cond_exit.get(h) == bb and tgt not in self.loops[h] and not (unroll and (uid, h) in unroll):
                return None
        return (tgt, tuple(out))

    def prio(self, node):
        # stay in inner loops until they are stable
        return (self.rpo[node[0]], node[1], repr(node[2:]))

    def reaches(self, a, b):
        """within one iteration of the loops around"""
        seen, todo = {a}, [a]
        while todo:
            u = todo.pop()
            for v in self.succ[u]:
                if v == b:
                    return True
                if v not in seen and not self.dominates(v, u):
                    seen.add(v)
                    todo.append(v)
        return False

    def steps(self, h):
        """locals that step by one in every iteration of the loop"""
        self.counters()
        return self._steps.get(h, ())

    def counters(self):
        """{switch block: [(loop head, local, body target, direction, bound operand, offset of the bound)]} for loops
        steered by a local that steps by one between a start and a bound"""
        if self._ind is not None:
            return self._ind
        self._ind = {}
        self._steps = {}
        if not self.loops:
            return self._ind
        blocks = self.fn["blocks"]
        defs = defaultdict(list)
        borrowed = set()
        for b in self.order:
            for s in blocks[b]["s"]:
                if s[0] == "=":
                    if s[3][0] in ("ref", "addr") and len(s[3]) > 2 and s[3][2] and "*" not in s[3][1][1:]:
                        borrowed.add(s[3][1][0])
                    defs[s[2][0]].append((b, s[2], s[3]))
            t = blocks[b]["t"]
            if t[0] == "call":
                defs[t[4][0]].append((b, t[4], None))

        def chase(o, body, want=None):
            """the local an operand copies, or the operand itself when it is not a plain copy"""
            for _ in range(6):
                if o[0] == "k" or len(o[1]) != 1:
                    return o
                ds = [d for d in defs[o[1][0]] if d[0] in body]
                if len(ds) != 1 or len(ds[0][1]) != 1 or ds[0][2] is None or ds[0][2][0] != "use" or o[1][0] == want:
                    return o
                o = ds[0][2][1]
            return o

        for h, body in self.loops.items():
            lat = self.latches[h]
            # steps
            steps = {}
            for l, ds in list(defs.items()):
                inside = [d for d in ds if d[0] in body]
                if len(inside) != 1 or l in borrowed or len(inside[0][1]) != 1 or inside[0][2] is None:
                    continue
                b, _, rv = inside[0]
                if self.of[b][-1] != h or not all(self.dominates(b, x) for x in lat):
                    continue
                if rv[0] == "use" and rv[1][0] != "k" and len(rv[1][1]) == 2 and rv[1][1][1][0] == "f" and rv[1][1][1][1] == 0:
                    dd = [d for d in defs[rv[1][1][0]] if d[0] in body]
                    if len(dd) != 1 or dd[0][2] is None:
                        continue
                    rv = dd[0][2]
                if rv[0] != "bin" or rv[1].replace("Unchecked", "") not in ("Add", "Sub"):
                    continue
                x, y = rv[2], rv[3]
                if rv[1][:3] == "Add" and x[0] == "k":
                    x, y = y, x
                x = chase(x, body, l)
                if x[0] == "k" or x[1] != [l] or y[0] != "k" or y[2].get("i") != 1:
                    continue
                steps[l] = 1 if rv[1][:3] == "Add" else -1
            self._steps[h] = sorted(steps)
            if not steps:
                continue
            for u in body:
                t = blocks[u]["t"]
                if t[0] != "switch" or t[2][0] == "k" or len(t[2][1]) != 1 or not all(self.dominates(u, x) for x in lat) or self.of[u][-1] != h:
                    continue
                ins = [(c, x) for c, x in [(int(c), x) for c, x in t[3]] + [(None, t[4])] if x in body]
                if len(ins) != 1 or len(t[3]) != 1 or int(t[3][0][0]) not in (0, 1):
                    continue
                truth = ins[0][0] if ins[0][0] is not None else 1 - int(t[3][0][0])
                ds = [d for d in defs[t[2][1][0]] if d[0] in body]
                if len(ds) != 1 or ds[0][2] is None or ds[0][2][0] != "bin":
                    continue
                _, op, x, y = ds[0][2][:4]
                if not truth:
                    op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}.get(op)
                for l, d in steps.items():
                    cx, cy = chase(x, body, l), chase(y, body, l)
                    o, n = op, y
                    if cy[0] != "k" and cy[1] == [l]:
                        o, n = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), x
                    elif cx[0] == "k" or cx[1] != [l]:
                        continue
                    if d > 0 and o in ("Lt", "Ne", "Le"):
                        self._ind.setdefault(u, []).append((h, l, ins[0][1], 1, n, 1 if o == "Le" else 0))
                    elif d < 0 and n[0] == "k" and (o in ("Gt", "Ne") and n[2].get("i") == 0 or o == "Ge" and n[2].get("i") == 1):
                        self._ind.setdefault(u, []).append((h, l, ins[0][1], -1, None, 0))
        return self._ind

    _ind = None

    def ipdom(self, bb):
        """immediate post-dominator w.r.t. paths that return normally"""
        if self._ipd is None:
            self._postdom()
        return self._ipd.get(bb)

    def _postdom(self):
        exits = [b for b in self.order if self.fn["blocks"][b]["t"][0] == "return"]
        # blocks that reach a return
        reach = set(exits)
        st = list(exits)
        while st:
            x = st.pop()
            for p in self.pred[x]:
                if p not in reach:
                    reach.add(p)
                    st.append(p)
        EXIT = -1
        succ = {b: [s for s in self.succ[b] if s in reach] for b in reach}
        for e in exits:
            succ[e] = [EXIT]
        pd = {b: None for b in reach}
        pdom = {EXIT: {EXIT}}
        allb = set(reach) | {EXIT}
        for b in reach:
            pdom[b] = None
        changed = True
        ro = [b for b in reversed(self.order) if b in reach]
        while changed:
            changed = False
            for b in ro:
                acc = None
                for s in succ[b]:
                    if pdom.get(s) is None:
                        continue
                    acc = set(pdom[s]) if acc is None else acc & pdom[s]
                if acc is None:
                    continue
                acc.add(b)
                if pdom[b] is None or acc != pdom[b]:
                    pdom[b] = acc
                    changed = True
        ipd = {}
        for b in reach:
            c = (pdom[b] or set()) - {b}
            best = None
            for x in c:
                # the closest one is post-dominated by all others
                if all(x == y or (y == EXIT) or (x != EXIT and y in pdom[x]) for y in c):
                    best = x
            ipd[b] = best
        self._ipd = ipd


def load_facts(path):
    with open(path) as f:
        return json.load(f)
