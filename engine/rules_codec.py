"""What is written to bytes is what is read back: order, types and modes of the parts, and where they go."""
import re

from absint import Engine, kconst, mk
from analyze import run_root
from models import ok, wr

MODES = ("", "_uncompressed", "_unchecked")
IO = ("std::io", "ark_std::io", "ark_serialize")
PUT = ["ark_serialize::CanonicalSerialize::serialize" + m for m in MODES] + ["ark_ff::ToBytes::write"] + [x + "::Write::write_all" for x in IO]
GET = ["ark_serialize::CanonicalDeserialize::deserialize" + m for m in MODES] + ["ark_ff::FromBytes::read"] + [x + "::Read::read_exact" for x in IO]
PLAIN = ("ark_ff::Fp", "std::string::String", "ark_poly::GeneralEvaluationDomain", "std::marker::PhantomData", "core::marker::PhantomData")
LISTS = ("std::vec::Vec", "alloc::vec::Vec", "std::option::Option")


class Codec(Engine):
    """an engine that records the parts written and read, in order"""

    want = {}

    def reset(self):
        Engine.reset(self)
        self.cparts = {}         # (uid, block) -> part
        self.cseq = []
        self.given = self.want  # parts whose value is given: position -> constant

    def cpart(self, c, ty, mode, raw):
        k = (c.uid, c.bb)
        p = self.cparts.get(k)
        if p is None:
            p = self.cparts[k] = {"n": len(self.cseq), "ty": ty, "mode": mode, "raw": raw, "bit": self.L.bit("part#%d" % len(self.cseq)), "may": 0, "path": None,
                                 "const": None, "loop": bool(self.phases and self.phases[-1]), "line": c.line, "fn": c.fn}
            self.cseq.append(p)
        return p

    def rvalue(self, st, uid, fn, r, dst_ty, bb):
        v = Engine.rvalue(self, st, uid, fn, r, dst_ty, bb)
        if r[0] == "cast" and v.path and r[1].startswith("IntToInt") and r[2][0] in ("c", "m") and self.bits(dst_ty) < self.bits(self.place(st, uid, fn, r[2][1])[1]):
            return mk(v.may, v.must, const=v.const)     # cut off: no longer the number itself
        return v

    def bits(self, ty):
        n = "".join(x for x in self.T[ty].get("n", "") if x.isdigit()) if ty is not None else ""
        return int(n) if n else 64

    def scalar(self, ty):
        return self.T[ty]["k"] in ("uint", "int", "bool")

    def element(self, ty):
        while self.T[ty]["k"] in ("ref", "ptr"):
            ty = self.T[ty]["t"]
        return ty

    def put(self, st, c):
        io = c.name.endswith("::write_all")
        src, dst = (1, 0) if io else (0, 1)
        raw = io or c.name.startswith("ark_ff")
        d = self.default(c, "serialize_uncompressed") if c.name == PUT[2] else None
        if d is not None:
            return self.call_fn(st, c.uid, c.bb, d, c.args)
        p = self.cpart(c, self.element(c.aty[src]), "raw" if raw else c.name[len(PUT[0]):], raw)
        v = self.deref(st, c.args[src])
        p["may"] |= self.deps(st, c.args[src])[0]
        p["path"] = v.path
        p["const"] = v.const if isinstance(v.const, int) else None
        st.G |= p["bit"]
        return ok(mk(), {0: 0}), st

    def get(self, st, c):
        raw = not c.name.startswith(GET[0])
        io = c.name.endswith("::read_exact")
        ty = self.element(c.aty[1]) if io else self.T[c.dty]["a"][0]
        p = self.cpart(c, ty, "raw" if raw else c.name[len(GET[0]):], raw)
        v = kconst(self.given[p["n"]]) if p["n"] in self.given else mk(p["bit"], p["bit"], path="part#%d" % p["n"] if self.scalar(ty) else None)
        if io:
            wr(self, st, c, 1, v)
            return ok(mk(), {0: 0}), st
        return ok(v, {0: 0}), st

    def default(self, c, name):
        """the method of the same type that the trait's own method calls"""
        t = self.T[self.element(c.aty[0])]
        if t["k"] != "adt" or not t["n"].startswith("zkp_"):
            return None
        for i, f in self.F.items() if isinstance(self.F, dict) else enumerate(self.F):
            if f["path"].endswith("::" + name) and f["argc"] and self.T[f["locals"][1]] == self.T[c.aty[0]]:
                return i
        return None

    def plain(self, ty):
        """is the encoding of the type the same in every mode, and without conditions on the value?"""
        t = self.T[ty]
        if t["k"] in ("uint", "int", "bool", "str"):
            return True
        if t["k"] in ("ref", "slice", "array"):
            return self.plain(t["t"])
        if t["k"] == "tuple":
            return all(self.plain(x) for x in t["ts"])
        if t["k"] == "adt":
            return t["n"].startswith(PLAIN) or t["n"] in LISTS and all(self.plain(x) for x in t["a"][:1])
        return False

    def token(self, p):
        """what the part looks like in bytes"""
        ty, n = p["ty"], None
        t = self.T[ty]
        seq = None
        if t["k"] in ("slice", "array"):
            seq, n = t["t"], t.get("len") if t["k"] == "array" else None
        elif t["k"] == "adt" and t["n"] in LISTS[:2]:
            seq = t["a"][0]
        if p["raw"]:
            return ("raw", seq if seq is not None else ty, n)
        mode = "" if self.plain(ty) else "long" if p["mode"] else "short"
        return ("list" if seq is not None else "one", seq if seq is not None else ty, mode)


Codec.ext_models = dict([(n, Codec.put) for n in PUT] + [(n, Codec.get) for n in GET])


def same(a, b):
    return a[:2] == b[:2] and (a[2] == b[2] or a[0] == "raw" and None in (a[2], b[2]))


def squash(xs):
    """repeated stretches once"""
    xs = list(xs)
    again = True
    while again:
        again = False
        for w in range(1, len(xs) // 2 + 1):
            for i in range(len(xs) - 2 * w + 1):
                if all(same(x, y) for x, y in zip(xs[i:i + w], xs[i + w:i + 2 * w])):
                    del xs[i + w:i + 2 * w]
                    again = True
                    break
            if again:
                break
    return xs


def show(e, ty):
    t = e.T[ty]
    if t["k"] == "adt":
        return t["n"].split("::")[-1] + ("<%s>" % ", ".join(show(e, x) for x in t["a"][:1]) if t["n"] in LISTS else "")
    return {"slice": "slice", "array": "array"}.get(t["k"]) or t.get("n") or t["k"]


def at(p):
    return "%s:%d" % (p["fn"]["file"].split("/repo/")[-1], p["line"])


def project(e, v, rel):
    """the part of a returned value at a path such as .0.x[*]"""
    for k in re.findall(r"\.[^.\[]+|\[[^\]]*\]", rel):
        v = e.project(v, k)
    return v


def only(e, st, v):
    """what a value made of one part is made of"""
    v = e.deref(st, v)
    while v.path is None and v.kids and len(v.kids) == 1:
        v = e.deref(st, next(iter(v.kids.values())))
    return v


def places(e, ty, path, var):
    """the smallest parts of a type"""
    t = e.T[ty]
    out = []
    if t["k"] == "tuple":
        for i, x in enumerate(t["ts"]):
            out += places(e, x, path + ".%d" % i, 0)
    elif t["k"] == "array" and isinstance(t.get("len"), int) and t["len"] <= 16:
        for i in range(t["len"]):
            out += places(e, t["t"], path + "[%d]" % i, 0)
    elif t["k"] == "adt" and t["n"].split("::")[-1] == "PhantomData":
        pass
    elif t["k"] == "adt" and t["n"].startswith("zkp_") and t["v"]:
        for f in t["v"][var][1]:
            sub = path + (".%d!%s" % (var, t["v"][var][0]) if t["e"] else "") + "." + f[0]
            out += places(e, f[1], sub, 0) if f[1] is not None else [sub]
    else:
        out.append(path)
    return out


def inside(a, b):
    return a == b or a.startswith((b + ".", b + "["))


def codec_rule(e, name, mode):
    out = []
    fid = [i for n, i in e.roots.items() if n.endswith("codec::%s::root_put" % name)][0]
    ty = e.element(e.F[fid]["locals"][1])
    t = e.T[ty]
    variants = list(range(len(t["v"]))) if t.get("e") else [None]
    stats = {"parts": 0, "values": 0}
    tags = []
    for var in variants:
        e.want = {}
        r = run_root(e, "codec::%s::root_put%s" % (name, mode), {"value": mk(path="value", vg={var: 0})} if var is not None else None)
        puts = e.cseq
        lab = lambda m: [x for x in e.L.of(m) if x.startswith("value")]
        written = [dict(p, labels=lab(p["may"]), tok=e.token(p)) for p in puts]
        sure = r.s.G | (r.v.vg or {}).get(0, 0)
        for p in written:
            if not sure & p["bit"]:
                out.append(("put:%s" % at(p), "%s is not written on every path" % (p["path"] or p["labels"])))
        fixed = dict((i, p["const"]) for i, p in enumerate(written) if p["const"] is not None and not p["labels"])
        tags.append(fixed)
        stats["parts"] += len(written)
        g, read = reading(e, name, mode, fixed)
        loop = any(p["loop"] for p in written + read)
        a, b = [p["tok"] for p in written], [p["tok"] for p in read]
        if loop:
            a, b = squash(a), squash(b)
        if len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)):
            i = min([i for i, (x, y) in enumerate(zip(a, b)) if not same(x, y)] + [min(len(a), len(b))])
            d = lambda ps, xs: "%s as %s" % (show(e, xs[i][1]), "/".join(str(z) for z in (xs[i][0], xs[i][2]) if z)) if i < len(xs) else "nothing"
            out.append(("order:%d" % i, "part %d is written as %s but read as %s" % (i, d(written, a), d(read, b))))
            continue
        for p in read:
            if mode != "_unchecked" and p["mode"] == "_unchecked" and not e.plain(p["ty"]):
                out.append(("unchecked:%s" % at(p), "%s is read without checks" % show(e, p["ty"])))
        good = (g.v.kids or {}).get(".0!Ok.0")
        if good is None:
            out.append(("get", "what is written cannot be read"))
            continue
        if var is not None:
            if good.vg is None or set(good.vg) != {var}:
                out.append(("variant:%d" % var, "variant %s is not what is read from its bytes" % t["v"][var][0]))
                continue
        # every part comes back where it was taken from
        pos = [p["bit"] for p in read]
        for i, p in enumerate(written):
            if i in fixed:
                continue
            if e.scalar(p["ty"]) and p["path"] is None:
                out.append(("changed:%s" % at(p), "%s is not written as it is" % " ".join(p["labels"])))
                continue
            for l in [p["path"]] if p["path"] and p["path"].startswith("value") else p["labels"]:
                stats["values"] += 1
                v = project(e, good, l[5:])
                may, must = e.deps(g.s, v)
                want = pos[i] if not loop else sum(b for b, q in zip(pos, read) if same(q["tok"], p["tok"]))
                if not may or may & ~want or not loop and must != want:
                    out.append(("value:%s" % l, "%s comes back from %s instead of part %d" % (l, " ".join(e.L.of(may)) or "nothing", i)))
                elif e.scalar(p["ty"]) and only(e, g.s, v).path is None:
                    out.append(("value:%s" % l, "%s does not come back as it was read" % l))
        # nothing is left out
        have = [re.sub(r"\[\d+\]", "[*]", p["path"] or "") if p["loop"] else p["path"] or "" for p in written] + [l for p in written for l in p["labels"]]
        for l in places(e, ty, "value", var or 0):
            if not any(inside(l, h) or inside(h, l) or "[*]" in h and inside(re.sub(r"\[\d+\]", "[*]", l), h) for h in have if h):
                out.append(("left out:%s" % l, "%s is not written" % l))
    if len(variants) > 1 and not out:
        # a tag that stands for no variant
        wrong = dict((i, max(x.get(i, 0) for x in tags) + 1) for i in tags[0])
        g, read = reading(e, name, mode, wrong)
        if g.v.vg is None or 0 in g.v.vg:
            out.append(("tag", "bytes with an unknown tag are read as a value"))
    return out, stats


def reading(e, name, mode, fixed):
    e.want = fixed
    g = run_root(e, "codec::%s::root_get%s" % (name, mode))
    return g, [dict(p, tok=e.token(p)) for p in e.cseq]
