"""Rules over the constraints a gadget emits."""
import itertools
from fractions import Fraction

from absint import State, kconst, mk, reset_intern
from gadget import GEngine, System

IS, NOT, CONST = ".0!Is.0", ".1!Not.0", ".2!Constant.0"


# ------------------------------------------------------------ arguments
def bit(e, p):
    return mk(kids={".variable": e.sym(p + ".variable"), ".value": e.sym(p + ".value")})


def boolean(e, p, kind):
    if kind == "is":
        return mk(kids={IS: bit(e, p)}, vg={0: 0})
    if kind == "not":
        return mk(kids={NOT: bit(e, p)}, vg={1: 0})
    return mk(kids={CONST: kconst(kind == "true")}, vg={2: 0})


def wire(e, p):
    """a Boolean which is a variable or the negation of one"""
    return mk(kids={IS: bit(e, p), NOT: bit(e, p)}, vg={0: 0, 1: 0})


def wires(p):
    return lambda e: mk(kids={"[*]": wire(e, p + "[*]")})


def word(p):
    return lambda e: mk(kids={".bits": mk(kids={"[*]": wire(e, p + ".bits[*]")}), ".value": e.sym(p + ".value")})


def words(p):
    return lambda e: mk(kids={"[*]": word(p + "[*]")(e)})


class Run:
    def __init__(self, e, root, over=None):
        self.e = e
        e.reset()
        reset_intern()
        e.deps_memo.clear()
        fid = e.roots["gad::" + root]
        fn = e.F[fid]
        st = State()
        st.cv = {e.one: (0, None)}
        u = e.uid("root")
        st.newframe(u)
        names = {n[1][0]: n[0] for n in fn["names"] if n[2]}
        args = []
        for i in range(fn["argc"]):
            p = names[i + 1]
            args.append(over[p](e) if over and p in over else e.sym(p))
        self.args = [names[i + 1] for i in range(fn["argc"])]
        self.parts = e.call_parts(st, u, "r", fid, args)

    def where(self, x):
        return "%s:%d" % (x["file"].split("/repo/")[-1], x["line"])


def payload(e, st, v):
    """the value inside Result::Ok, None if this path returns an error"""
    v = e.deref(st, v)
    if v.vg is not None and 0 not in v.vg:
        return None
    k = (v.kids or {}).get(".0!Ok.0")
    return e.deref(st, k) if k is not None else v


# ------------------------------------------------------------ truth tables
class Undecided(Exception):
    pass


def one_label(e, mask):
    if not mask or mask & (mask - 1):
        raise Undecided("several variables in one place")
    return mask


def out_value(e, st, v, fixed):
    """('const', b) | ('is', label) | ('not', label) of a Boolean or AllocatedBit"""
    v = e.deref(st, v)
    k = v.kids or {}
    if ".variable" in k:
        return "is", one_label(e, e.lc_of(st, k[".variable"], None)[1] & (e.var_labels | e.seen_syms | fixed))
    ks = [x for x in (IS, NOT, CONST) if x in k and (v.vg is None or int(x[1]) in v.vg)]
    if len(ks) != 1:
        raise Undecided("the kind of the result is not known")
    x = e.deref(st, k[ks[0]])
    if ks[0] == CONST:
        if isinstance(x.const, bool):
            return "const", x.const
        raise Undecided("constant not known")
    w = e.deref(st, e.project(x, ".variable"))
    return "is" if ks[0] == IS else "not", one_label(e, e.deps(st, w)[0] & (e.var_labels | fixed))


def evaluate(form, asg, one):
    """value of a linear combination, or (label, coefficient, rest) with one unknown"""
    tot, unk = Fraction(0), {}
    for m, c in form.items():
        if not isinstance(c, int) or m & (m - 1):
            raise Undecided("coefficient not known")
        if m == one:
            tot += c
        elif m in asg:
            tot += c * asg[m]
        else:
            unk[m] = unk.get(m, 0) + c
    return tot, unk


def solve(csts, asg, one):
    """extends the assignment by the constraints; False if they are violated"""
    asg = dict(asg)
    left = list(csts)
    changed = True
    while changed and left:
        changed = False
        for c in list(left):
            (a, ua), (b, ub), (r, ur) = [evaluate(f, asg, one) for f in c["forms"]]
            if not ua and not ub and not ur:
                left.remove(c)
                changed = True
                if a * b != r:
                    return False, left
                continue
            if ua and ub:
                continue
            # (a + ua) * b = r + ur, linear in the unknowns
            lin = {}
            if ub:
                a, b, ua, ub = b, a, ub, ua
            for m, k in ua.items():
                lin[m] = lin.get(m, 0) + k * b
            for m, k in ur.items():
                lin[m] = lin.get(m, 0) - k
            lin = {m: k for m, k in lin.items() if k}
            k0 = a * b - r
            if not lin:
                left.remove(c)
                changed = True
                if k0:
                    return False, left
            elif len(lin) == 1:
                (m, k), = lin.items()
                asg[m] = -k0 / k
                left.remove(c)
                changed = True
    return asg, left


def truth_rule(e, spec):
    """for every combination of operand kinds and values the output the constraints force is the function's"""
    out = []
    stats = {"operand_combinations": 0, "assignments_evaluated": 0, "combinations_undecided": 0}
    root, params, kinds, fun = spec["root"], spec["params"], spec["kinds"], spec["fun"]
    for combo in itertools.product(kinds, repeat=len(params)):
        stats["operand_combinations"] += 1
        over = {p: (lambda e, p=p, k=k: bit(e, p) if k == "bit" else boolean(e, p, k)) for p, k in zip(params, combo)}
        over.update(spec.get("over") or {})
        run = Run(e, root, over)
        lab = {p: e.L.bit(p + ".variable") for p, k in zip(params, combo) if k in ("is", "not", "bit")}
        fixed = sum(lab.values())
        tag = "%s(%s)" % (root[5:], ", ".join(combo))
        try:
            for sh, v, st in run.parts:
                x = payload(e, st, v)
                must = st.cv[e.one][0] if st.cv and e.one in st.cv else 0
                csts = [c for i, c in e.csts.items() if must >> i & 1]
                here = [c for i, c in e.csts.items()]
                if len(csts) != len(here) and len(run.parts) == 1:
                    raise Undecided("constraints on some paths only")
                for vals in itertools.product((0, 1), repeat=len(lab)):
                    asg = {lab[p]: Fraction(y) for p, y in zip(lab, vals)}
                    ins = []
                    it = iter(vals)
                    for k in combo:
                        ins.append(1 if k == "true" else 0 if k == "false" else next(it) if k != "not" else 1 - next(it))
                    want = fun(*ins)
                    stats["assignments_evaluated"] += 1
                    if spec["kind"] == "lc":
                        r = e.lc_of(st, v, None)
                        tot, unk = evaluate(r[0], asg, e.one)
                        if unk or tot != want:
                            out.append((combo, "%s: the linear combination is %s for inputs %s, not %s" % (tag, tot, ins, want)))
                        continue
                    sol, left = solve(csts, asg, e.one)
                    if spec["kind"] == "assert":
                        sat = sol is not False and x is not None
                        if sol is not False and left:
                            raise Undecided("constraints left")
                        if sat != bool(want):
                            out.append((combo, "%s: inputs %s are %s" % (tag, ins, "accepted" if sat else "rejected")))
                        continue
                    if x is None:
                        continue    # an error: nothing is claimed
                    if sol is False:
                        out.append((combo, "%s: no assignment satisfies the constraints for inputs %s" % (tag, ins)))
                        continue
                    kind, o = out_value(e, st, x, fixed)
                    if kind == "const":
                        got = int(o)
                    elif o in sol:
                        got = sol[o] if kind == "is" else 1 - sol[o]
                    else:
                        out.append((combo, "%s: the constraints leave the output open for inputs %s" % (tag, ins)))
                        continue
                    if got != want:
                        out.append((combo, "%s: the constraints force %s for inputs %s, not %s" % (tag, got, ins, want)))
        except Undecided as ex:
            stats["combinations_undecided"] += 1
            if stats["combinations_undecided"] <= 1:
                stats.setdefault("undecided", []).append("%s: %s" % (tag, ex))
    return out, stats


# ------------------------------------------------------------ determinacy
def pos(i):
    return (i["file"], i["line"])


def system_rule(e, spec):
    out = []
    stats = {"variables": 0, "constraints": 0, "paths": 0}
    e.opaque = spec.get("opaque") or {}
    run = Run(e, spec["root"], spec.get("over"))
    e.opaque = {}
    tag = spec["root"][5:]
    samples = []
    e.L.bit("one")
    okparts = []
    for sh, v, st in run.parts:
        vv = e.deref(st, v)
        x = payload(e, st, v)
        if x is not None:
            okparts.append((x, v, st))
    for n in spec.get("box", ()):
        if not e.box or any(n not in e.L.of(m[0]) for m in e.box.values()):
            out.append(("box:" + n, "%s: the inner gadget is not applied to %s" % (tag, n)))
    if not okparts:
        out.append(("none", "%s: no path completes" % tag))
    nonconst = []
    for x, v, st in okparts:
        s = System(e, {b: y for b, y in st.cv.items() if b != e.one})
        D = s.depend()
        stats["paths"] += 1
        live = [b for b in e.vars if b in st.cv]
        stats["variables"] += len(live)
        stats["constraints"] += len(e.csts)
        free = {}
        for b in live:
            if b & s.freem:
                free.setdefault(pos(e.vars[b]), b)
        if len(free) > spec.get("free", 0):
            # the allocations that should have been pinned down come last
            names = ["%s:%d" % (p[0].split("/repo/")[-1], p[1]) for p in free]
            out.append(("free", "%s: %d variables are not determined by the constraints (%d intended): %s" % (
                tag, len(free), spec.get("free", 0), ", ".join(names))))
        named = {}
        for k, (p, b) in enumerate(sorted(free.items(), key=lambda y: e.vars[y[1]]["order"])):
            named["free#%d" % k] = {y for y in live if pos(e.vars[y]) == p}
        ins = sorted({pos(e.vars[b]): b for b in live if e.vars[b]["input"]}.items(), key=lambda y: e.vars[y[1]]["order"])
        for k, (p, b) in enumerate(ins):
            named["input#%d" % k] = {y for y in live if pos(e.vars[y]) == p}

        def has(mask, name):
            if name in named:
                return any(y & mask for y in named[name])
            bare = name.rstrip("~")
            return any(n == bare or (name.endswith("~") and n.startswith(bare)) for n in e.L.of(mask))
        if spec.get("bits"):
            nb = [b for b in live if not b & s.boolean]
            if nb:
                out.append(("bits", "%s: the variable allocated at %s is not constrained to be a bit" % (tag, run.where(e.vars[nb[0]]))))
        if spec.get("out"):
            om, _ = e.deps(st, x)
            u = 0
            for b in s.bits(om & s.allv):
                u |= D.get(b, 0)
            if not om & s.allv and not spec.get("constant_ok"):
                # a path that returns no variable
                nonconst.append(tag)
            else:
                for n in spec["out"]:
                    if not has(u | om & ~s.allv, n) and om & s.allv:
                        out.append(("out:" + n, "%s: the output does not depend on %s through the constraints" % (tag, n)))
        res = [(ix, s.cst_deps(e.csts[ix], D)) for ix in s.residual()]
        if spec.get("live"):
            om, _ = e.deps(st, x)
            ends = {ix for ix, _ in res}
            for b in s.bits(om & s.allv):
                ends |= s.defs.get(b, set())
            seen = s.used(ends) | om
            alone = s.used(ends, True) | om
            shared = {pos(e.vars[b]): b for b in live if b & seen}
            for b in live:
                if b & alone:
                    shared.pop(pos(e.vars[b]), None)
            if len(shared) > spec.get("shared", 99):
                out.append(("shared", "%s: of the variables allocated at %s the constraints only use whichever stands in a container" % (
                    tag, ", ".join(run.where(e.vars[b]) for b in shared.values()))))
            dead = {pos(e.vars[b]): b for b in live if not b & seen}
            if len(dead) > spec["live"] - 1:
                out.append(("dead", "%s: the variable allocated at %s influences neither the output nor the asserted equation" % (
                    tag, ", ".join(run.where(e.vars[b]) for b in dead.values()))))
        for want in spec.get("linear", ()):
            ok_, wrong = False, None
            for ix, c in e.csts.items():
                lin = s.linear(c)
                if not lin:
                    continue
                got = {n: [lin[m] for m in lin if has(m, n)] for n in want}
                if not all(got.values()):
                    continue
                if any(len(x) != 1 or not isinstance(x[0], int) for x in got.values()):
                    ok_ = True      # a form that is not known exactly
                    continue
                k = [got[n][0] * want[n] for n in want]
                if all(abs(x) == abs(k[0]) for x in k) and (all(x > 0 for x in k) or all(x < 0 for x in k)):
                    ok_ = True
                else:
                    wrong = (c, {n: got[n][0] for n in want})
            if wrong and not ok_:
                out.append(("linear", "%s: the constraint at %s combines %s instead of %s" % (tag, run.where(wrong[0]), wrong[1], want)))
        for want in spec.get("assert", ()):
            if not any(all(has(d, n) for n in want) for _, d in res):
                out.append(("assert:" + "+".join(want), "%s: no constraint is left that ties %s together" % (tag, ", ".join(want))))
        if spec.get("show"):
            print(tag, "free", [(p[0][-12:], p[1]) for p in free], "named", list(named), "out", e.L.of(u)[:12] if spec.get("out") else "")
            for ix, d in res[:8]:
                print("   res", run.where(e.csts[ix]), [s.name(b) for b in s.bits(d)][:14])
    if spec.get("out") and len(nonconst) == len(okparts) and okparts:
        out.append(("out", "%s: no variable is returned" % tag))
    for i, c in list(e.csts.items())[:2]:
        samples.append("%s: constraint at %s" % (tag, run.where(c)))
    return out, stats, samples


# ------------------------------------------------------------ shape
def shape_rule(e, spec, allowed, params=()):
    """no allocation or constraint may depend on a condition over a value, no coefficient on a value"""
    out = []
    # what the circuit is made for may decide about either
    allowed = params = tuple(allowed) + tuple(params)
    e.opaque = spec.get("opaque") or {}
    run = Run(e, spec["root"], spec.get("over"))
    e.opaque = {}
    tag = spec["root"][5:]
    bad = {}
    for what, xs in (("variable", e.vars.values()), ("constraint", e.csts.values())):
        for x in xs:
            for n in e.L.of(x["ctl"]):
                if not n.startswith(tuple(allowed)):
                    bad.setdefault((n, what), x)
    for (n, what), x in bad.items():
        out.append(("shape:%s" % n, "%s: whether the %s at %s exists depends on %s" % (tag, what, run.where(x), n)))
    # nor may a coefficient be taken from the witness
    fixed = {}
    for c in e.csts.values():
        for d, may in zip(c["forms"], c["may"]):
            m = may & ~e.var_labels & ~e.one & ~e.part_labels
            for k in d:
                m &= ~k
            for n in e.L.of(m):
                if not n.startswith(("draw#",) + tuple(params)):
                    fixed.setdefault(n, c)
    for n, c in fixed.items():
        out.append(("coefficient:%s" % n, "%s: a coefficient of the constraint at %s depends on %s" % (tag, run.where(c), n)))
    return out, {"allocations_and_constraints": len(e.vars) + len(e.csts)}


# ------------------------------------------------------------ packed equalities
def pow2log(x):
    return x.bit_length() - 1 if isinstance(x, int) and x > 0 and x & (x - 1) == 0 else None


def packing_rule(e, root, bits, mkbits, capacity):
    out = []
    stats = {"packed_equalities": 3, "undecided": 0}
    e.model_multieq = False
    try:
        run = Run(e, root, {"n": mkbits(*bits)})
    finally:
        e.model_multieq = True
    if len(run.parts) != 1:
        stats["undecided"] += 1
        return out, stats
    st = run.parts[0][2]
    must = st.cv[e.one][0] if e.one in st.cv else 0
    seen = {}
    for ix, c in e.csts.items():
        if not must >> ix & 1:
            continue
        a, b, r = c["forms"]
        if b != {e.one: 1}:
            stats["undecided"] += 1
            return [], stats
        if any("l." in n for m in r for n in e.L.of(m)):
            a, r = r, a
        iv = []
        for i in range(3):
            ca = [v for m, v in a.items() if "l.%d" % i in e.L.of(m)]
            cr = [v for m, v in r.items() if "r.%d" % i in e.L.of(m)]
            if not ca and not cr:
                continue
            if not all(isinstance(v, int) for v in ca + cr):
                stats["undecided"] += 1
                return [], stats
            seen[i] = seen.get(i, 0) + 1
            if ca != cr or len(ca) != 1:
                out.append(("sides", "packing %s bits: the two sides of equality %d enter the constraint at %s with the factors %s and %s" % (
                    bits, i, run.where(c), ca, cr)))
                continue
            k = pow2log(ca[0])
            if k is not None:
                iv.append((k, k + bits[i], i))
        iv.sort()
        for (s0, t0, i), (s1, t1, j) in zip(iv, iv[1:]):
            if s1 < t0:
                out.append(("overlap", "packing %s bits: equalities %d and %d overlap in the constraint at %s" % (bits, i, j, run.where(c))))
        if iv and iv[-1][1] > capacity:
            out.append(("overflow", "packing %s bits: the constraint at %s holds %d bits" % (bits, run.where(c), iv[-1][1])))
    for i in range(3):
        if i not in seen:
            out.append(("lost", "packing %s bits: equality %d reaches no constraint" % (bits, i)))
    return out, stats
