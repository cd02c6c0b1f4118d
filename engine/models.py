"""Models of external functions (std, arkworks, merlin, rand).

Anything not listed gets the default: the result depends on every argument and every
&mut argument is overwritten with a value that depends on all arguments.
"""
from absint import CAP, FULL_BITS, PEEL
from absint import mk, kconst, leaf, index_range, span, span_key, shift_key

IT = "item"


def _reffree(c, i):
    t = c.aty[i]
    return t is not None and c.eng.T[t]["k"] == "ref"


def is_mutref(c, i):
    t = c.aty[i] if i < len(c.aty) else None
    return t is not None and c.eng.T[t]["k"] == "ref" and c.eng.T[t]["m"]


def gen_is_enum(e, ty, names):
    if ty is None:
        return False
    t = e.T[ty]
    return t["k"] == "adt" and t["n"].split("::")[-1] in names


# ------------------------------------------------------------------ helpers
def some(x, vg=None):
    return mk(kids={".1!Some.0": x}, vg=vg if vg is not None else {0: 0, 1: 0})


def ok(x, vg=None):
    return mk(kids={".0!Ok.0": x}, vg=vg if vg is not None else {0: 0, 1: 0})


def payload(e, st, v):
    """payload of an Option/Result-like value"""
    v = e.deref(st, v)
    if v.kids:
        for k in (".1!Some.0", ".0!Ok.0", ".0!Continue.0"):
            if k in v.kids:
                return v.kids[k]
    if v.path is not None:
        return e.sym(v.path)
    return mk(*e.deps(st, v))


def opt_kind(e, ty):
    ty = e.strip_ref(ty)
    if ty is None:
        return None
    n = e.T[ty].get("n", "").split("::")[-1]
    return n if n in ("Option", "Result") else None


GOOD = {"Option": 1, "Result": 0}


def good_guard(v, kind):
    """labels compared whenever the value is Some/Ok"""
    if v.vg is None:
        return 0
    return v.vg.get(GOOD[kind])


def elem(e, st, v):
    """element of a container given by value or by reference, as iteration sees it"""
    if v.ref and len(v.ref):
        # container behind a reference: items are references into it
        locs = []
        for u, l, p in v.ref:
            inner = e.load(st, (u, l, p))
            if inner.ref and not has_elem(inner):
                return elem(e, st, inner)
            locs.append((u, l, p + ("[*]",)))
        return mk(ref=frozenset(locs))
    return e.project(v, "[*]")


def has_elem(v):
    return bool(v.kids) and any(k[0] == "[" for k in v.kids)


def to_iter(e, st, v, byval=None):
    """iterator value over container or iterator v"""
    x = v
    n = 0
    while x.it is None and x.ref and n < 4:
        y = e.deref1(st, x)
        if y.it and y.it[0] == "iter":
            return y
        if y.ref and not has_elem(y):
            x = y
            n += 1
            continue
        break
    if x.it and x.it[0] == "iter":
        return x
    if x.kids and ".start" in x.kids and ".end" in x.kids:
        a, b = x.kids[".start"], x.kids[".end"]
        x = index_range(a, b)
        if x is None:
            x = index_range(kconst(0), b)
            x = mk(x.may | a.may, 0, it=x.it)
        return mk_iter(x, lens=(a.may | b.may, b.must))
    return mk_iter(elem(e, st, v), lens=lens_of(e, st, v), lits=literal(e, st, v))


MAX_LIT = 12


def literal(e, st, v):
    """the items of a container written out element by element"""
    if v.ref:
        if len(v.ref) != 1:
            return None
        (u, l, p), = v.ref
        x = e.load(st, (u, l, p))
        if x.ref and not has_elem(x):
            return literal(e, st, x)
    else:
        x = v
    if x.path is not None or not x.kids or x.may or not all(k[0] == "[" and k[1:-1].isdigit() for k in x.kids):
        return None
    n = len(x.kids)
    if n > MAX_LIT or any("[%d]" % i not in x.kids for i in range(n)):
        return None
    if v.ref:
        return [mk(ref=frozenset([(u, l, p + ("[%d]" % i,))])) for i in range(n)]
    return [x.kids["[%d]" % i] for i in range(n)]


def lits_of(it):
    out = []
    while it.kids and "lit%d" % len(out) in it.kids:
        out.append(it.kids["lit%d" % len(out)])
    return out or None


def lens_of(e, st, v):
    l = e.lenof(st, v)
    return (l.may, l.must)


def mk_iter(item, lens=None, lits=None):
    kids = {IT: item}
    for i, x in enumerate(lits or ()):
        kids["lit%d" % i] = x
    if lens:
        kids["len"] = mk(*lens)
    return mk(kids=kids, it=("iter",))


def it_item(e, st, v):
    return to_iter(e, st, v).kids[IT]


def it_len(v):
    l = v.kids.get("len") if v.kids else None
    return (l.may, l.must) if l is not None else (0, 0)


def collect_to(e, st, c, item, lens=None):
    """container of c.dty holding item"""
    k = opt_kind(e, c.dty)
    ld = ("len",) + (lens or (0, 0)) if lens else None
    if k in ("Option", "Result"):
        p = payload(e, st, item)
        cont = mk(kids={"[*]": p}, it=ld)
        x = e.deref(st, item)
        vg = x.vg if x.vg is not None else {0: 0, 1: 0}
        return some(cont, vg) if k == "Option" else ok(cont, vg)
    return mk(kids={"[*]": item}, it=ld)


def load_if_ref(e, st, v):
    return e.deref(st, v) if v.ref else v


def call_clo(e, st, c, f, args, tag):
    e.multi.append(True)
    e.closures += 1
    e.itlens.append(it_len(to_iter(e, st, c.args[0]))[0] if c.name.startswith(("std::iter::", "rayon::iter::")) else 0)
    try:
        n = e.nfresh
        r, st2 = e.invoke(st, c, f, args, tag)
        if r is not None and (tag == "each" or e.nfresh != n and tag == "map"):
            # what a later call draws comes after what an earlier one drew, what it updates starts from what an earlier one left
            r2, st3 = e.invoke(st2, c, f, args, tag)
            if r2 is not None:
                return e.join(r, r2), st3
        return r, st2
    finally:
        e.itlens.pop()
        e.multi.pop()
        e.closures -= 1


def call_clo_parts(e, st, c, f, args, tag):
    e.multi.append(True)
    e.closures += 1
    e.itlens.append(it_len(to_iter(e, st, c.args[0]))[0])
    try:
        return e.invoke_parts(st, c, f, args, tag)
    finally:
        e.itlens.pop()
        e.multi.pop()
        e.closures -= 1


def call_once(e, st, c, f, args, tag):
    return e.invoke(st, c, f, args, tag)


def wr(e, st, c, i, v):
    """write through reference argument i"""
    a = c.args[i]
    if a.ref:
        e.store(st, tuple(a.ref), v)
    else:
        # reference to a symbolic parameter: overwrite the operand's own place
        o = c.ops[i] if c.ops else None
        if o and o[0] in ("c", "m"):
            locs, ty = e.place(st, c.uid, c.fn, o[1])
            e.store(st, locs, v)


def alldeps(e, st, args):
    may = must = 0
    for a in args:
        x, y = e.deps(st, a)
        may |= x
        must |= y
    return may, must


# ------------------------------------------------------------------ the table
M = {}


def m(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f

    return deco


# ---- identity-like
@m(
    "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
    "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "std::string::String::as_str",
    "std::string::String::as_bytes", "std::convert::AsMut::as_mut", "core::str::<impl str>::as_bytes",
    "std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_mut", "std::result::Result::<T, E>::as_ref",
    "ark_poly_commit::LabeledPolynomial::<F, P>::polynomial", "std::iter::Iterator::by_ref",
    "ark_poly_commit::LabeledCommitment::<C>::commitment", "std::hint::must_use", "core::slice::<impl [T]>::as_ref",
)
def _ident(e, st, c):
    n = c.name
    if n.endswith("commitment") or n.endswith("polynomial"):
        return reproject(e, st, c.args[0], ".commitment" if n.endswith("commitment") else ".polynomial"), st
    a = c.args[0]
    if n in ("std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_mut", "std::result::Result::<T, E>::as_ref"):
        # Option<&T>: the payload becomes a reference
        v = e.deref(st, a)
        kind = opt_kind(e, c.aty[0]) or "Option"
        key = ".1!Some.0" if kind == "Option" else ".0!Ok.0"
        if a.ref:
            r = mk(ref=frozenset((u, l, p + (key,)) for u, l, p in a.ref))
        else:
            r = payload(e, st, v)
        return mk(kids={key: r}, vg=v.vg), st
    # smart pointer derefs of a value holding a reference (e.g. Cow, Box)
    if n in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut") and c.rname and "DensePolynomial" in c.rname:
        return reproject(e, st, a, ".coeffs"), st
    return a, st


def reproject(e, st, a, key):
    """reference to a field of what a refers to; opaque values stay themselves"""
    if a.ref:
        out = []
        for u, l, p in a.ref:
            v = e.load(st, (u, l, p))
            if v.ref:
                out.extend((x, y, z + (key,)) for x, y, z in v.ref)
            else:
                out.append((u, l, p + (key,)))
        # only if the field exists
        if all((e.load(st, (u, l, p[:-1])).kids or {}).get(key) is not None for u, l, p in out):
            return mk(ref=frozenset(out))
        return a
    return a


@m(
    "std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::iter::Iterator::cloned",
    "std::slice::<impl [T]>::to_vec", "std::option::Option::<&T>::copied", "std::option::Option::<&T>::cloned",
    "std::option::Option::<&mut T>::copied",
    "std::string::ToString::to_string", "std::iter::Iterator::copied", "std::borrow::Cow::<'_, B>::into_owned",
)
def _clone(e, st, c):
    n = c.name
    a = c.args[0]
    if n in ("std::iter::Iterator::cloned", "std::iter::Iterator::copied"):
        it = to_iter(e, st, a)
        return mk_iter(load_if_ref1(e, st, it.kids[IT]), it_len(it)), st
    if n.startswith("std::option::Option::<&"):
        p = payload(e, st, a)
        return some(load_if_ref1(e, st, p), a.vg), st
    return load_if_ref1(e, st, a), st


def load_if_ref1(e, st, v):
    return e.deref1(st, v) if v.ref else v


@m("std::convert::Into::into", "std::convert::From::from", "std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def _into(e, st, c):
    r = c.rname or ""
    a = c.args[0]
    if "try" in c.name.lower().split("::")[-1]:
        return ok(load_if_ref(e, st, a)), st
    v = load_if_ref(e, st, a) if not r.startswith("<T as std::convert::Into") else a
    # identity conversions and Vec -> polynomial style wrappers keep their structure
    if v.ref:
        return v, st
    return mk(*e.deps(st, v)) if v.const is None and not v.kids and v.path is None else v, st


# ---- Option / Result
@m("std::ops::Try::branch")
def _branch(e, st, c):
    v = load_if_ref(e, st, c.args[0])
    kind = opt_kind(e, c.aty[0]) or "Result"
    g = GOOD[kind]
    vg = None
    if v.vg is not None:
        vg = {}
        if g in v.vg:
            vg[0] = v.vg[g]
        if 1 - g in v.vg:
            vg[1] = v.vg[1 - g]
    else:
        vg = {0: 0, 1: 0}
    res = v
    err = mk(may=v.may if kind == "Option" else e.vdeps(v)[0], vg={1 - g: 0})
    return mk(kids={".0!Continue.0": payload(e, st, v), ".1!Break.0": err}, vg=vg), st


@m("std::ops::FromResidual::from_residual")
def _from_residual(e, st, c):
    kind = opt_kind(e, c.dty) or "Result"
    may, must = e.deps(st, c.args[0])
    if kind == "Option":
        return mk(vg={0: 0}), st
    return mk(kids={".1!Err.0": mk(may, 0)}, vg={1: 0}), st


@m("std::result::Result::<T, E>::unwrap", "std::option::Option::<T>::unwrap", "std::result::Result::<T, E>::expect", "std::option::Option::<T>::expect")
def _unwrap(e, st, c):
    for h in e.hooks:
        h.on_unwrap(e, st, c)
    v = load_if_ref(e, st, c.args[0])
    kind = opt_kind(e, c.aty[0])
    if kind and v.vg is not None:
        g = v.vg.get(GOOD[kind])
        if g is None:
            return None, st
        st.G |= g
    return payload(e, st, v), st


@m("std::option::Option::<T>::unwrap_or", "std::result::Result::<T, E>::unwrap_or")
def _unwrap_or(e, st, c):
    v = load_if_ref(e, st, c.args[0])
    return orelse(e, st, c, v, c.args[1]), st


def orelse(e, st, c, v, d):
    kind = opt_kind(e, c.aty[0]) or "Option"
    g = GOOD[kind]
    if v.vg is not None:
        if g not in v.vg:
            return d
        if 1 - g not in v.vg:
            return payload(e, st, v)
        if (c.aty[0] is not None) and v.it == ("lookup",):
            p = payload(e, st, v)
            return e.ojoin(load_if_ref1(e, st, p) if p.ref else p, load_if_ref1(e, st, d) if d.ref else d)
        return e.join(payload(e, st, v), d, v.vg[g], v.vg[1 - g])
    p = payload(e, st, v)
    if kind == "Option" and (v.path is not None and not v.kids or p.ref and e.deref(st, p).path is not None):
        # what is there goes in whenever it is there
        return e.ojoin(e.deref(st, p), e.deref(st, d))
    return e.join(p, d)


@m("std::option::Option::<T>::unwrap_or_else", "std::result::Result::<T, E>::unwrap_or_else", "std::option::Option::<T>::unwrap_or_default", "std::result::Result::<T, E>::unwrap_or_default")
def _unwrap_or_else(e, st, c):
    v = load_if_ref(e, st, c.args[0])
    if len(c.args) < 2:
        return orelse(e, st, c, v, mk()), st
    arg = [mk(e.vdeps(v)[0], 0)] if "Result" in c.name else []
    s2 = st.copy()
    d, s2 = call_once(e, s2, c, c.args[1], arg, "orelse")
    if d is None:
        return payload(e, st, v), st
    return orelse(e, s2, c, v, d), e.join_state(st, s2)


@m("std::option::Option::<T>::ok_or", "std::option::Option::<T>::ok_or_else")
def _ok_or(e, st, c):
    v = load_if_ref(e, st, c.args[0])
    vg = None
    if v.vg is not None:
        vg = {1 - k: x for k, x in v.vg.items()}
    else:
        vg = {0: 0, 1: 0}
    return mk(kids={".0!Ok.0": payload(e, st, v), ".1!Err.0": mk()}, vg=vg), st


@m("std::result::Result::<T, E>::ok")
def _okm(e, st, c):
    v = load_if_ref(e, st, c.args[0])
    vg = {1 - k: x for k, x in v.vg.items()} if v.vg is not None else None
    return some(payload(e, st, v), vg), st


@m("std::option::Option::<T>::map", "std::result::Result::<T, E>::map", "std::option::Option::<T>::and_then", "std::result::Result::<T, E>::and_then")
def _optmap(e, st, c):
    v = load_if_ref(e, st, c.args[0])
    kind = "Option" if "Option" in c.name else "Result"
    g = GOOD[kind]
    if v.vg is not None and g not in v.vg:
        return v, st
    bad = v.vg is None or (1 - g) in v.vg
    g0 = (v.vg or {}).get(g, 0)
    s2 = st.copy()
    r, s2 = call_once(e, s2, c, c.args[1], [payload(e, st, v)], "map")
    vg = dict(v.vg) if v.vg is not None else {0: 0, 1: 0}
    if r is None:
        return mk(vg={1 - g: 0}), st
    if c.name.endswith("and_then"):
        r = load_if_ref(e, st, r)
        rvg = r.vg if r.vg is not None else {0: 0, 1: 0}
        vg = {}
        if g in rvg:
            vg[g] = rvg[g] | g0
        badg = [x for x in ([v.vg[1 - g]] if v.vg is not None and 1 - g in v.vg else []) + ([rvg[1 - g]] if 1 - g in rvg else [])]
        if badg:
            x = badg[0]
            for y in badg[1:]:
                x &= y
            vg[1 - g] = x
        elif v.vg is None:
            vg[1 - g] = 0
        r = payload(e, s2, r)
    s3 = e.join_state(st, s2) if bad else s2
    key = ".1!Some.0" if kind == "Option" else ".0!Ok.0"
    return mk(kids={key: r}, vg=vg), s3


@m("std::result::Result::<T, E>::map_err")
def _map_err(e, st, c):
    v = load_if_ref(e, st, c.args[0])
    return mk(v.may, v.must, v.path, v.kids, v.vg, v.ref, None, None, v.it), st


@m("std::result::Result::<T, E>::and")
def _and(e, st, c):
    v = load_if_ref(e, st, c.args[0])
    w = load_if_ref(e, st, c.args[1])
    va = v.vg or {0: 0, 1: 0}
    vb = w.vg or {0: 0, 1: 0}
    vg = {}
    if 0 in va and 0 in vb:
        vg[0] = va[0] | vb[0]
    if 1 in va or 1 in vb:
        vg[1] = 0
    return mk(kids={".0!Ok.0": payload(e, st, w)}, vg=vg), st


@m("std::option::Option::<T>::is_some", "std::result::Result::<T, E>::is_ok", "std::option::Option::<T>::is_none", "std::result::Result::<T, E>::is_err")
def _is_some(e, st, c):
    v = e.deref(st, c.args[0])
    kind = "Option" if "Option" in c.name else "Result"
    g = GOOD[kind]
    pos = c.name.endswith("is_some") or c.name.endswith("is_ok")
    vg = None
    if v.vg is not None:
        vg = {}
        if g in v.vg:
            vg[1 if pos else 0] = v.vg[g]
        if 1 - g in v.vg:
            vg[0 if pos else 1] = v.vg[1 - g]
        if len(vg) == 1:
            return kconst(bool(list(vg)[0])), st
    if v.path is not None and not v.kids and v.may:
        # which variant a value taken as a whole is: part of it, and not what the variant holds
        w = e.sym(v.path + ".#is")
        return mk(w.may, w.must, vg=vg), st
    return mk(v.may, v.must, vg=vg), st


# ---- containers
@m("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::default::Default::default", "std::collections::BTreeMap::<K, V>::new",
   "std::collections::BTreeSet::<T>::new", "smallvec::SmallVec::<A>::new", "std::string::String::new", "std::string::String::with_capacity",
   "ark_ff::Zero::zero", "ark_ff::One::one", "serde_json::Map::<std::string::String, serde_json::Value>::new",
   "ark_poly_commit::LinearCombination::<F>::empty")
def _new(e, st, c):
    return mk(), st


@m("std::vec::from_elem")
def _from_elem(e, st, c):
    v = c.args[0]
    for h in e.hooks:
        h.on_from_elem(e, st, c, v)
    n = c.args[1]
    return mk(kids={"[*]": v}, it=("len", n.may, n.must)), st


@m("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "std::collections::BTreeMap::<K, V, A>::len", "smallvec::SmallVec::<A>::len", "core::str::<impl str>::len")
def _len(e, st, c):
    return e.lenof(st, c.args[0]), st


@m("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def _is_empty(e, st, c):
    l = e.lenof(st, c.args[0])
    if isinstance(l.const, int):
        return kconst(l.const == 0), st
    if e.track_order:
        u = e.track_order(e, l.must)
        if u:
            return mk(l.may, l.must, vg={1: l.must, 0: e.bounds("lo", u)}), st
    return mk(l.may, l.must), st


def put(e, st, c, i, x, key="[*]"):
    """add an element to the container behind argument i"""
    a = c.args[i]
    locs = tuple(a.ref) if a.ref else None
    if locs is None:
        o = c.ops[i]
        locs, ty = e.place(st, c.uid, c.fn, o[1])
    for loc in locs:
        v = e.load(st, loc)
        if v.ref:
            for l2 in v.ref:
                w = e.load(st, l2)
                e.store(st, (l2,), drop_len(e, e.setkid(w, key, x, weak=True)))
        else:
            e.store(st, (loc,), drop_len(e, e.setkid(v, key, x, weak=True)))


def drop_len(e, v):
    if v.it and v.it[0] == "len":
        return mk(v.may, v.must, v.path, v.kids, v.vg, v.ref, v.const, v.fn, None)
    return v


@m("std::vec::Vec::<T, A>::push", "std::collections::BTreeSet::<T, A>::insert", "smallvec::SmallVec::<A>::push", "std::path::PathBuf::push")
def _push(e, st, c):
    a = c.args[0]
    # literal position while the container is known exactly and not in a loop
    v = e.deref(st, a)
    if c.name.endswith("Vec::<T, A>::push") and not (e.multi and e.multi[-1]) and v.path is None and v.may == 0:
        ks = list(v.kids) if v.kids else []
        if all(k[0] == "[" and k != "[*]" for k in ks) and len(ks) < 64 and a.ref and len(a.ref) == 1:
            loc = next(iter(a.ref))
            base = e.load(st, loc)
            if not base.ref:
                e.store(st, (loc,), e.setkid(base, "[%d]" % len(ks), c.args[1]))
                return mk(), st
    put(e, st, c, 0, c.args[1])
    return mk(), st


@m("std::collections::BTreeMap::<K, V, A>::insert", "smallvec::SmallVec::<A>::insert", "serde_json::Map::<std::string::String, serde_json::Value>::insert",
   "std::collections::HashMap::<K, V, S, A>::insert", "std::vec::Vec::<T, A>::insert")
def _insert(e, st, c):
    if "Map" in c.name:
        k = load_if_ref(e, st, c.args[1])
        put(e, st, c, 0, mk(kids={".0": c.args[1], ".1": c.args[2]}))
        return some(mk()), st
    put(e, st, c, 0, c.args[2])
    return mk(), st


@m("std::collections::BTreeMap::<K, V, A>::get", "std::collections::BTreeMap::<K, V, A>::get_mut", "std::collections::HashMap::<K, V, S, A>::get")
def _get(e, st, c):
    x = elem(e, st, c.args[0])
    if x.ref:
        x = mk(ref=frozenset((u, l, p + (".1",)) for u, l, p in x.ref))
    else:
        x = e.project(x, ".1")
    # a lookup table counts as consulted whether or not the key is present
    may, must = e.deps(st, x)
    return mk(kids={".1!Some.0": x}, vg={0: 0, 1: 0}, it=("lookup",)), st


@m("std::collections::BTreeMap::<K, V, A>::entry", "std::collections::BTreeSet::<T, A>::iter", "std::collections::BTreeMap::<K, V, A>::iter",
   "std::collections::HashMap::<K, V, S, A>::iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut",
   "std::iter::IntoIterator::into_iter", "rayon::iter::IntoParallelIterator::into_par_iter", "rayon::iter::IntoParallelRefIterator::par_iter",
   "rayon::iter::IntoParallelRefMutIterator::par_iter_mut", "core::slice::<impl [T]>::chunks", "std::collections::BTreeMap::<K, V, A>::values",
   "std::collections::BTreeMap::<K, V, A>::keys", "core::slice::<impl [T]>::windows", "core::slice::<impl [T]>::chunks_exact",
   "rayon::slice::ParallelSlice::par_chunks", "std::vec::Vec::<T, A>::drain", "std::vec::Vec::<T, A>::into_iter")
def _iter(e, st, c):
    if c.name.endswith("entry"):
        put(e, st, c, 0, mk(kids={".0": c.args[1], ".1": mk()}))
        return c.args[0], st
    if c.name.endswith("chunks") or c.name.endswith("windows") or c.name.endswith("chunks_exact"):
        return mk_iter(c.args[0]), st
    if c.name.endswith("::values") or c.name.endswith("::keys"):
        x = elem(e, st, c.args[0])
        k = ".1" if c.name.endswith("values") else ".0"
        if x.ref:
            x = mk(ref=frozenset((u, l, p + (k,)) for u, l, p in x.ref))
        else:
            x = e.project(x, k)
        return mk_iter(x), st
    a = c.args[0]
    if c.name.endswith("into_iter") and not a.ref:
        t = c.aty[0]
        if opt_kind(e, t) == "Option":
            return mk_iter(payload(e, st, a)), st
    it = to_iter(e, st, a)
    t = c.aty[0]
    # &Map yields (&k, &v)
    return it, st


@m("std::collections::btree_map::Entry::<'a, K, V, A>::or_insert", "std::collections::btree_map::Entry::<'a, K, V, A>::or_insert_with")
def _or_insert(e, st, c):
    x = elem(e, st, c.args[0])
    if x.ref:
        x = mk(ref=frozenset((u, l, p + (".1",)) for u, l, p in x.ref))
    return x, st


def const_range(e, st, v):
    """(lo, hi) when the range bounds are constants, hi None when open"""
    if v.kids is None:
        return None, None
    lo = v.kids.get(".start")
    hi = v.kids.get(".end")
    return lo, hi


def view(e, v, start, end):
    """sub-slice [start..end] of a symbolic container"""
    if end is not None and end >= 0 and end - start <= 32:
        return mk(kids={"[%d]" % (i - start): e.sym(v.path + "[%d]" % i) for i in range(start, end)})
    return mk(kids={"[*]": e.sym(v.path + span_key(start, end))})


@m("std::ops::Index::index", "std::ops::IndexMut::index_mut", "core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut",
   "std::vec::Vec::<T, A>::get", "core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last")
def _index(e, st, c):
    a = c.args[0]
    n = c.name
    for h in e.hooks:
        h.on_index(e, st, c)
    opt = n.split("::")[-1] in ("get", "get_mut", "first", "last")
    if n.endswith("first"):
        idx = kconst(0)
        ity = None
        isrange = False
    elif n.endswith("last"):
        idx = mk()
        isrange = False
    else:
        idx = c.args[1]
        ity = c.aty[1]
        tn = e.T[ity] if ity is not None else {}
        isrange = tn.get("k") == "adt" and "Range" in tn.get("n", "")
    r = c.rname or ""
    base_t = e.strip_ref(c.aty[0])
    bn = e.T[base_t].get("n", "") if base_t is not None else ""
    if bn.endswith("HashMap") or bn.endswith("BTreeMap"):
        x = elem(e, st, a)
        if x.ref:
            x = mk(ref=frozenset((u, l, p + (".1",)) for u, l, p in x.ref))
        else:
            x = e.project(x, ".1")
        return x, st
    if isrange:
        # a slice of the container: the same storage when it starts at 0 or is unknown
        lo, hi = const_range(e, st, idx)
        v = e.deref(st, a)
        if opt:
            return some(a), st
        ks = [k for k in (v.kids or {}) if k[0] == "["]
        if isinstance(getattr(lo, "const", None), int) and lo.const > 0 and a.ref and ks and "[*]" not in ks and v.path is None:
            # shifted view of a known array: copy
            off = lo.const
            top = hi.const if hi is not None and isinstance(hi.const, int) else 10 ** 6
            kids = {}
            for k in ks:
                i = int(k[1:-1])
                if off <= i < top:
                    kids["[%d]" % (i - off)] = v.kids[k]
            tmp = (c.uid, ("t", c.bb, "slice"), ())
            e.store(st, (tmp,), mk(kids=kids))
            return mk(ref=frozenset([tmp])), st
        if v.path is not None and not v.kids:
            start = lo.const if isinstance(getattr(lo, "const", None), int) else 0
            end = fixed_end(hi)
            if end is not None:
                pass
            elif isinstance(getattr(hi, "const", None), int):
                end = hi.const
            elif hi is not None and hi.it and hi.it[0] == "lin" and hi.it[1] == v.path + ".#len" and hi.it[2] < 0:
                end = hi.it[2]
            if start or end is not None:
                tmp = (c.uid, ("t", c.bb, "slice"), ())
                e.store(st, (tmp,), view(e, v, start, end))
                return mk(ref=frozenset([tmp])), st
        if not e.mark_parts and not n.endswith("_mut") and v.path is None and small_part(e, base_t, lo, hi) and (v.must or v.kids and "[*]" in v.kids):
            w = e.weaken(v)
            if w is not v:
                tmp = (c.uid, ("t", c.bb, "slice"), ())
                e.store(st, (tmp,), w)
                return mk(ref=frozenset([tmp])), st
        if e.mark_parts and not n.endswith("_mut") and v.kids and "[*]" in v.kids and (
                isinstance(getattr(lo, "const", None), int) and lo.const > 0 or cuts(hi)):
            tmp = (c.uid, ("t", c.bb, "slice"), ())
            kids = dict(v.kids)
            kids["[*]"] = in_part(e, st, c, kids["[*]"])
            e.store(st, (tmp,), mk(v.may, v.must, kids=kids, path=v.path))
            return mk(ref=frozenset([tmp])), st
        return a, st
    if a.ref:
        out = []
        for loc in a.ref:
            v = e.load(st, loc)
            for l2 in (v.ref if v.ref else (loc,)):
                out.append((l2[0], l2[1], l2[2] + (e.index_key(st, idx, l2),)))
        r = mk(ref=frozenset(out))
        if e.L.data(idx.may) and not n.endswith("_mut") and not out[0][2][-1:] == ("",):
            v = e.read(st, tuple(out))
            x = e.indexed(v, idx)
            if x is not v:
                tmp = (c.uid, ("t", c.bb, "ix"), ())
                e.store(st, (tmp,), x)
                r = mk(ref=frozenset([tmp]))
    else:
        r = e.project(a, "[%d]" % idx.const if isinstance(idx.const, int) and not isinstance(idx.const, bool) else "[*]")
    if opt:
        return some(r), st
    return r, st


@m("std::cmp::Ord::min", "std::cmp::min")
def _min(e, st, c):
    a, b = c.args[0], c.args[1]
    if isinstance(a.const, int):
        a, b = b, a
    ma, mua = e.deps(st, a)
    mb, mub = e.deps(st, b)
    if isinstance(a.const, int) and isinstance(b.const, int):
        return kconst(min(a.const, b.const)), st
    return mk(ma | mb, mua | mub, it=("cap", b.const) if isinstance(b.const, int) and not isinstance(b.const, bool) else None), st


def fixed_end(hi):
    """a constant upper bound, however long the list is"""
    if hi is None:
        return None
    if hi.it and hi.it[0] in ("cap", "lit"):
        return hi.it[1] + (CAP if hi.it[0] == "cap" else 0)
    return None


def small_part(e, t, lo, hi):
    """does [lo..hi] keep a fixed number of elements, too few to stand for the whole"""
    end = fixed_end(hi)
    if end is None:
        return False
    d = e.T[t] if t is not None else {}
    el = d.get("t") if d.get("k") in ("slice", "array") else (d.get("a") or [None])[0]
    b = e.width_of(el)
    start = lo.const if isinstance(getattr(lo, "const", None), int) else 0
    if b is not None:
        return ((end & (CAP - 1)) - start) * b < FULL_BITS
    return end >= CAP       # a literal end may be one part of a partition


def narrow(e, st, c, x, depth=0):
    """the same value with no obligation met through it: only a part of it is used"""
    if x.ref and depth < 4:
        y = e.deref(st, x)
        if y.ref or y is x:
            return x
        tmp = (c.uid, ("t", c.bb, "narrow%d" % depth), ())
        e.store(st, (tmp,), narrow(e, st, c, y, depth + 1))
        return mk(ref=frozenset([tmp]))
    return e.weaken(x)


def cuts(hi):
    """does this upper bound leave elements out, as far as one can tell"""
    if hi is None:
        return False
    return isinstance(hi.const, int) or hi.path is not None and not hi.path.endswith("#len") or bool(hi.it and hi.it[0] == "lin" and hi.it[2] < 0)


def in_part(e, st, c, x):
    """the same value, marked as coming from a part of its container only"""
    lab = e.L.bit("part#%d" % e.uid((c.uid, c.bb, "part")))
    e.part_labels |= lab
    n = [0]

    def mark(x, depth):
        if x.ref and depth < 4:
            y = e.deref(st, x)
            if y.ref or y is x:
                return x
            n[0] += 1
            tmp = (c.uid, ("t", c.bb, "part%d" % n[0]), ())
            e.store(st, (tmp,), mark(y, depth + 1))
            return mk(ref=frozenset([tmp]))
        if x.kids and depth < 4 and not x.may:
            return mk(kids={k: mark(y, depth + 1) for k, y in x.kids.items()}, vg=x.vg, path=x.path)
        if not x.may or x.const is not None:
            return x
        return mk(x.may | lab, x.must, path=x.path, kids=x.kids, vg=x.vg, it=x.it)
    return mark(x, 0)


@m("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def _split_at(e, st, c):
    return mk(kids={".0": c.args[0], ".1": c.args[0]}), st


@m("std::iter::Extend::extend", "std::vec::Vec::<T, A>::extend_from_slice", "std::vec::Vec::<T, A>::append", "std::string::String::push_str")
def _extend(e, st, c):
    src = c.args[1]
    if c.name.endswith("append") or c.name.endswith("from_slice"):
        x = elem(e, st, src)
    else:
        x = it_item(e, st, src)
    x = load_if_ref1(e, st, x) if x.ref and elem_is_owned(e, c) else x
    put(e, st, c, 0, x)
    return mk(), st


def elem_is_owned(e, c):
    t = e.strip_ref(c.aty[0])
    if t is None:
        return True
    tt = e.T[t]
    if tt["k"] == "adt" and tt["a"]:
        return e.T[tt["a"][0]]["k"] != "ref"
    return True


@m("std::vec::Vec::<T, A>::resize", "std::vec::Vec::<T, A>::resize_with")
def _resize(e, st, c):
    if c.name.endswith("resize"):
        old = elem0(e, st, c.args[0])
        x = e.ojoin(old, c.args[2])
        lost = x.must & e.drawbits & ~e.deps(st, c.args[2])[1]
        if lost and old.must & lost:
            # what is filled in is not drawn
            x = mk(x.may, x.must & ~lost, x.path, x.kids, x.vg, x.ref, x.const, x.fn, x.it)
            v = e.deref(st, c.args[0])
            wr(e, st, c, 0, drop_len(e, mk(v.may, v.must & ~lost, v.path, {"[*]": x}, v.vg, v.ref, v.const, v.fn, v.it)))
            return mk(), st
        put(e, st, c, 0, x)
        for h in e.hooks:
            h.on_from_elem(e, st, c, c.args[2])
    return mk(), st


def elem0(e, st, a):
    v = e.deref(st, a)
    return e.project(v, "[*]")


@m("std::mem::drop", "std::vec::Vec::<T, A>::reserve")
def _noop(e, st, c):
    return mk(), st


@m("std::vec::Vec::<T, A>::truncate", "core::slice::<impl [T]>::reverse", "std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort",
   "std::slice::<impl [T]>::sort_by_key", "std::vec::Vec::<T, A>::clear")
def _reshape(e, st, c):
    """the positions of the elements are no longer known"""
    v = e.deref(st, c.args[0])
    if v.kids and not v.path:
        x = None
        rest = {}
        for k, y in v.kids.items():
            if k[0] == "[":
                x = y if x is None else e.ojoin(x, y)
            else:
                rest[k] = y
        if x is not None:
            rest["[*]"] = x
            wr(e, st, c, 0, mk(v.may, v.must, kids=rest))
    return mk(), st


@m("std::vec::Vec::<T, A>::pop", "std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def _pop(e, st, c):
    v = e.deref(st, c.args[0])
    x = e.project(v, "[*]")
    return (some(x) if c.name.endswith("pop") else x), st


@m("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def _copy_from(e, st, c):
    src = e.deref(st, c.args[1])
    wr(e, st, c, 0, src)
    return mk(), st


@m("std::slice::<impl [T]>::concat")
def _concat(e, st, c):
    x = elem(e, st, c.args[0])
    x = load_if_ref(e, st, x)
    y = e.project(x, "[*]") if (x.kids or x.path) else mk(*e.deps(st, x))
    return mk(kids={"[*]": load_if_ref1(e, st, y)}), st


@m("std::boxed::Box::<T>::new_uninit")
def _new_uninit(e, st, c):
    loc = (c.uid, ("h", c.bb), ())
    st.wframe(c.uid)[("h", c.bb)] = mk()
    return mk(ref=frozenset([loc])), st


@m("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::<impl [T]>::into_vec", "std::boxed::Box::<T>::new")
def _box_vec(e, st, c):
    return e.deref1(st, c.args[0]) if not c.name.endswith("Box::<T>::new") else c.args[0], st


@m("std::mem::swap")
def _swap(e, st, c):
    a = e.deref1(st, c.args[0])
    b = e.deref1(st, c.args[1])
    wr(e, st, c, 0, b)
    wr(e, st, c, 1, a)
    return mk(), st


@m("std::mem::replace", "std::mem::take")
def _replace(e, st, c):
    a = e.deref1(st, c.args[0])
    wr(e, st, c, 0, c.args[1] if len(c.args) > 1 else mk())
    return a, st


# ---- iterators
@m("std::iter::Iterator::next", "std::iter::Peekable::<I>::peek", "std::iter::DoubleEndedIterator::next_back")
def _next(e, st, c):
    it = to_iter(e, st, c.args[0])
    e.trip(c.uid, c.bb, it_len(it)[0])
    ph = e.phases[-1] if e.phases else ()
    h = e.loop_of(c)
    if h is not None:
        lits = lits_of(it)
        if lits:
            e.unroll[c.uid, h] = len(lits)
        if lits and c.name == "std::iter::Iterator::next":
            i = ph[-1] if ph[-1] < PEEL else ph[-1] - 1
            if i < len(lits):
                return some(lits[i], {1: 0}), st
            return some(it.kids[IT], {0: 0}), st
    # every iteration analysed on its own is one the iterator has an item for
    return some(it.kids[IT], {1: 0} if ph and ph[-1] < PEEL else None), st


@m("std::iter::Iterator::enumerate", "rayon::iter::IndexedParallelIterator::enumerate")
def _enumerate(e, st, c):
    it = to_iter(e, st, c.args[0])
    lits = lits_of(it)
    return mk_iter(mk(kids={".0": mk(), ".1": it.kids[IT]}), it_len(it), lits and [mk(kids={".0": kconst(i), ".1": x}) for i, x in enumerate(lits)]), st


# enumerate() keeps no relation between the index and the element, except through skip/take


@m("std::iter::Iterator::zip", "rayon::iter::IndexedParallelIterator::zip", "rayon::iter::IndexedParallelIterator::zip_eq")
def _zip(e, st, c):
    a = to_iter(e, st, c.args[0])
    b = to_iter(e, st, c.args[1])
    la, lb = it_len(a), it_len(b)
    x, y = lits_of(a), lits_of(b)
    return mk_iter(mk(kids={".0": a.kids[IT], ".1": b.kids[IT]}), (la[0] | lb[0], la[1] | lb[1]),
                   x and y and [mk(kids={".0": p, ".1": q}) for p, q in zip(x, y)]), st


@m("std::iter::Iterator::chain", "rayon::iter::ParallelIterator::chain")
def _chain(e, st, c):
    a = to_iter(e, st, c.args[0])
    b = to_iter(e, st, c.args[1])
    la, lb = it_len(a), it_len(b)
    x, y = a.kids[IT], b.kids[IT]
    if bool(x.ref) or bool(y.ref):
        # one loaded value, so that both parts count as traversed
        x, y = e.deref1(st, x), e.deref1(st, y)
    return mk_iter(e.ojoin(x, y), (la[0] | lb[0], la[1] | lb[1])), st


@m("std::iter::Iterator::rev", "std::iter::Iterator::skip", "std::iter::Iterator::take", "std::iter::Iterator::peekable", "std::iter::Iterator::step_by",
   "std::iter::Iterator::fuse", "rayon::iter::IndexedParallelIterator::rev", "rayon::iter::IndexedParallelIterator::with_min_len",
   "std::iter::Iterator::cycle", "std::iter::Iterator::skip_while", "std::iter::Iterator::take_while")
def _same_iter(e, st, c):
    it = to_iter(e, st, c.args[0])
    n = c.name.split("::")[-1]
    if n in ("skip", "take") and len(c.args) > 1:
        k = c.args[1]
        x = it.kids[IT]
        kc = fixed_end(k) if n == "take" and not isinstance(k.const, int) else k.const
        if isinstance(kc, int) and kc > 0:
            x = part_item(e, st, x, kc if n == "skip" else 0, None if n == "skip" else kc, None)
            if n == "take" and fixed_end(k) is not None and not e.mark_parts and x is it.kids[IT]:
                x = narrow(e, st, c, x)
        elif n == "take" and k.it and k.it[0] == "lin" and k.it[2] < 0:
            x = part_item(e, st, x, 0, k.it[2], k.it[1])
        if e.mark_parts and x is it.kids[IT] and "Mut" not in str(e.T[c.aty[0]] if c.aty[0] is not None else "") and (cuts(k) if n == "take" else isinstance(k.const, int) and k.const > 0):
            x = in_part(e, st, c, x)
        return mk_iter(x, it_len(it)), st
    if n in ("step_by", "cycle", "skip_while", "take_while") and lits_of(it):
        return mk_iter(it.kids[IT], it_len(it)), st
    if n == "rev" and lits_of(it):
        return mk_iter(it.kids[IT], it_len(it), lits_of(it)[::-1]), st
    return it, st


def part_item(e, st, x, a, b, lenpath):
    """items left after skipping or taking a constant number of elements of symbolic containers"""
    if x.ref:
        out = []
        for u, l, p in x.ref:
            if p and p[-1] == "[*]":
                c = e.load(st, (u, l, p[:-1]))
                if c.path is not None and not c.kids and (lenpath is None or c.path + ".#len" == lenpath):
                    p = p[:-1] + (span_key(a, b),)
                elif c.kids and lenpath is None and "[*]" not in c.kids:
                    p = p[:-1] + (span_key(a, b),)
            out.append((u, l, p))
        return mk(ref=frozenset(out))
    if x.kids and x.path is None and not x.may:
        return mk(kids={k: part_item(e, st, y, a, b, lenpath) for k, y in x.kids.items()}, vg=x.vg)
    if x.it and x.it[0] == "idx":
        return mk(x.may, x.must, it=("idx", x.it[1] + a, b if lenpath is None else x.it[2]))
    if x.path is not None and x.path.endswith("[*]") and not x.kids and lenpath is None:
        return e.sym(x.path[:-3] + span_key(a, b))
    return x


@m("std::iter::once", "std::iter::repeat")
def _once(e, st, c):
    return mk_iter(c.args[0]), st


@m("std::iter::Iterator::map", "rayon::iter::ParallelIterator::map", "std::iter::Iterator::flat_map", "std::iter::Iterator::filter_map")
def _map(e, st, c):
    it = to_iter(e, st, c.args[0])
    n = c.name.split("::")[-1]
    lits = lits_of(it) if n == "map" else None
    if lits:
        out = []
        for x in lits:
            r, st = call_clo(e, st, c, c.args[1], [x], "map")
            if r is None:
                return None, st
            out.append(r)
        r = out[0]
        for x in out[1:]:
            r = e.join(r, x)
        return mk_iter(r, it_len(it), out), st
    r, st2 = call_clo(e, st, c, c.args[1], [it.kids[IT]], "map")
    if r is None:
        return None, st
    if n == "flat_map":
        r = to_iter(e, st2, r).kids[IT]
    elif n == "filter_map":
        r = payload(e, st2, r)
    return mk_iter(r, it_len(it)), st2


@m("std::iter::Iterator::filter", "rayon::iter::ParallelIterator::filter", "std::iter::Iterator::inspect")
def _filter(e, st, c):
    it = to_iter(e, st, c.args[0])
    x = it.kids[IT]
    tmp = (c.uid, ("t", c.bb, "item"), ())
    e.store(st, (tmp,), x)
    r, st2 = call_clo(e, st, c, c.args[1], [mk(ref=frozenset([tmp]))], "filter")
    if r is None:
        return None, st
    return (it if c.name.endswith("inspect") or not lits_of(it) else mk_iter(it.kids[IT], it_len(it))), st2


@m("std::iter::Iterator::for_each", "rayon::iter::ParallelIterator::for_each")
def _for_each(e, st, c):
    it = to_iter(e, st, c.args[0])
    for x in (lits_of(it) or ())[:-1]:
        r, st = call_clo(e, st, c, c.args[1], [x], "each")
        if r is None:
            return None, st
    r, st2 = call_clo(e, st, c, c.args[1], [(lits_of(it) or [it.kids[IT]])[-1]], "each")
    if r is None:
        return None, st
    return mk(), st2


@m("std::iter::Iterator::try_for_each", "rayon::iter::ParallelIterator::try_for_each")
def _try_for_each(e, st, c):
    """every item is seen to when it goes well"""
    it = to_iter(e, st, c.args[0])
    lits = lits_of(it) or [it.kids[IT]] * 2
    if opt_kind(e, c.dty) != "Result":
        r, st2 = call_clo(e, st, c, c.args[1], [it.kids[IT]], "each")
        return r, st2 if r is not None else st
    must = 0
    bad = None
    for x in lits:
        good = None
        for sh, v, s in call_clo_parts(e, st, c, c.args[1], [x], "try"):
            g = v.vg if v.vg is not None else {0: v.must, 1: v.must}
            if 0 in g:
                good = (v, s, g[0]) if good is None else (e.join(good[0], v, good[1].G, s.G), e.join_state(good[1], s), good[2] & g[0])
            if 1 in g and len(g) == 1:
                bad = (v, s) if bad is None else (e.join(bad[0], v, bad[1].G, s.G), e.join_state(bad[1], s))
        if good is None:
            break
        must |= good[2]
        st = good[1]
    out = []
    if good is not None:
        v = good[0]
        vg = {k: must if k == 0 else y for k, y in v.vg.items()} if v.vg is not None else {0: must}
        out.append(((("d", 0),), mk(v.may, v.must, v.path, v.kids, vg, v.ref, None, v.fn, v.it), good[1]))
    if bad is not None:
        out.append(((("d", 1),), bad[0], bad[1]))
    return out or None, st


@m("std::iter::Iterator::collect", "rayon::iter::ParallelIterator::collect", "std::iter::FromIterator::from_iter")
def _collect(e, st, c):
    it = to_iter(e, st, c.args[0])
    lits = lits_of(it)
    if lits and opt_kind(e, c.dty) is None and e.T[c.dty].get("n", "").endswith("Vec"):
        return mk(kids={"[%d]" % i: x for i, x in enumerate(lits)}), st
    return collect_to(e, st, c, it.kids[IT], it_len(it)), st


@m("std::iter::Iterator::unzip")
def _unzip(e, st, c):
    it = to_iter(e, st, c.args[0])
    x = it.kids[IT]
    return mk(kids={".0": mk(kids={"[*]": e.project(x, ".0")}), ".1": mk(kids={"[*]": e.project(x, ".1")})}), st


@m("std::iter::Iterator::sum", "std::iter::Iterator::product", "rayon::iter::ParallelIterator::sum", "rayon::iter::ParallelIterator::product",
   "std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::count", "std::iter::Iterator::last")
def _sum(e, st, c):
    it = to_iter(e, st, c.args[0])
    may, must = e.deps(st, it.kids[IT])
    n = c.name.split("::")[-1]
    if n not in ("last",):
        for x in lits_of(it) or ():
            a, b = e.deps(st, x)
            may, must = may | a, must | b
    v = mk(may, must)
    if n in ("max", "min", "last"):
        return some(v), st
    if n == "count":
        return mk(*it_len(it)), st
    return v, st


@m("std::iter::Iterator::fold", "rayon::iter::ParallelIterator::fold")
def _fold(e, st, c):
    it = to_iter(e, st, c.args[0])
    if lits_of(it):
        r = c.args[1]
        for x in lits_of(it):
            r, st = call_clo(e, st, c, c.args[2], [r, x], "fold")
            if r is None:
                return None, st
        return r, st
    r, st2 = call_clo(e, st, c, c.args[2], [c.args[1], it.kids[IT]], "fold")
    if r is None:
        return None, st
    r2, st3 = call_clo(e, st2, c, c.args[2], [r, it.kids[IT]], "fold")
    if r2 is None:
        return None, st
    return e.join(r, r2), st3


@m("std::iter::Iterator::all", "std::iter::Iterator::any", "rayon::iter::ParallelIterator::all", "rayon::iter::ParallelIterator::any")
def _all(e, st, c):
    it = to_iter(e, st, c.args[0])
    alls = c.name.endswith("all")
    lits = lits_of(it)
    if lits:
        good = 1 if alls else 0
        vg = {good: 0}
        may = must = 0
        for x in lits:
            r, st = call_clo(e, st, c, c.args[1], [x], "all")
            if r is None:
                return None, st
            g = r.vg if r.vg is not None else {0: r.must, 1: r.must}
            vg[good] |= g.get(good, 0)
            if 1 - good in g:
                vg[1 - good] = vg.get(1 - good, -1) & g[1 - good]
            a, b = e.deps(st, r)
            may, must = may | a, must | b
        return mk(may, must, vg=vg), st
    r, st2 = call_clo(e, st, c, c.args[1], [it.kids[IT]], "all")
    if r is None:
        return None, st
    vg = r.vg if r.vg is not None else {0: r.must, 1: r.must}
    if c.name.endswith("all"):
        out = {1: vg.get(1, 0), 0: vg.get(0, 0)}
    else:
        out = {1: vg.get(1, 0), 0: vg.get(0, 0)}
    may, must = e.deps(st2, r)
    return mk(may, must, vg=out), st2


@m("std::iter::Iterator::find", "std::iter::Iterator::position", "std::iter::Iterator::find_map")
def _find(e, st, c):
    it = to_iter(e, st, c.args[0])
    x = it.kids[IT]
    tmp = (c.uid, ("t", c.bb, "item"), ())
    e.store(st, (tmp,), x)
    arg = mk(ref=frozenset([tmp])) if c.name.endswith("find") else x
    r, st2 = call_clo(e, st, c, c.args[1], [arg], "find")
    if r is None:
        return None, st
    m1, m2 = e.deps(st2, r)
    if c.name.endswith("position"):
        return some(mk(m1, 0)), st2
    return some(x), st2


# ---- comparisons
@m("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _eq(e, st, c):
    a, b = e.deref(st, c.args[0]), e.deref(st, c.args[1])
    m1, u1 = e.deps(st, a)
    m2, u2 = e.deps(st, b)
    may, must = m1 | m2, u1 | u2
    if isinstance(a.const, (int, str)) and isinstance(b.const, (int, str)) and type(a.const) == type(b.const):
        r = a.const == b.const
        return kconst(r if c.name.endswith("eq") else not r), st
    same = a is b and (a.path is not None)
    if same:
        must = 0
    for h in e.hooks:
        h.on_compare(e, st, c, a, b)
    g = must
    if must:
        g |= e.compared((c.uid, c.bb, c.fn, c.line), must, may, (a, b), st)
    if c.name.endswith("eq"):
        return mk(may, must, vg={1: g, 0: 0}), st
    return mk(may, must, vg={0: g, 1: 0}), st


@m("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def _ord(e, st, c):
    # an order implies no equation
    a, b = e.deref(st, c.args[0]), e.deref(st, c.args[1])
    if e.T[e.strip_ref(c.aty[0])]["k"] in ("uint", "int"):
        return e.binop(st, c.name.split("::")[-1].capitalize(), a, b), st
    m1, u1 = e.deps(st, a)
    m2, u2 = e.deps(st, b)
    return mk(m1 | m2, u1 | u2), st


@m("ark_ff::Zero::is_zero", "ark_ff::One::is_one")
def _is_zero(e, st, c):
    may, must = e.deps(st, c.args[0])
    g = must
    if must:
        g |= e.compared((c.uid, c.bb, c.fn, c.line), must, may, (c.args[0],), st)
    return mk(may, must, vg={1: g, 0: 0}), st


# ---- arithmetic that updates in place
@m("std::ops::AddAssign::add_assign", "std::ops::SubAssign::sub_assign", "std::ops::MulAssign::mul_assign", "std::ops::DivAssign::div_assign",
   "zkp_curve::ProjectiveCurve::add_assign_mixed", "std::ops::BitXorAssign::bitxor_assign")
def _opassign(e, st, c):
    wr(e, st, c, 0, mk(*alldeps(e, st, c.args)))
    return mk(), st


# ---- bytes and transcripts
@m("ark_ff::ToBytes::write", "ark_serialize::CanonicalSerialize::serialize", "ark_serialize::CanonicalSerialize::serialize_uncompressed",
   "ark_serialize::CanonicalSerialize::serialize_unchecked", "std::io::Write::write_all", "std::io::Write::write")
def _write(e, st, c):
    if c.name.startswith("std::io"):
        src, dst = 1, 0
    else:
        src, dst = 0, 1
    if c.f.get("el") is not None:
        # a container of values that /repo says how to write
        return write_each(e, st, c, c.args[src], c.args[dst])
    x = mk(*e.deps(st, c.args[src]))
    st = write_ws_elements(e, st, c, c.args[src], c.args[dst], x)
    return ok(mk(), {0: 0, 1: 0}), st


def write_each(e, st, c, v, w):
    """writing a container, a reference or an optional value is writing what is in it"""
    n = 0
    bad = None
    todo = [v]
    while todo:
        x = todo.pop(0)
        y = x
        while y.ref:
            z = e.deref1(st, y)
            if not z.ref:
                break
            y = z
        z = e.deref(st, x)
        if x.ref and z.kids and z.path is None and has_elem(z) and len(y.ref) == 1:
            u, l, p = next(iter(y.ref))
            todo = [mk(ref=frozenset([(u, l, p + (k,))])) for k in sorted(z.kids) if k[0] == "["] + todo
            continue
        n += 1
        a = z
        t = e.T[e.F[c.f["el"]]["locals"][1]]["t"]
        if z.path is not None:
            ty = c.f["a"][0]
            path = z.path
            while ty != t:
                k = e.T[ty]
                if k["k"] == "ref":
                    ty = k["t"]
                    continue
                vec = k["k"] in ("slice", "array") or k["n"].endswith("::Vec")
                ty = k["t"] if k["k"] in ("slice", "array") else k["a"][0]
                path += "[*]" if vec else ""
            a = e.sym(path) if path != z.path else z
        tmp = (c.uid, ("t", c.bb, "each%d" % n), ())
        e.store(st, (tmp,), a)
        e.keep_parts = True
        try:
            r = e.call_fn(st, c.uid, (c.bb, "each%d" % n), c.f["el"], [mk(ref=frozenset([tmp])), w])
        finally:
            e.keep_parts = False
        parts = r if isinstance(r, list) else [] if r[0] is None else [((), r[0], r[1])]
        good = None
        for sh, v, s in parts:
            g = v.vg if v.vg is not None else {0: 0, 1: 0}
            if 0 in g:
                good = s if good is None else e.join_state(good, s)
            else:
                bad = (v, s) if bad is None else (e.join(bad[0], v, bad[1].G, s.G), e.join_state(bad[1], s))
        if good is None:
            st = None
            break
        st = good
    out = []
    if st is not None:
        out.append(((("d", 0),), ok(mk(), {0: 0}), st))
    if bad is not None:
        out.append(((("d", 1),), bad[0], bad[1]))
    return out or None, st


def write_ws_elements(e, st, c, src, dst, x):
    # the writer accumulates what is written
    locs = []
    w = dst
    n = 0
    while n < 6:
        inner = e.deref1(st, w) if w.ref else None
        if inner is not None and inner.ref:
            w = inner
            n += 1
            continue
        break
    if w.ref:
        for loc in w.ref:
            v = e.load(st, loc)
            # a slice writer (&mut [u8]) or a Vec<u8>
            e.store(st, (loc,), mk(v.may | x.may, v.must | x.must, None, v.kids))
    else:
        i = 0 if c.name.startswith("std::io") else 1
        wr(e, st, c, i, mk(w.may | x.may, w.must | x.must))
    return st


@m("merlin::transcript::Transcript::new", "merlin::Transcript::new")
def _tnew(e, st, c):
    return mk(it=("transcript",)), st


def transcript_loc(e, st, c):
    w = c.args[0]
    n = 0
    while n < 6 and w.ref:
        inner = e.deref1(st, w)
        if inner.ref:
            w = inner
            n += 1
        else:
            break
    return w


@m("merlin::transcript::Transcript::append_message", "merlin::transcript::Transcript::append_u64", "merlin::Transcript::append_message", "merlin::Transcript::append_u64")
def _tappend(e, st, c):
    may, must = e.deps(st, c.args[2])
    w = transcript_loc(e, st, c)
    for h in e.hooks:
        h.on_absorb(e, st, c, may, must)
    if w.ref:
        for loc in w.ref:
            v = e.load(st, loc)
            weak = len(w.ref) > 1
            nv = mk(v.may | may, v.must | must, v.path, v.kids, None, None, None, None, v.it)
            e.store(st, (loc,), nv, weak=weak)
    else:
        wr(e, st, c, 0, mk(w.may | may, w.must | must, w.path, w.kids, None, None, None, None, w.it))
    return mk(), st


@m("merlin::transcript::Transcript::challenge_bytes", "merlin::Transcript::challenge_bytes")
def _tchal(e, st, c):
    w = transcript_loc(e, st, c)
    t = e.deref(st, w)
    lab = e.deref(st, c.args[1]).const
    buf = c.args[2]
    for _ in range(4):
        if buf.ref and len(buf.ref) == 1:
            buf = e.deref1(st, buf)
    n = buf.it[1] if buf.it and buf.it[0] == "repeat" else None
    v = e.fresh(st, c, "chal", t.may, t.must, {"label": lab}, bits=8 * n if n else None)
    if w.ref:
        for loc in w.ref:
            tv = e.load(st, loc)
            e.store(st, (loc,), mk(tv.may | v.may | e.L.bit("seq#" + e.last_fresh), tv.must | v.must, tv.path, tv.kids, None, None, None, None, tv.it), weak=len(w.ref) > 1)
    # destination buffer
    d = c.args[2]
    n = 0
    while d.ref and n < 4:
        inner = e.deref1(st, d)
        if inner.ref:
            d = inner
            n += 1
        else:
            break
    if d.ref:
        e.store(st, tuple(d.ref), v)
    else:
        wr(e, st, c, 2, v)
    return mk(), st


# ---- randomness
@m("ark_ff::UniformRand::rand", "rand::Rng::gen", "ark_poly::UVPolynomial::rand", "ark_poly::EvaluationDomain::sample_element_outside_domain",
   "rand::RngCore::next_u64", "rand::RngCore::next_u32", "rand::Rng::gen_range", "rand::distributions::Distribution::sample")
def _rand(e, st, c):
    i = len(c.args) - 1 if c.name != "rand::Rng::gen_range" else 0
    may, must = e.deps(st, c.args[i])
    for h in e.hooks:
        h.on_draw(e, st, c)
    v = e.fresh(st, c, "draw", may, must, bits=e.width_of(c.dty))
    advance(e, st, c.args[i])
    return v, st


def advance(e, st, rng):
    """a generator that has been drawn from is in another state"""
    b = e.L.bit("seq#" + e.last_fresh)
    for _ in range(6):
        inner = e.deref1(st, rng) if rng.ref else rng
        if not inner.ref:
            break
        rng = inner
    if rng.ref:
        for loc in rng.ref:
            v = e.load(st, loc)
            if not v.may & b:
                e.store(st, (loc,), mk(v.may | b, v.must, v.path, v.kids, v.vg, v.ref, None, v.fn, v.it), weak=len(rng.ref) > 1)


@m("rand::RngCore::fill_bytes", "rand::RngCore::try_fill_bytes", "rand::Rng::fill")
def _fill(e, st, c):
    may, must = e.deps(st, c.args[0])
    for h in e.hooks:
        h.on_draw(e, st, c)
    v = e.fresh(st, c, "draw", may, must)
    advance(e, st, c.args[0])
    wr(e, st, c, 1, v)
    return ok(mk()), st


def _source(name):
    def f(e, st, c):
        for h in e.hooks:
            h.on_source(e, st, c, name)
        b = e.L.bit("source:" + name)
        return mk(b, b), st
    return f


M["rand::thread_rng"] = _source("thread_rng")
M["ark_std::rand_helper::test_rng"] = _source("test_rng")
M["ark_std::test_rng"] = _source("test_rng")
M["rand::SeedableRng::from_entropy"] = _source("from_entropy")
M["std::env::args"] = _source("args")
M["std::time::SystemTime::now"] = _source("time")
M["std::time::Instant::now"] = _source("time")


@m("rand::SeedableRng::from_seed", "rand::SeedableRng::seed_from_u64")
def _from_seed(e, st, c):
    may, must = e.deps(st, c.args[0])
    if must == 0 and may == 0:
        b = e.L.bit("source:constant_seed")
        for h in e.hooks:
            h.on_source(e, st, c, "constant_seed")
        return mk(b, b), st
    return mk(may, must), st


# ---- panics: never return
def _never(e, st, c):
    return None, st


for _n in ("core::panicking::panic", "core::panicking::assert_failed", "std::rt::begin_panic", "core::panicking::panic_fmt", "std::process::exit",
           "core::panicking::panic_display", "core::panicking::unreachable_display", "std::process::abort"):
    M[_n] = _never


# ---- printing
@m("std::io::_print", "std::io::_eprint", "core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug")
def _print(e, st, c):
    if c.name.startswith("core::fmt"):
        return mk(*e.deps(st, c.args[0])), st
    return mk(), st


# ------------------------------------------------------------------ entry
MUT_IGNORE = ("rng",)


def model_call(e, st, c):
    f = M.get(c.name)
    if f is None:
        f = M.get(c.f.get("r"))
    if f is not None:
        return f(e, st, c)
    return default(e, st, c)


def default(e, st, c):
    # closures handed to unknown functions are invoked with values that depend on everything
    may, must = alldeps(e, st, c.args)
    for i, a in enumerate(c.args):
        fv = e.fn_target(st, a)
        if fv.fn is not None and fv.fn[0] == "closure":
            e.unmodelled["closure:" + str(c.rname)] += 1
            t = e.T[fv.fn[1]]
            if t["fn"] is None:
                continue
            body = e.F[t["fn"]]
            n = body["argc"] - 1
            r, s2 = call_clo(e, st.copy(), c, a, [mk(may, must)] * n, "dflt%d" % i)
            if r is not None:
                m1, m2 = e.deps(s2, r)
                may |= m1
                must |= m2
                st = s2
    e.unmodelled["default:" + str(c.rname)] += 1
    for i in range(len(c.args)):
        if is_mutref(c, i):
            a = c.args[i]
            inner = e.deref(st, a)
            if rngish(e, c.aty[i]):
                continue
            if a.ref:
                tgt = a
                n = 0
                while n < 4:
                    y = e.deref1(st, tgt)
                    if y.ref:
                        tgt = y
                        n += 1
                    else:
                        break
                e.store(st, tuple(tgt.ref), mk(may, must), weak=len(tgt.ref) > 1)
            else:
                wr(e, st, c, i, mk(may, must))
    # functions that receive a random number generator may return fresh randomness
    for i in range(len(c.args)):
        if rngish(e, c.aty[i] if i < len(c.aty) else None):
            m1, m2 = e.deps(st, c.args[i])
            for h in e.hooks:
                h.on_draw(e, st, c)
            v = e.fresh(st, c, "draw", m1, m2)
            may |= v.may
            must |= v.must
            break
    k = opt_kind(e, c.dty)
    v = mk(may, must)
    bt = c.dty
    if k == "Result":
        bt = e.T[c.dty]["a"][0]
    if must and e.is_bool(bt):
        # an opaque decision procedure: one comparison of everything it is given
        g = must | e.compared((c.uid, c.bb, c.fn, c.line), must, may, tuple(c.args), st)
        v = mk(may, must, vg={1: g, 0: 0})
    if k == "Option":
        return some(v), st
    if k == "Result":
        return ok(v), st
    return v, st


def rngish(e, ty):
    ty = e.strip_ref(ty)
    if ty is None:
        return False
    t = e.T[ty]
    if t["k"] == "adt":
        n = t["n"].split("::")[-1]
        if n in ("Option",) and t["a"]:
            return rngish(e, t["a"][0])
        return n.endswith("Rng") or "Rng" in n
    if t["k"] == "dyn":
        return "RngCore" in t["s"]
    return False
