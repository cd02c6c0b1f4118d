"""Running the engine on one analysis root and reading the results."""
from absint import PEEL, Engine, State, load_facts, mk, reset_intern


class Result:
    pass


def accept_mask(e, v, s):
    """labels compared on every path on which the root returns true / Ok(true) / Ok / Some"""
    g = s.G
    kids = v.kids or {}
    pay = None
    for k, good in ((".0!Ok.0", 0), (".1!Some.0", 1)):
        if k in kids:
            pay = kids[k]
            if v.vg and good in v.vg:
                g |= v.vg[good]
    b = pay if pay is not None else v
    if b.vg and 1 in b.vg:
        g |= b.vg[1]
    elif b.vg is None:
        g |= b.must
    return g


def run_root(e, name, overrides=None, hooks=()):
    e.reset()
    e.hooks += hooks
    reset_intern()
    e.deps_memo.clear()
    fid = e.roots["proving::" + name] if "proving::" + name in e.roots else [i for n, i in e.roots.items() if n.endswith(name)][0]
    fn = e.F[fid]
    st = State()
    u = e.uid("root")
    names = {}
    for n in fn["names"]:
        if n[2]:
            names[n[1][0]] = n[0]
    params = [names[i + 1] for i in range(fn["argc"])]
    args = [e.sym(p) if not (overrides and p in overrides) else overrides[p] for p in params]
    st.newframe(u)
    v, s = e.call_fn(st, u, "r", fid, args)
    r = Result()
    r.v, r.s, r.params, r.name, r.fn = v, s, params, name, fn
    return r


def exclusive(e, a, b):
    """no execution reaches both draws: they sit on different branches of one call"""
    def chain(x):
        out = [(x["uid"], x["bb"])]
        while out[-1][0] is not None and out[-1][0] < len(e.uid_list):
            k = e.uid_list[out[-1][0]]
            if not isinstance(k[0], int):
                break
            out.append((k[0], k[1]))
        return out
    ca, cb = chain(e.draws[a]), dict(chain(e.draws[b]))
    for u, x in ca:
        if u not in cb:
            continue
        y = cb[u]
        x, y = (z[0] if isinstance(z, tuple) else z for z in (x, y))
        if u >= len(e.uid_list) or len(e.uid_list[u]) < 3:
            return False
        cfg = e.cfg(e.uid_list[u][2])
        return x != y and not cfg.reaches(x, y) and not cfg.reaches(y, x)
    return False


def forks(e, names):
    """pairs of draws that may see one and the same generator state, and so be equal"""
    out = []
    insts = [(n, x) for n, x in e.insts.items() if x[0] in names]
    for i, (n, x) in enumerate(insts):
        rep = x[3] or str(PEEL) in n.partition("@")[2]
        if rep and not x[1] & x[2] and (x[0], x[0]) not in out:
            out.append((x[0], x[0]))
        for _, y in insts[i + 1:]:
            if not x[1] & y[2] and not y[1] & x[2] and (x[0], y[0]) not in out and not exclusive(e, x[0], y[0]):
                out.append((x[0], y[0]))
    return out
