"""Fresh randomness: which draws every output of a prover or of a setup has to carry.

The table gives, per output leaf, names of secrets.  The names are unknowns: the rule looks
for an injective assignment of names to draw sites of the current code such that each leaf
depends on the draws of all its names on every path, as often repeated as the leaf is.
"""
import re

from analyze import forks, run_root
from leaves import leaves
from rules_verify import expand, where


def payload_ty(e, ty):
    t = e.T[ty]
    if t["k"] == "adt" and t["n"].split("::")[-1] == "Result":
        return t["a"][0]
    return ty


def out_leaves(e, r, lits):
    ty = payload_ty(e, e.F[r.fn["id"]]["locals"][0])
    seen = set()
    return [x for x in expand(leaves(e, ty, ""), lits or {}) if not (x in seen or seen.add(x))]


def leaf_type(e, ty, path):
    from leaves import _parts
    t = payload_ty(e, ty)
    for p in _parts(path)[0:] if path else []:
        if not p:
            continue
        t = strip(e, t)
        tt = e.T[t]
        if p[0] == "[":
            t = tt["t"] if tt["k"] in ("slice", "array") else tt["a"][0]
        elif tt["k"] == "tuple":
            t = tt["ts"][int(p[1:])]
        elif tt["k"] == "adt":
            if tt["n"].split("::")[-1] in ("BTreeMap", "HashMap"):
                t = tt["a"][int(p[1:])]
            else:
                t = [f[1] for f in tt["v"][0][1] if f[0] == p[1:]][0]
    return strip(e, t)


def strip(e, t):
    while True:
        tt = e.T[t]
        if tt["k"] in ("ref", "ptr"):
            t = tt["t"]
        elif tt["k"] == "adt" and tt["n"].split("::")[-1] in ("Option", "Box", "Rc", "Arc"):
            t = tt["a"][0]
        else:
            return t


def nodes(e, s, v, path):
    """raw value nodes that a leaf pattern denotes: [(concrete path, may, must)]"""
    from leaves import _parts
    parts = [p for p in _parts(path) if p] if path else []
    out = []

    def go(v, i, done, may, must):
        if v.ref and not v.kids:
            v = e.deref(s, v)
        for w in (".0!Ok.0", ".1!Some.0"):
            if v.kids and w in v.kids and not (i < len(parts) and parts[i] in v.kids):
                go(v.kids[w], i, done, may | v.may, must | v.must)
                return
        if i == len(parts):
            a, b = e.deps(s, v)
            out.append((done, may | a, must | b))
            return
        p = parts[i]
        if v.kids:
            hit = False
            if p == "[*]":
                for k, x in v.kids.items():
                    if k[0] == "[":
                        hit = True
                        go(x, i + 1, done + k, may | v.may, must | v.must)
            elif p in v.kids:
                hit = True
                go(v.kids[p], i + 1, done + p, may | v.may, must | v.must)
            if hit:
                return
        if v.path is not None or v.may or not v.kids:
            x = e.project(v, p)
            if p == "[*]" and (v.may and not v.kids and v.path is None):
                x = v
            go(x, i + 1, done + p, may | v.may, must | v.must)
    go(v, 0, "", 0, 0)
    return out


class Outputs:
    def __init__(self, e, root, lits=None):
        self.e, self.root = e, root
        self.r = r = run_root(e, root)
        self.leaves = out_leaves(e, r, lits)
        self.nodes = {l: nodes(e, r.s, r.v, l) for l in self.leaves}
        self.draws = {k: x for k, x in e.draws.items() if x["kind"] == "draw"}
        self.sites = {}
        for k, x in self.draws.items():
            self.sites.setdefault(x["site"], []).append(k)

    def sites_of(self, mask):
        """{site: greatest repetition depth} of the draws in a mask"""
        out = {}
        for n in self.e.L.of(mask):
            x = self.draws.get(n)
            if x:
                out[x["site"]] = max(out.get(x["site"], 0), x["depth"])
        return out

    def good_source(self, site, rng):
        e = self.e
        for k in self.sites[site]:
            labs = e.L.of(e.records[k])
            if any(x.startswith("source:") and x not in ("source:thread_rng", "source:OsRng") for x in labs):
                return False
            if rng not in labs and not any(x.startswith("source:") for x in labs):
                return False
        return True

    def scalar(self, leaf):
        ty = self.e.F[self.r.fn["id"]]["locals"][0]
        try:
            n = self.e.T[leaf_type(self.e, ty, leaf)].get("n", "")
        except (KeyError, IndexError):
            return False
        return n.split("::")[-1].startswith("Fp")

    def describe(self, site):
        return where(self.draws[self.sites[site][0]])


def filled_in_turn(o, need, per, bad, assign):
    """containers filled by several loops, one after the other: an element known by its position carries what its own loop draws"""
    def single(l, c):
        return c.endswith("]") and not c.endswith("[*]") and l.endswith("[*]") and any(x == c[:c.rindex("[")] + "[*]" for x, _, _ in o.nodes[l])
    cand, match, lost = assign(lambda nm: [r for r in per.get(nm, []) if not single(r[0], r[1])])
    if lost:
        return False
    site = {nm: s for s, nm in match.items()}
    for l, req in need.items():
        for c, may, must in o.nodes.get(l, ()):
            if not single(l, c):
                continue
            have = o.sites_of(must)
            loops = {}
            for nm, d in req:
                s = site[nm]
                loops.setdefault(o.draws[o.sites[s][0]]["loop"], []).append(s in have and s not in bad and have[s] >= min(d, c.count("[*]")))
            if not any(all(x) for x in loops.values()) or any(any(x) and not all(x) for x in loops.values()):
                return False
    return True


def secret_rule(o, spec):
    """-> (violations, stats)"""
    out = []
    need = {}
    for pat, names in spec["leaves"].items():
        req = []
        for n in names.split():
            nm, _, d = n.partition("*")
            req.append((nm, int(d or 0)))
        need[pat] = req
    public = spec.get("public", "").split()
    exempt = set(spec.get("exempt", "").split()) | set(public)
    for l in list(need) + sorted(exempt):
        if l not in o.leaves:
            out.append(("anchor", l, "the output %s no longer exists" % l))
    for l in o.leaves:
        if l not in need and l not in exempt:
            out.append(("unclassified", l, "the output %s is not known to be blinded or public" % l))
    rng = spec.get("rng", "rng")
    bad = {s for s in o.sites if not o.good_source(s, rng)}
    cand = {}
    names = []
    for l, req in need.items():
        for nm, d in req:
            if nm not in names:
                names.append(nm)
    obligations = 0
    per = {}
    for l, req in need.items():
        if l not in o.leaves:
            continue
        for c, may, must in o.nodes[l]:
            have = o.sites_of(must)
            for nm, d in req:
                obligations += 1
                # explicit positions are single values
                dd = d if "[*]" in c and c.count("[*]") == l.count("[*]") else min(d, c.count("[*]"))
                okk = {s for s, k in have.items() if k >= dd and s not in bad}
                per.setdefault(nm, []).append((l, c, okk, have, dd))
        if not o.nodes[l]:
            out.append(("anchor", l, "the output %s is never set" % l))
    def assign(rows):
        cand = {}
        for nm in names:
            s = None
            for l, c, okk, have, dd in rows(nm):
                s = set(okk) if s is None else s & okk
            cand[nm] = s or set()
        # injective assignment
        match = {}

        def augment(nm, seen):
            for s in sorted(cand[nm]):
                if s in seen:
                    continue
                seen.add(s)
                if s not in match or augment(match[s], seen):
                    match[s] = nm
                    return True
            return False
        return cand, match, [nm for nm in names if not augment(nm, set())]
    cand, match, lost = assign(lambda nm: per.get(nm, []))
    if lost and filled_in_turn(o, need, per, bad, assign):
        lost = []
    for nm in lost:
        # explain: which leaf breaks it
        rows = per.get(nm, [])
        culprit = None
        votes = {}
        for l, c, okk, have, dd in rows:
            for s in okk:
                votes[s] = votes.get(s, 0) + 1
        best = max(votes, key=lambda s: votes[s]) if votes else None
        for l, c, okk, have, dd in rows:
            if best is None or best not in okk:
                culprit = (l, c, okk, have, dd)
                break
        if culprit:
            l, c, okk, have, dd = culprit
            why = "does not depend on it on every path"
            if best is not None and best in have:
                why = "does not get its own draw in every iteration" if have[best] < dd else "gets it from a generator that is not the caller's"
            elif best is None and have and all(s in bad for s in have):
                why = "gets it from a generator that is not the caller's"
            out.append(("secret", l + ":" + nm, "%s has to carry the fresh secret '%s'%s, but %s"
                        % (l, nm, " (drawn at %s)" % o.describe(best) if best is not None else "", why)))
        else:
            other = [match[s] for s in cand[nm] if s in match]
            site = [s for s in cand[nm]]
            out.append(("reuse", nm, "the secrets '%s' and '%s' come from the same draw%s"
                        % (nm, "', '".join(sorted(set(other))), " at " + o.describe(site[0]) if site else "")))
    # draws that may see the same state of the caller's generator
    e = o.e
    live = 0
    for ns in o.nodes.values():
        for c, may, must in ns:
            live |= may | must
    live = [k for k in o.draws if e.L.bit(k) & live and rng in e.L.of(e.records_may[k])]
    obligations += len(live)
    seen = set()
    for a, b in forks(e, live):
        x, y = e.draws[a], e.draws[b]
        if (x["site"], y["site"]) not in seen:
            seen.add((x["site"], y["site"]))
            out.append(("fork", where(x).split(" in ")[1] + ("" if a == b else " " + where(y).split(" in ")[1]),
                        "the secrets drawn repeatedly at %s may be equal: drawing leaves the caller's generator as it was" % where(x) if a == b else
                        "the secrets drawn at %s and %s may be equal: both see the same state of the caller's generator" % (where(x), where(y))))
    # outputs without blinding must not depend on the witness
    wit = re.compile(spec["witness"]) if spec.get("witness") else None
    for l in public:
        if wit is None or l not in o.leaves:
            continue
        for c, may, must in o.nodes[l]:
            obligations += 1
            hit = sorted(x for x in o.e.L.of(may | must) if "#" not in x and wit.match(x))
            if hit:
                out.append(("leak", l, "the output %s carries no fresh secret but depends on %s" % (l, hit[0])))
    # secrets that must not leave in the clear
    if spec.get("no_scalars"):
        for l in o.leaves:
            if o.scalar(l):
                for c, may, must in o.nodes[l]:
                    obligations += 1
                    sit = o.sites_of(may | must)
                    if sit:
                        out.append(("exposed", l, "the scalar output %s depends on the secret drawn at %s" % (l, o.describe(sorted(sit)[0]))))
    return out, {"leaves": len(need), "secrets": len(names), "draw_sites": len(o.sites), "node_obligations": obligations}
