"""Fiat-Shamir and acceptance rules over one verifier root.

A verifier root is analysed once (engine): every challenge carries the set of
source leaves that must have been absorbed before it was drawn, every
comparison carries the leaves and challenges its sides must depend on, and the
accept mask says which comparisons must have succeeded when the verifier says yes.
The tables in spec_verify.py say what the scheme requires of these sets.
"""
from analyze import run_root, accept_mask, forks
from leaves import leaves, covers


def expand(ls, lits):
    """vectors the verifier reads at literal positions: one leaf per position"""
    out = []
    for l in ls:
        for p, n in lits.items():
            if l.startswith(p + "[*]"):
                out += [p + "[%d]" % i + l[len(p) + 3:] for i in range(n)]
                break
        else:
            out.append(l)
    return out


def all_leaves(e, r):
    out = []
    fn = e.F[r.fn["id"]]
    for i, p in enumerate(r.params):
        out += leaves(e, fn["locals"][i + 1], p)
    seen = set()
    return [x for x in out if not (x in seen or seen.add(x))]


def src(labels):
    return [x for x in labels if "#" not in x]


class View:
    """the results of one root, in the terms the rules use"""

    def __init__(self, e, root, lits=None):
        self.e = e
        self.r = r = run_root(e, root)
        self.root = root
        self.leaves = expand(all_leaves(e, r), lits or {})
        self.acc = accept_mask(e, r.v, r.s)
        self.acc_labels = e.L.of(self.acc)
        self.cmps = {k: c for k, c in e.cmps.items() if self.acc & c["bit"]}
        used = 0
        for c in self.cmps.values():
            used |= c["may"] | c["must"]
        used |= self.acc
        self.used = set(x for x in e.L.of(used) if x.startswith(("chal#", "draw#")))
        self.chal = {}
        for k, x in e.draws.items():
            must = src(e.L.of(e.closure_mask(e.records[k])))
            may = src(e.L.of(self.closure_may(e.records_may[k] | e.records[k])))
            cov = frozenset(l for l in self.leaves if covers(must, l))
            mcov = frozenset(l for l in self.leaves if any(l == m or m.startswith(l) or l.startswith(m) for m in may))
            self.chal[k] = {"x": x, "cov": cov, "may": mcov, "used": k in self.used}

    def closure_may(self, mask):
        e = self.e
        todo, done = mask, 0
        while todo:
            low = todo & -todo
            todo ^= low
            if done & low:
                continue
            done |= low
            n = e.L.names[low.bit_length() - 1]
            if n in e.records:
                todo |= (e.records[n] | e.records_may[n]) & ~done
        return done


def where(x):
    return "%s:%s in %s" % (x["file"], x["line"], "::".join(x["fn"].split("::")[-2:]))


def phase_of(groups, cov):
    j = -1
    for i, (n, need, may) in enumerate(groups):
        if any(l in cov for l in need):
            j = i
    return j


def parse_groups(spec):
    out = []
    for g in spec["fs"]:
        n, s = g[0], g[1].split()
        out.append((n, [x for x in s if x[0] != "~"], [x[1:] for x in s if x[0] == "~"]))
    return out


def missing_anchor(view, spec):
    """table entries that name no leaf of the current source types"""
    names = set()
    for n, need, may in parse_groups(spec):
        names |= set(need) | set(may)
    names |= set(spec.get("fs_exempt", "").split()) | set(spec.get("accept_exempt", "").split())
    return sorted(x for x in names if x not in view.leaves)


def fs_rule(view, spec):
    """-> (violations, stats)"""
    out = []
    groups = parse_groups(spec)
    classified = set(spec.get("fs_exempt", "").split())
    for n, need, may in groups:
        classified |= set(need) | set(may)
    for l in view.leaves:
        if l not in classified:
            out.append(("unclassified", l, "the value %s is neither absorbed nor listed as a final response" % l))
    count = {}
    nchal = free = 0
    for k, c in view.chal.items():
        if not c["used"]:
            continue
        nchal += 1
        if c["x"].get("weak"):
            out.append(("narrow", where(c["x"]).split(" in ")[1], "the challenge drawn at %s has only %d bits" % (where(c["x"]), c["x"]["weak"])))
        j = phase_of(groups, c["cov"])
        if j < 0:
            free += 1
            if free <= spec.get("free_draws", 0):
                continue
            out.append(("unbound", where(c["x"]).split(" in ")[1], "the challenge drawn at %s is bound to no message" % where(c["x"])))
            continue
        if "alias" not in c["x"]:
            count.setdefault(j, {}).setdefault(c["x"]["site"], k)
        for i in range(j + 1):
            for l in groups[i][1]:
                if l not in c["cov"]:
                    out.append(("fs", c["x"]["fn"].split("::")[-1] + ":" + l,
                                "the challenge drawn at %s is bound to %s but not to %s, which precedes it"
                                % (where(c["x"]), groups[j][1][0], l)))
            for l in groups[i][2]:
                if l not in c["may"]:
                    out.append(("fs", c["x"]["fn"].split("::")[-1] + ":" + l,
                                "the challenge drawn at %s is never bound to %s, which precedes it" % (where(c["x"]), l)))
    seen = set()
    for a, b in forks(view.e, [k for k, c in view.chal.items() if c["used"]]):
        x, y = view.e.draws[a], view.e.draws[b]
        if (x["site"], y["site"]) not in seen:
            seen.add((x["site"], y["site"]))
            out.append(("fork", where(x).split(" in ")[1] + ("" if a == b else " " + where(y).split(" in ")[1]),
                        "the challenges drawn repeatedly at %s are equal: drawing leaves the transcript as it was" % where(x) if a == b else
                        "the challenges drawn at %s and %s come from copies of one transcript: neither follows the other" % (where(x), where(y))))
    for j, (n, need, may) in enumerate(groups):
        got = len(count.get(j, ()))
        if got < n:
            nxt = groups[j + 1][1][:1] if j + 1 < len(groups) else []
            lack = [l for l in need if not any(l in c["cov"] for c in view.chal.values())]
            out.append(("count", "group%d:%s" % (j, need[0]),
                        "%d challenge(s) drawn after %s%s, the protocol needs %d%s"
                        % (got, " ".join(need[:3]), " and before " + nxt[0] if nxt else "", n,
                           "; never absorbed: " + " ".join(lack) if lack else "")))
        elif n == 0 and got:
            k = min(count[j].values())
            out.append(("early", "group%d:%s" % (j, need[0]), "the challenge drawn at %s comes before %s is bound"
                        % (where(view.chal[k]["x"]), groups[j + 1][1][0] if j + 1 < len(groups) else "?")))
    more, lists = split_rule(view, spec)
    out += more
    return out, {"lists": lists, "challenges": nchal, "groups": len(groups), "absorbed_leaves": sum(len(g[1]) + len(g[2]) for g in groups)}


def chal_phase(view, spec):
    groups = parse_groups(spec)
    return {k: phase_of(groups, c["cov"]) for k, c in view.chal.items()}


def sets_of(view, node, ph):
    e = view.e
    must = e.L.of(node["must"])
    lab = [x for x in must if not x.startswith(("cmp#", "chal#", "draw#", "source:", "cnt#", "seq#"))]
    sites = {}
    for x in must:
        if x in ph:
            sites.setdefault(ph[x], set()).add(e.draws[x]["site"])
    ch = {p: len(s) for p, s in sites.items()}
    may = [x for x in e.L.of(node["may"]) if not x.startswith(("cmp#", "chal#", "draw#", "source:", "seq#"))]
    return lab, ch, may


def accept_rule(view, spec):
    out = []
    exempt = set(spec.get("accept_exempt", "").split())
    acc = src(view.acc_labels)
    nleaf = 0
    maylab = 0
    for c in view.cmps.values():
        maylab |= c["may"] | c["must"]
    maysrc = src(view.e.L.of(maylab))
    mayonly = set(spec.get("accept_may", "").split())
    for l in view.leaves:
        if l in exempt:
            continue
        nleaf += 1
        if l in mayonly:
            if not any(l == m or m.startswith(l) or l.startswith(m) for m in maysrc):
                out.append(("leaf", l, "no comparison that guards acceptance depends on %s" % l))
            continue
        if not covers(acc, l):
            out.append(("leaf", l, "acceptance does not depend on %s on every path" % l))
    out += trips_rule(view, spec)
    ph = chal_phase(view, spec) if spec.get("fs") else {}
    sitemay = {}
    for k, c in view.cmps.items():
        sitemay[c["site"]] = sitemay.get(c["site"], 0) | c["may"] | c["must"]
    nodes = []
    for k, c in view.cmps.items():
        lab, ch, _ = sets_of(view, c, ph)
        nodes.append((k, c, lab, ch, src(view.e.L.of(sitemay[c["site"]]))))
    req = []
    for eq in spec["eqs"]:
        for inst in eq["inst"]:
            req.append((eq, inst))
    adj = []
    for eq, inst in req:
        a = []
        for i, (k, c, lab, ch, may) in enumerate(nodes):
            if ok(inst, eq, lab, ch, may):
                a.append(i)
        adj.append(a)
    match = {}

    def augment(i, seen):
        for n in adj[i]:
            if n in seen:
                continue
            seen.add(n)
            if n not in match or augment(match[n], seen):
                match[n] = i
                return True
        return False
    for i in range(len(req)):
        if not augment(i, set()):
            eq, inst = req[i]
            # nearest comparison, for the report
            need = inst["labels"]
            best = None
            for k, c, lab, ch, may in nodes:
                miss = [x for x in need if not has(lab, x)]
                if best is None or len(miss) < best[0]:
                    best = (len(miss), c, miss, ch)
            near = ""
            if best is not None and best[0] < len(need):
                chs = [(p, n) for p, n in inst["ch"].items() if best[3].get(p, 0) < n]
                near = "; nearest comparison at %s lacks %s" % (where(best[1]), " ".join(best[2]) or
                                                                ("challenges of group %s" % [p for p, n in chs] if chs else "optional inputs or is needed by another equation"))
            out.append(("equation", eq["name"], "no comparison that guards acceptance implements '%s' (%s)%s"
                        % (eq["name"], " ".join(need)[:300], near)))
    return out, {"leaves": nleaf, "comparisons": len(nodes), "equations": len(req)}


def known_lengths(view):
    """lengths of the proof's lists that acceptance compares with something the verifier knows"""
    e = view.e
    known = set()
    sides = [[[l for l in e.L.of(x) if l.startswith("proof")] for x in c["sides"]] for c in view.cmps.values()]
    grew = True
    while grew:
        grew = False
        for s in sides:
            for x in s:
                for l in x:
                    if l not in known and l.endswith("#len") and any(y is not x and known.issuperset(y) for y in s):
                        known.add(l)
                        grew = True
    return known


def split_rule(view, spec):
    """the lists a proof is made of: a message moved from one list to the next would be sent after the challenges it has to precede"""
    known = known_lengths(view)
    exempt = set(spec.get("len_exempt", "").split())
    out, seen = [], set()
    for n, need, may in parse_groups(spec):
        for l in need + may:
            while l.startswith("proof") and "[*]" in l:
                l = l[:l.rindex("[*]")]
                if l not in seen and l not in exempt and l + ".#len" not in known:
                    out.append(("length", l, "nothing compares the number of messages in %s with a number the verifier knows" % l))
                seen.add(l)
    return out, len(seen - exempt)


def trips_rule(view, spec):
    """a check in a loop that runs as often as the prover likes checks nothing, unless that count is itself checked"""
    e = view.e
    exempt = set(spec.get("trip_exempt", "").split())
    free = {}
    for c in view.cmps.values():
        for l in e.L.of(c["trip"]):
            if l.endswith("#len") and l.startswith("proof") and l not in exempt:
                free.setdefault(l, c)
    known = known_lengths(view) if free else ()
    return [("trips", c["fn"].split("::")[-1] + ":" + l,
             "the check at %s runs as often as the length of %s says, which nothing compares with a count the verifier knows" % (where(c), l[:-5]))
            for l, c in sorted(free.items()) if l not in known]


def has(lab, x):
    if x in lab:
        return True
    if x.endswith("#len"):
        return False
    return covers([l for l in lab if "#" not in l], x)


def ok(inst, eq, lab, ch, may):
    if any(not has(lab, x) for x in inst["labels"]):
        return False
    for p, n in inst["ch"].items():
        if ch.get(p, 0) < n:
            return False
    return all(has(may, x) or any(m.startswith(x) for m in may) for x in inst["may"])
