"""What the command line tools hand to the libraries, write to files and print.

The values that come in from outside are named: the command line (by position), the setup
files, the proof file (by key).  The results of proving, verifying and hashing are named as
well, so that what is derived from them can be told from what is not.
"""
from analyze import run_root
from hooks import Hook
from models import ok

SINKS = ("std::io::_print", "std::io::_eprint", "std::fs::write", "serde_json::to_writer", "serde_json::to_writer_pretty", "Write::write_all", "Write::write", "Write::write_fmt",
         "std::fs::copy", "std::fs::rename")
SHOW = ("::new_display", "::new_debug", "::to_string")
# arguments of a circuit that anybody may see
PUBLIC = ("circuit[2]",)     # z of the mini circuit; the image of the hash circuit is a digest


class Tool(Hook):
    def __init__(self, tool):
        self.tool = tool
        self.found = {}
        self.stats = {"inputs": set(), "outputs": set(), "verifiers": set()}
        self.shown = set()
        self.written = set()

    def at(self, c):
        return "%s:%d" % (c.fn["file"].split("/repo/")[-1], c.line)

    def own(self, c):
        return "::cli_%s::" % self.tool in c.fn["path"]

    def callee(self, e, c):
        return e.F[c.f["fn"]]["path"] if "fn" in c.f else c.name or ""

    def labels(self, e, st, v):
        return e.L.of(e.deps(st, v)[0])

    def source(self, e, c, name):
        self.stats["inputs"].add((c.fid, c.bb))
        return e.sym(name)

    def on_ret(self, e, st, c, v):
        n = self.callee(e, c)
        if "fn" in c.f:
            last = n.rsplit("::", 1)[-1]
            if n.startswith("zkp_") and self.own(c) and last in ("create_random_proof", "create_proof"):
                return ok(e.sym("proof"))
            if n.startswith("zkp_") and self.own(c) and last == "verify_proof":
                return e.sym("verdict:" + n.rsplit("::", 1)[0])
            if n.startswith("zkp_gadgets::hashes::") and self.own(c):
                return e.sym("digest")
            return None
        if n in ("std::fs::read_to_string", "std::fs::read", "std::fs::File::open"):
            # the verifier's proof file is the one named on the command line
            named = self.tool == "verify" and any(x.startswith(("arg#", "args")) for x in self.labels(e, st, c.args[0]))
            return self.source(e, c, "file" if named else "setup")
        if n.endswith(("Result::<T, E>::unwrap_or", "Result::<T, E>::unwrap_or_default")) and c.args[0].path and c.args[0].path.startswith("verdict:"):
            if len(c.args) == 1 or c.args[1].const is False:
                return e.sym(c.args[0].path)
        if n.startswith("std::env::args"):
            return self.source(e, c, "args")
        if n.endswith("Index::index") and self.own(c):
            ls = set(self.labels(e, st, c.args[0]))
            k = c.args[1].const
            if ls & {"args", "args[*]"}:
                return e.sym("arg#%d" % k) if isinstance(k, int) and not isinstance(k, bool) else e.sym("circuit")
            if "file" in ls and isinstance(k, str):
                return e.sym("file." + k)
        return None

    def on_switch(self, e, st, uid, fid, fn, bb, t, v):
        if v.path and v.path.startswith("verdict:"):
            self.shown.add(v.path)

    def on_call(self, e, st, c):
        if not self.own(c):
            return
        n = self.callee(e, c)
        if n.startswith("zkp_") and n.endswith("::verify_proof"):
            self.verify(e, st, c, n)
        if "fn" not in c.f and n.endswith(SHOW):
            v = e.deref(st, c.args[0])
            for x in self.labels(e, st, c.args[0]):
                if x.startswith("verdict:"):
                    self.shown.add(x)
                    if not (v.path and v.path.startswith("verdict:")):
                        self.found["verdict:%s" % x[8:]] = "%s: what is shown is not the result of the verifier itself" % self.at(c)
        if "fn" not in c.f and n.endswith(SINKS):
            self.stats["outputs"].add((c.fid, c.bb))
            if not n.startswith("std::io::_"):
                self.written |= set(self.labels(e, st, c.args[-1]))
            for a in c.args:
                for x in self.labels(e, st, a):
                    if x.split(".")[0].split("[")[0] in ("args", "circuit") and not self.public(x):
                        self.found["secret:%s" % x] = "%s: %s writes or prints what depends on %s of the circuit's arguments" % (self.at(c), n.rsplit("::", 1)[-1], x)

    def public(self, x):
        return x in PUBLIC

    def verify(self, e, st, c, n):
        fn = e.F[c.f["fn"]]
        self.stats["verifiers"].add(n)
        names = {x[1][0]: x[0] for x in fn["names"] if x[2] and len(x[1]) == 1}
        for i, a in enumerate(c.args):
            t = e.T[e.strip_ref(c.aty[i])]
            may, must = e.deps(st, a)
            may, must = set(e.L.of(may)), set(e.L.of(must))
            name = names.get(i + 1, "argument %d" % i)
            at = "%s: %s of %s" % (self.at(c), name, n)
            key = "%s:%s" % (n, name)
            if t["k"] == "adt" and t["n"].endswith("Proof"):
                if not any(x.startswith("file") for x in must):
                    self.found["proof:" + key] = at + " is not the proof of the file"
            elif t["k"] in ("slice", "array") or t["k"] == "adt" and t["n"].endswith("::Vec"):
                if not must or not all(x.startswith("file.params") for x in may):
                    self.found["inputs:" + key] = at + " are not the public inputs of the file"
            else:
                bad = {x for x in may if x.startswith(("file", "args", "arg#"))}
                if bad:
                    self.found["key:" + key] = at + " is taken from the proof file (%s)" % ", ".join(sorted(bad))


def cli_rule(e, tool):
    h = Tool(tool)
    run_root(e, "cli_%s::main" % tool, hooks=[h])
    if tool == "verify":
        for n in h.stats["verifiers"]:
            if not any(x.startswith("verdict:" + n.rsplit("::", 1)[0]) for x in h.shown):
                h.found["silent:" + n] = "the result of %s is not shown" % n
    if tool == "prove":
        for x, what in (("proof", "the proof"), ("circuit[2]", "the public input of the mini circuit"), ("digest", "the image of the hash circuit")):
            if not any(y == x or y.startswith((x + ".", x + "[")) for y in h.written):
                h.found["file:" + x] = "%s is not written to the proof file" % what
    return h
