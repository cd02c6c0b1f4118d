"""The properties and the rules that decide them."""
import os

import build
from absint import Engine, load_facts
from analyze import run_root
from hooks import Hook
from gadget import GEngine
import rules_abort as RA
import rules_codec as RC
import rules_cs as RB
import rules_cli as RL
import rules_consts as RK
import rules_effects as RE
import rules_gadget as RG
import rules_secret as RS
import spec_gadget as SG
import rules_verify as RV
from spec_secret import SECRET
from spec_verify import SPEC

ENGINE_TRUST = [
    "rustc's MIR of the current tree, exported for concrete instantiations (Bls12-381, curve25519)",
    "models of external crates: arithmetic, pairings, hashes, merlin, polynomial commitments and collections propagate their arguments' labels",
    "loops run at least twice where the protocol iterates, as in every non-trivial instance",
]


class Res:
    def __init__(self, rule):
        self.rule = rule
        self.violations = []
        self.counts = {}
        self.samples = []
        self.obligations = 0
        self.assumptions = list(ENGINE_TRUST)

    def add(self, key, msg):
        self.violations.append((key, msg))

    def count(self, **kw):
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self._e = {}
        self._facts = {}

    def facts(self, parallel=False):
        if parallel not in self._facts:
            self._facts[parallel] = load_facts(build.ensure(parallel))
        return self._facts[parallel]

    def engine(self, parallel=False):
        if parallel not in self._e:
            self._e[parallel] = Engine(self.facts(parallel))
        return self._e[parallel]

    def analysed(self):
        """what the label analysis went through in this run"""
        return {"functions_analysed": sum(len(e.visited_fns) for e in self._e.values()),
                "mir_statements_interpreted": sum(e.nstmts for e in self._e.values())} if self._e else {}

    def configs(self):
        if os.environ.get("VERIF_ONLYSEQ") == "1":      # development only
            return [(False, "sequential")]
        return [(False, "sequential"), (True, "parallel")]


PROPS = {}


def prop(pid):
    def f(fn):
        PROPS[pid] = fn
        return fn
    return f


def _verify_rule(ctx, keys, which, rule):
    res = Res(rule)
    for par, cfg in ctx.configs():
        e = ctx.engine(par)
        for key in keys:
            spec = SPEC[key]
            v = RV.View(e, spec["root"], spec.get("lits"))
            for a in RV.missing_anchor(v, spec):
                res.add("anchor:%s:%s" % (key, a), "%s: the value %s no longer exists" % (key, a))
            fn = RV.fs_rule if which == "fs" else RV.accept_rule
            out, stats = fn(v, spec)
            for k in stats:
                res.count(**{k: stats[k]})
            res.count(roots=1)
            res.obligations += sum(stats.values())
            for kind, k, msg in out:
                res.add("%s:%s:%s" % (key, kind, k), "[%s, %s] %s" % (key, cfg, msg))
            if which == "fs":
                for k, c in list(v.chal.items())[:3]:
                    res.samples.append("%s: challenge at %s bound to %d values" % (key, RV.where(c["x"]), len(c["cov"])))
            else:
                for k, c in list(v.cmps.items())[:3]:
                    res.samples.append("%s: comparison at %s over %s" % (key, RV.where(c), " ".join(x for x in e.L.of(c["must"]) if not x.startswith(("cmp#", "source:")))[:200]))
    return res


FS_RULE = ("forward label analysis over the MIR of the verifier: a challenge must depend, on every path, on all messages of its own and "
           "every earlier protocol group, and each group must be followed by its number of challenges")
ACC_RULE = ("forward label analysis over the MIR of the verifier: on every path that returns acceptance, every value of the statement, the key and the "
            "proof has to have entered a comparison that succeeded, and each verification equation of the scheme has to be one of those comparisons")


def fs(pid, *keys):
    PROPS[pid] = lambda ctx: _verify_rule(ctx, keys, "fs", FS_RULE)


def acc(pid, *keys):
    PROPS[pid] = lambda ctx: _verify_rule(ctx, keys, "acc", ACC_RULE)


acc("S01", "groth16_verify")
acc("S02", "bulletproofs_verify")
acc("S03", "marlin_verify")
acc("S04", "plonk_verify")
acc("S05", "asvc_verify_pos", "asvc_verify_upk")
acc("S06", "spartan_nizk_verify", "spartan_snark_verify")
acc("S07", "libra_verify", "libra_zk_verify")
acc("S08", "hyrax_verify")
fs("F01", "bulletproofs_verify")
fs("F02", "marlin_verify")
fs("F03", "plonk_verify")
fs("F04", "spartan_nizk_verify", "spartan_snark_verify")
fs("F05", "libra_verify", "libra_zk_verify")
fs("F06", "hyrax_verify")


SECRET_RULE = ("forward label analysis over the MIR of the prover or setup: there must be an assignment of the scheme's secrets to distinct draws "
               "from the caller's generator such that every output depends on the draws of all its secrets on every path, one draw per "
               "iteration where the output is a list; outputs without a secret must not depend on the witness, and setup outputs that "
               "are scalars must not depend on any draw")


def _secret_rule(ctx, keys):
    res = Res(SECRET_RULE)
    for par, cfg in ctx.configs():
        e = ctx.engine(par)
        for key in keys:
            spec = SECRET[key]
            o = RS.Outputs(e, spec["root"], spec.get("lits"))
            out, stats = RS.secret_rule(o, spec)
            res.count(roots=1, **stats)
            res.obligations += stats["node_obligations"] + stats["secrets"]
            for kind, k, msg in out:
                res.add("%s:%s:%s" % (key, kind, k), "[%s, %s] %s" % (key, cfg, msg))
            for s in list(o.sites)[:4]:
                res.samples.append("%s: draw at %s" % (key, o.describe(s)))
    return res


def secret(pid, *keys):
    PROPS[pid] = lambda ctx: _secret_rule(ctx, keys)


secret("Z01", "groth16_prove")
secret("Z02", "bulletproofs_prove")
secret("Z03", "spartan_nizk_prove", "spartan_snark_prove")
secret("Z04", "libra_zk_prove")
secret("Z05", "hyrax_prove")
secret("K01", "groth16_setup")
secret("K02", "marlin_setup", "asvc_keygen")
secret("K03", "libra_setup", "hyrax_setup", "spartan_nizk_setup", "spartan_snark_setup")


# ------------------------------------------------------------ gadgets
GADGET_TRUST = [
    "rustc's MIR of the current tree, exported for Bls12-381",
    "models of the scalar field, of linear combinations and of collections; a field constant other than a small integer is an unknown non-zero value",
    "loops and lists have at least one element",
]


def _gadget(ctx):
    if not hasattr(ctx, "_g"):
        ctx._g = GEngine(ctx.facts(False))
    return ctx._g


def _merge(res, stats):
    for k, v in stats.items():
        if isinstance(v, list):
            res.counts[k] = res.counts.get(k, []) + v
        else:
            res.count(**{k: v})


def _systems(res, e, specs):
    for spec in specs:
        out, stats, samples = RG.system_rule(e, spec)
        _merge(res, stats)
        res.count(gadgets=1)
        res.obligations += stats["variables"] + stats["constraints"] + len(spec.get("out", ())) + len(spec.get("assert", ()))
        for k, msg in out:
            res.add("%s:%s" % (spec["root"][5:], k), msg)
        res.samples += samples[:1]
    return res


def _gadget_res(rule):
    res = Res(rule)
    res.assumptions = list(GADGET_TRUST)
    return res


TRUTH_RULE = ("abstract interpretation of the gadget over symbolic variables collects its rank-1 constraints with their coefficients; for every kind "
              "of operand and every assignment of the operands the constraints have to force exactly the function's value on the output")
SYS_RULE = ("abstract interpretation of the gadget over symbolic variables collects its allocations and constraints with their linear forms; a "
            "determination analysis over them must leave open only the variables the prover is meant to choose, every allocated bit must be "
            "constrained to be one, outputs must depend on every input through constraints, and the statement's equation must be a constraint that is left over")
SHAPE_RULE = ("abstract interpretation of the gadget with control dependence: no allocation and no constraint may be control dependent on a value, "
              "and no coefficient may depend on one")
PACK_RULE = ("abstract interpretation of MultiEq with exact coefficients for given bit widths: each equality reaches a constraint on every path, with the same "
             "factor on both sides, and equalities in one constraint occupy disjoint bits within the field's capacity")


@prop("C01")
def c01(ctx):
    res = _gadget_res(TRUTH_RULE)
    e = _gadget(ctx)
    for spec in SG.TRUTH:
        out, stats = RG.truth_rule(e, spec)
        _merge(res, stats)
        res.obligations += stats["assignments_evaluated"]
        for combo, msg in out:
            res.add("%s:%s" % (spec["root"][5:], "/".join(combo)), msg)
        res.samples.append("%s: %d operand combinations, %d assignments" % (spec["root"][5:], stats["operand_combinations"], stats["assignments_evaluated"]))
    return _systems(res, e, SG.BITS)


@prop("C02")
def c02(ctx):
    return _systems(_gadget_res(SYS_RULE), _gadget(ctx), SG.PINNED)


@prop("C03")
def c03(ctx):
    return _systems(_gadget_res(SYS_RULE), _gadget(ctx), SG.HASHES)


@prop("C04")
def c04(ctx):
    return _systems(_gadget_res(SYS_RULE), _gadget(ctx), SG.STATEMENTS)


@prop("C05")
def c05(ctx):
    res = _gadget_res(SHAPE_RULE)
    e = _gadget(ctx)
    for spec in [t for t in SG.TRUTH if t["kinds"] == ("bit",)] + SG.BITS + SG.PINNED + SG.HASHES + SG.STATEMENTS:
        out, stats = RG.shape_rule(e, spec, SG.SHAPE_EXCEPT.get(spec["root"][5:], ()), SG.COEFFICIENTS.get(spec["root"][5:].split("_")[0], ()))
        _merge(res, stats)
        res.count(gadgets=1)
        res.obligations += stats["allocations_and_constraints"]
        for k, msg in out:
            res.add("%s:%s" % (spec["root"][5:], k), msg)
        res.samples.append("%s: %d allocations and constraints" % (spec["root"][5:], stats["allocations_and_constraints"]))
    return res


@prop("C06")
def c06(ctx):
    res = _gadget_res(PACK_RULE)
    e = _gadget(ctx)
    for bits in SG.PACKING:
        out, stats = RG.packing_rule(e, "root_multieq", bits, SG.three, 254)
        _merge(res, stats)
        res.obligations += 3
        for k, msg in out:
            res.add("multieq:%s" % k, msg)
        res.samples.append("three equalities of %d, %d and %d bits" % bits)
    return res


# ------------------------------------------------------------ effects
class _Sources(Hook):
    def __init__(self):
        self.found = []

    def on_source(self, e, st, c, name):
        if name == "constant_seed":
            self.found.append("%s:%d in %s" % (c.fn["file"].split("/repo/")[-1], c.line, c.fn["path"]))


@prop("R01")
def r01(ctx):
    res = Res("every function of the library crates is read from its generic MIR: no callee, type or static may reach the operating system's "
              "randomness, clock, environment, files, threads or shared mutable state; and in the label analysis of every prover, verifier and setup "
              "no generator may be seeded with a constant")
    res.assumptions = [ENGINE_TRUST[0], "hash maps are not listed: their iteration order is not followed"]
    for par, cfg in ctx.configs():
        out, stats = RE.ambient_rule(ctx.facts(par))
        _merge(res, stats)
        res.obligations += stats["functions"]
        for k, msg in out:
            res.add("ambient:" + k, "[%s] %s" % (cfg, msg))
        e = ctx.engine(par)
        h = _Sources()
        for n in sorted(e.roots):
            if "proving::" in n:
                run_root(e, n.split("::")[-1], hooks=[h])
                res.count(roots=1)
                res.obligations += 1
        for w in sorted(set(h.found)):
            res.add("seed:" + w.split(" in ")[-1], "[%s] a generator is seeded with a constant at %s" % (cfg, w))
    return res


@prop("M01")
def m01(ctx):
    res = Res("every function of the library crates is read from its generic MIR: no call of an unsafe function and no raw mutable pointer, other than "
              "those the standard library's own macros expand to")
    res.assumptions = ENGINE_TRUST[:1] + ["the standard library and the arithmetic crates are memory safe", "the compiler's borrow and type checks"]
    for par, cfg in ctx.configs():
        out, stats = RE.unsafe_rule(ctx.facts(par))
        _merge(res, stats)
        res.obligations += stats["functions"]
        for k, msg in out:
            res.add("unsafe:" + k, "[%s] %s" % (cfg, msg))
    return res


# ------------------------------------------------------------ aborts
ABORTS = {
    "V01": ["groth16_verify", "bulletproofs_verify", "marlin_verify", "plonk_verify", "asvc_verify_pos", "asvc_verify_upk"],
    "V02": ["spartan_nizk_verify", "spartan_snark_verify"],
    "V03": ["libra_verify", "libra_zk_verify", "hyrax_verify"],
}


def _aborts(ctx, roots):
    res = Res("forward label analysis over the MIR of the verifier and of everything it calls: no branch that can only end in a panic, no unwrapped option "
              "or result, no index, slice, subtraction, shift or power of a machine word may depend on what the adversary sends, unless a comparison "
              "made on every path to it ties the length concerned to one the verifier knows or to the other length used there")
    res.assumptions += ["the arithmetic, pairing, transcript and polynomial commitment crates do not panic on well-formed elements",
                        "additions and multiplications of machine words do not overflow, memory is not exhausted and the values fit their types (arkworks deserialization)"]
    for par, cfg in ctx.configs():
        e = ctx.engine(par)
        for r in roots:
            h = RA.abort_rule(e, "root_" + r)
            res.count(roots=1)
            for k, v in h.sites.items():
                res.count(**{k: len(v)})
                res.obligations += len(v)
            for (file, line, path, what), ls in sorted(h.found.items()):
                what = what.split("::")[-1]
                res.add("%s:%s:%s:%s" % (r, path.split("::")[-1], what, sorted(ls)[0]),
                        "[%s, %s] %s:%d in %s: %s depends on %s, which nothing on the way has checked" % (r, cfg, file, line, path, what, ", ".join(sorted(ls)[:3])))
            res.samples.append("%s: %s" % (r, ", ".join("%d %s" % (len(v), k) for k, v in h.sites.items())))
    return res


@prop("V01")
def v01(ctx):
    return _aborts(ctx, ABORTS["V01"])


@prop("V02")
def v02(ctx):
    return _aborts(ctx, ABORTS["V02"])


@prop("V03")
def v03(ctx):
    return _aborts(ctx, ABORTS["V03"])


# ------------------------------------------------------------ constraint systems
@prop("B01")
def b01(ctx):
    res = Res("a circuit with a variable of each kind and a constraint of unknown length is handed to every constraint system of the provers and key generators, and "
              "gates to the composer of PLONK: when a method returns, each of the parts it was given (coefficients and variables of the three linear combinations, "
              "selectors, wires, values) is in a place of its own in the constraint system; in the functions called, no path to a regular return leads around the calls "
              "that store a part, no turn of a loop over the terms ends without one, no such loop ends early, and nothing that drops items is applied to what holds them")
    res.assumptions = [ENGINE_TRUST[0]]
    for par, cfg in ctx.configs():
        e = ctx.engine(par)
        for key in RB.CS:
            h = RB.cs_rule(e, key)
            n = h.stats["parts"] + len(h.stats["stores"]) + len(h.stats["loops"])
            res.obligations += n
            res.count(systems=1, methods=len(h.stats["methods"]), parts=h.stats["parts"], stores=len(h.stats["stores"]), loops=len(h.stats["loops"]))
            for k, m in sorted(h.found.items()):
                res.add("%s:%s" % (key, k), "[%s, %s] %s" % (key, cfg, m))
            res.samples.append("%s: %s" % (key, ", ".join(sorted(x.rsplit("::", 1)[-1] for x in h.stats["methods"]))))
    return res


# ------------------------------------------------------------ command line
@prop("L01")
def l01(ctx):
    res = Res("the binaries' main functions, compiled from their sources, with the command line, the setup files and the proof file (by key) named as they come in: "
              "no argument of a verifier but the proof and the public inputs depends on the proof file, the proof and the public inputs come from their keys of it, what is shown is "
              "the verifier's own result, and nothing written or printed by the prover depends on a private argument of the circuit except through the proof or the hash")
    res.assumptions = [ENGINE_TRUST[0], "the setup files are those that the setup wrote", "of the circuits' arguments, z of the mini circuit is public and the others are not"]
    e = ctx.engine(False)
    for tool in ("setup", "prove", "verify"):
        h = RL.cli_rule(e, tool)
        res.count(tools=1, inputs=len(h.stats["inputs"]), outputs=len(h.stats["outputs"]), verifiers=len(h.stats["verifiers"]))
        res.obligations += sum(len(x) for x in h.stats.values())
        for k, m in sorted(h.found.items()):
            res.add(k, m)
        res.samples.append("%s: %s" % (tool, ", ".join("%d %s" % (len(v), k) for k, v in h.stats.items())))
    return res


# ------------------------------------------------------------ bytes
@prop("E01")
def e01(ctx):
    res = Res("for every type that users store or send, and every mode: abstract interpretation of the writing and of the reading function gives the sequence of "
              "parts (type and encoding) on all paths; the two sequences agree, every part read is returned at the place it was taken from, every place is written, "
              "tags select the variant they were written for and no other tag is read, and checked modes read no part unchecked")
    res.assumptions = [ENGINE_TRUST[0], "the encodings of the arithmetic crates, of integers, strings and lists can be read back", "writing to memory does not fail"]
    e = RC.Codec(ctx.facts(False))
    ctx._e["codec"] = e
    for n in sorted(x.split("::")[-2] for x in e.roots if x.endswith("::root_put") and "codec::" in x):
        res.count(types=1)
        for mode in RC.MODES:
            out, stats = RC.codec_rule(e, n, mode)
            _merge(res, stats)
            res.obligations += sum(stats.values())
            for k, msg in out:
                res.add("%s%s:%s" % (n, mode, k), "%s, %s: %s" % (n, mode[1:] or "compressed", msg))
        res.samples.append("%s: %d parts" % (n, len(e.cseq)))
    return res


# ------------------------------------------------------------ constants
def _consts(ctx, rule, parts):
    res = Res(rule)
    res.assumptions = ["rustc's constant evaluation of the current tree"]
    for name, fn in parts:
        out, stats = fn(ctx.facts(False))
        res.obligations += stats.pop("obligations")
        _merge(res, stats)
        for k, msg in out:
            res.add("%s:%s" % (name, k), msg)
        res.samples.append("%s: %s" % (name, ", ".join("%d %s" % (v, k) for k, v in stats.items())))
    return res


@prop("P01")
def p01(ctx):
    return _consts(ctx, "the constants of the scalar field of Curve25519, as rustc evaluates them, against what follows from the order of the Ristretto group",
                   [("curve25519", RK.field_rule)])


@prop("P02")
def p02(ctx):
    return _consts(ctx, "the parameter tables and exponents in the MIR of the sponge hashes, as rustc evaluates them: every minor of the mixing matrix, the greatest "
                        "common divisor of each exponent with the group order, distinct and reduced round constants",
                   [("poseidon", lambda f: RK.sponge_rule(f, "hashes::poseidon", False)), ("rescue", lambda f: RK.sponge_rule(f, "hashes::rescue", True))])
