"""Gadgets of zkp-gadgets and of the command line tool: what they promise about the constraints they emit."""
from absint import kconst, mk
from rules_gadget import wire, wires, word, words

ANY = ("is", "not", "true", "false")


def T(root, params, fun, kinds=ANY, kind="out", over=None):
    return dict(root="root_" + root, params=params, kinds=kinds, fun=fun, kind=kind, over=over)


def ch(a, b, c):
    return (a & b) ^ ((1 - a) & c)


def maj(a, b, c):
    return (a & b) ^ (a & c) ^ (b & c)


# the function a gadget computes, for every kind of operand
TRUTH = [
    T("bit_xor", ("a", "b"), lambda a, b: a ^ b, ("bit",)),
    T("bit_and", ("a", "b"), lambda a, b: a & b, ("bit",)),
    T("bit_and_not", ("a", "b"), lambda a, b: a & (1 - b), ("bit",)),
    T("bit_nor", ("a", "b"), lambda a, b: (1 - a) & (1 - b), ("bit",)),
    T("bool_not", ("a",), lambda a: 1 - a),
    T("bool_lc", ("a",), lambda a: 3 * a, kind="lc", over={"coeff": lambda e: mk(it=("coef", 3))}),
    T("bool_xor", ("a", "b"), lambda a, b: a ^ b),
    T("bool_and", ("a", "b"), lambda a, b: a & b),
    T("bool_ch", ("a", "b", "c"), ch),
    T("bool_maj", ("a", "b", "c"), maj),
    T("bool_equal", ("a", "b"), lambda a, b: int(a == b), kind="assert"),
]


def S(root, over=None, free=0, **kw):
    return dict({"root": "root_" + root, "over": over, "free": free, "live": 1}, **kw)


def sha_out(p):
    """output of the sha256 gadget: a list of wires"""
    return lambda e: mk(kids={
        ".value": mk(kids={".1!Some.0": mk(kids={"[*]": wire(e, p + ".value[*]")})}, vg={0: 0, 1: 0}),
        ".variables": mk(kids={"[*]": e.sym(p + ".variables[*].variable")})})


# free: variables the prover may choose; everything else the constraints have to determine
# live: None of the other variables may be dead, or one more than the number that may (0: any)
# shared: how many allocations may be used only as the elements of a container together with others
# out: what the returned variables depend on; assert: values that have to meet in one equation that defines nothing
BITS = [
    S("bit_alloc", free=1, bits=True, out=["free#0"]),
    S("bit_alloc_input", bits=True, out=["input#0"]),
    S("bit_alloc_conditionally", free=1, out=["free#0"], **{"assert": [["free#0", "a.variable"]]}),
    S("u64_bits", free=1, bits=True, out=["free#0"]),
    S("field_bools", free=1, bits=True, out=["free#0"]),
    S("field_bits", free=1, bits=True, out=["free#0"]),
    S("u32_alloc", free=1, bits=True, out=["free#0"]),
]
PINNED = [
    S("fr_alloc", free=1, out=["free#0"]),
    S("fr_inputize", **{"assert": [["input#0", "a.variable"]]}),
    S("fr_nonzero", live=2),
    S("lookup1_x", {"bits": lambda e: wire(e, "bits")}, out=["bits.variable", "table~"]),
    S("lookup2_x", {"bits": wires("bits")}, out=["bits[*].variable", "table~"]),
    S("lookup2_xy", {"bits": wires("bits")}, out=["bits[*].variable", "table~"]),
    S("lookup3_x", {"bits": wires("bits")}, out=["bits[*].variable", "table~"]),
    S("lookup3_xy", {"bits": wires("bits")}, out=["bits[*].variable", "table~"]),
    S("u32_xor", {"a": word("a"), "b": word("b")}, out=["a.bits[*].variable", "b.bits[*].variable"]),
    S("u32_ch", {"a": word("a"), "b": word("b"), "c": word("c")}, out=["a.bits[*].variable", "b.bits[*].variable", "c.bits[*].variable"]),
    S("u32_maj", {"a": word("a"), "b": word("b"), "c": word("c")}, out=["a.bits[*].variable", "b.bits[*].variable", "c.bits[*].variable"]),
    S("u32_addmany", {"operands": words("operands")}, bits=True, out=["operands[*].bits[*].variable"]),
]
HASHES = [
    S("hash_mimc", out=["left.variable", "right.variable"]),
    S("hash_poseidon", out=["left.variable", "right.variable"]),
    S("hash_rescue", out=["left.variable", "right.variable"]),
    S("hash_sha256", {"left": sha_out("left"), "right": sha_out("right")}, out=["sha256[*].variable"], bits=True,
      opaque={"zkp_gadgets::hashes::sha256::sha256": "sha256"}, box=["left.value[*].variable", "right.value[*].variable"]),
    S("mimc", free=2, live=0),
    S("poseidon", free=2, **{"assert": [["free#0", "free#1", "input#0"]]}),
    S("rescue", free=2, **{"assert": [["free#0", "free#1", "input#0"]]}),
]
STATEMENTS = [
    S("rangeproof", free=2, live=2, shared=1, linear=[{"input#0": 1, "free#1": 1, "free#0": -1}], **{"assert": [["free#0", "free#1", "input#0"]]}),
    S("merkle_mimc", free=2, **{"assert": [["leaf.variable", "lemmas[*].variable", "root.variable"]]}),
    S("cli_mini", free=2, **{"assert": [["free#0", "free#1", "input#0"]]}),
    S("cli_hash", free=2, **{"assert": [["free#0", "free#1", "input#0"]]}),
]
# a witness must not decide which constraints are emitted; the exceptions fold constants and are decided above
SHAPE_EXCEPT = {
    # all operands constant: the sum is a constant as well; only constants fold, which is part of the circuit
    "u32_addmany": ("operands[*].bits[*].variable", "operands[*].bits[*].value", "operands[*].value"),
    # the direction of each step of a membership proof is part of the circuit in this design
    "merkle_mimc": ("index", "lemmas.#len"),
    # both branches emit the same gadget, with and without its witness
    "cli_hash": ("circuit.image",),
    # the number of constraints asked for
    "cli_mini": ("circuit.num",),
}

# parameters of the circuit that coefficients may come from (and the public constants of mimc, drawn from a fixed seed)
COEFFICIENTS = {"lookup1": ("table",), "lookup2": ("table",), "lookup3": ("table",), "rangeproof": ("circuit.n",)}


def three(*n):
    return lambda e: mk(kids={".%d" % i: kconst(x) for i, x in enumerate(n)})


# numbers of bits of three equalities packed one after the other; the scalar field holds 254 bits
PACKING = [(100, 100, 100), (32, 32, 32), (1, 152, 100), (1, 153, 100), (253, 1, 1), (200, 34, 33), (127, 126, 127), (127, 127, 127)] + [(253, 253, k) for k in (1, 2, 3, 7, 8, 31, 64, 252)] + [
    (253, 1, 253), (1, 253, 253)]
