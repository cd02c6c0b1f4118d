"""Rules over compile-time constants: the values rustc's own constant evaluation gives them."""
import itertools
import math

# l, the order of the Ristretto group (RFC 9496), and the prime factors of l - 1
L25519 = 2 ** 252 + 27742317777372353535851937790883648493
FACTORS = (2, 3, 11, 198211423230930754013084525763697, 276602624281642239937218680557139826668747)
# scalar fields the hash parameters are made for (BN254) and instantiated with (BLS12-381)
FIELDS = {"BN254": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
          "BLS12-381": 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001}


def consts(o):
    if isinstance(o, list):
        if len(o) == 3 and o[0] == "k":
            yield o
        for x in o:
            yield from consts(x)
    elif isinstance(o, dict):
        for x in o.values():
            yield from consts(x)


def num(k):
    """little-endian limbs or a plain integer"""
    if "i" in k:
        return k["i"]
    if "r" in k and isinstance(k["r"], dict):
        return num(k["r"])
    return int.from_bytes(bytes.fromhex(k["b"]), "little") if "b" in k else None


FIELD_NAMES = ["modulus", "r", "r2", "generator", "half", "t", "half_t", "root", "inv", "bits", "capacity", "shave", "two_adicity"]


def field_rule(facts, root="root_curve25519_fr"):
    """-> (violations, stats): the constants of the scalar field of Curve25519 against the group order"""
    out = []
    fn = [f for f in facts["fns"] if f["path"].endswith(root)][0]
    got = {}

    def collect(n, v):
        got[n] = v
    # the body of the root is three aggregates of constants; their order is the one written there
    groups = []
    for st in fn["blocks"][0]["s"]:
        if st[0] == "=" and st[3][0] == "array":
            groups.append([num(c[2]) for c in st[3][1]])
        elif st[0] == "=" and st[3][0] == "tuple":
            groups.append([num(c[2]) for c in st[3][1] if c[0] == "k"])
    big = [g for g in groups if len(g) == 8]
    small = [g for g in groups if len(g) == 4]
    one = [g for g in groups if len(g) == 1]
    if not (big and small and one) or None in big[0] + small[0] + one[0]:
        return [("anchor", "the constants of the field could not be evaluated")], {"constants": 0, "obligations": 1}
    c = dict(zip(FIELD_NAMES, big[0] + one[0] + small[0]))
    p = L25519
    s = 0
    while (p - 1) >> s & 1 == 0:
        s += 1
    t = (p - 1) >> s
    R = 2 ** 256 % p
    unR = pow(R, -1, p)

    def want(name, ok, text):
        if not ok:
            out.append((name, "%s: %s" % (name, text)))
    want("MODULUS", c["modulus"] == p, "not the order of the Ristretto group")
    want("R", c["r"] == R, "not 2^256 modulo the modulus")
    want("R2", c["r2"] == R * R % p, "not 2^512 modulo the modulus")
    want("INV", c["inv"] == -pow(p, -1, 2 ** 64) % 2 ** 64, "not the negated inverse of the modulus modulo 2^64")
    want("MODULUS_BITS", c["bits"] == p.bit_length(), "not the bit length of the modulus")
    want("CAPACITY", c["capacity"] == p.bit_length() - 1, "not one less than the bit length of the modulus")
    want("REPR_SHAVE_BITS", c["shave"] == 256 - p.bit_length(), "not the unused bits of the representation")
    want("MODULUS_MINUS_ONE_DIV_TWO", c["half"] == (p - 1) // 2, "not half of the modulus less one")
    want("TWO_ADICITY", c["two_adicity"] == s, "not the number of times two divides the modulus less one")
    want("T", c["t"] == t, "not the odd part of the modulus less one")
    want("T_MINUS_ONE_DIV_TWO", c["half_t"] == (t - 1) // 2, "not half of T less one")
    g = c["generator"] * unR % p
    want("GENERATOR", c["generator"] < p and all(pow(g, (p - 1) // q, p) != 1 for q in FACTORS) and g != 0,
         "does not generate the multiplicative group (%d)" % g)
    w = c["root"] * unR % p
    want("TWO_ADIC_ROOT_OF_UNITY", c["root"] < p and w != 0 and pow(w, 2 ** s, p) == 1 and pow(w, 2 ** (s - 1), p) != 1,
         "not a primitive root of unity of order 2^TWO_ADICITY")
    want("GENERATOR^T", w == pow(g, t, p) or any(x[0] == "TWO_ADIC_ROOT_OF_UNITY" for x in out), "the root of unity is not the generator to the power T")
    return out, {"constants": len(FIELD_NAMES), "obligations": 14}


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]]) for j in range(len(m)))


def sponge_rule(facts, module, inverse):
    """parameters of a sponge permutation: tables of decimal strings and exponents of the functions of one module"""
    out = []
    tables, exps = {}, {}
    T = facts["types"]

    def elem(t):
        k = T[t]
        n = []
        while k["k"] in ("array", "ref"):
            if k["k"] == "array":
                n.append(k["len"])
            k = T[k["t"]]
        return k["k"], n
    for f in facts["fns"]:
        if module not in f["path"]:
            continue
        for k in consts(f.get("blocks")):
            v = k[2]
            if "ss" in v:
                tables[tuple(v["ss"])] = (elem(k[1])[1], f)
            elif "b" in v or isinstance(v.get("r"), dict) and "b" in v["r"]:
                kind, dims = elem(k[1])
                b = v["b"] if "b" in v else v["r"]["b"]
                if kind == "uint" and len(dims) == 1 and len(b) == 16 * dims[0]:        # u64 limbs
                    exps[num(v)] = f
    square = {t: (d, f) for t, (d, f) in tables.items() if len(d) == 2 and d[0] == d[1]}
    rest = {t: (d, f) for t, (d, f) in tables.items() if t not in square}
    n = 0
    if not square:
        out.append(("matrix", "no mixing matrix found"))
    if not rest:
        out.append(("constants", "no round constants found"))
    if not exps:
        out.append(("exponent", "no exponent found"))
    bad = [x for t in tables for x in t if not x.isdigit()]
    if bad:
        out.append(("digits", "not a number: %s" % bad[0][:40]))
        return out, {"tables": len(tables), "exponents": len(exps), "obligations": 1}
    for name, p in FIELDS.items():
        for t, (d, f) in square.items():
            v = [int(x) for x in t]
            m = [v[i * d[1]:(i + 1) * d[1]] for i in range(d[0])]
            for k in range(1, d[0] + 1):
                for rr in itertools.combinations(range(d[0]), k):
                    for cc in itertools.combinations(range(d[0]), k):
                        n += 1
                        if det([[m[i][j] for j in cc] for i in rr]) % p == 0:
                            out.append(("matrix", "%s: over the field of %s the mixing matrix has a singular minor (rows %s, columns %s)" % (f["path"], name, list(rr), list(cc))))
        for t, (d, f) in tables.items():
            v = [int(x) for x in t]
            n += len(v)
            if any(not 0 < x < p for x in v):
                out.append(("range", "%s: a constant is zero or not below the modulus of %s" % (f["path"], name)))
            if len(set(v)) != len(v):
                out.append(("repeated", "%s: two constants of a table are equal" % f["path"]))
        for e, f in exps.items():
            n += 1
            if math.gcd(e, p - 1) != 1:
                out.append(("exponent", "%s: x^%d is not a permutation of the field of %s" % (f["path"], e, name)))
    if inverse:
        n += 1
        p = FIELDS["BN254"]
        for a, f in exps.items():
            if a == 1 or not any(a * b % (p - 1) == 1 for b in exps):
                out.append(("inverse", "%s: no exponent undoes x^%d" % (f["path"], a)))
    return sorted(set(out)), {"tables": len(tables), "exponents": len(exps), "obligations": n}
