"""Effects of the library crates, read from the generic MIR of every function in them."""
import re

LIBS = ("zkp_r1cs", "zkp_groth16", "zkp_bulletproofs", "zkp_marlin", "zkp_plonk", "zkp_asvc", "zkp_spartan", "zkp_libra",
        "zkp_hyrax", "zkp_gadgets", "zkp_curve", "zkp_curve25519")

# paths into std, rand and friends that reach something other than the arguments
AMBIENT = re.compile(r"""
    \b(thread_rng|from_entropy|getrandom|test_rng|random)$ |
    \b(OsRng|ThreadRng|EntropyRng|JitterRng|RdRand|ReseedingRng)\b |
    ^(std|core)::(time|env|fs|net|process|thread|io|os|random)\b |
    ^std::sync::(mpsc|Once|OnceLock|LazyLock|Mutex|RwLock|atomic|Condvar)|^core::sync::atomic |
    \b(Instant|SystemTime|LocalKey|RandomState|DefaultHasher)\b |
    \b(OnceLock|LazyLock|OnceCell|LazyCell|Mutex|RwLock)\b |
    \bAtomic(Bool|Ptr|[IU]\w+)\b |
    ^(lazy_static|once_cell|parking_lot|chrono|getrandom)\b
""", re.X)
# the standard library's own collections carry a hasher as a default type argument; printing is not an input
HARMLESS = re.compile(r"^std::io::(_e?print|Write|Read|Error|Cursor|Result|ErrorKind)|^(std|core)::io::(error|impls|cursor)|^ark_std::io|^std::io::Error|^std::io::error")
HASHMAP = re.compile(r"(std::hash::|std::collections::hash_map::|std::hash::random::)?RandomState\b")


def functions(facts):
    return [a for a in facts["all"] if a[0] in LIBS and a[4]]


def where(a, line):
    return "%s:%d in %s" % (a[2].split("/repo/")[-1], line or a[3], a[1])


def ambient_rule(facts):
    out = []
    stats = dict(functions=0, call_sites=0, types=0, statics=0)
    for a in functions(facts):
        u = a[4]
        stats["functions"] += 1
        stats["call_sites"] += len(u["calls"])
        stats["types"] += len(u["types"])
        stats["statics"] += len(u["statics"])
        short = re.sub(r"<[^<>]*>", "", a[1])
        for c, line, targs, _ in u["calls"]:
            if AMBIENT.search(HASHMAP.sub("", c)) and not HARMLESS.search(c):
                out.append(("%s:%s" % (short, c), "%s calls %s" % (where(a, line), c)))
            for t in targs:
                t2 = HASHMAP.sub("", t)
                if AMBIENT.search(t2) and not HARMLESS.search(t2):
                    out.append(("%s:%s" % (short, t), "%s uses %s" % (where(a, line), t)))
        for t in u["types"]:
            t2 = HASHMAP.sub("", t)
            if AMBIENT.search(t2) and not HARMLESS.search(t2):
                out.append(("%s:%s" % (short, t), "%s holds a value of type %s" % (where(a, 0), t)))
        for n, line, ty in u["statics"]:
            if "*mut" in ty or re.search(r"Cell|Atomic|Mutex|RwLock|Once|Lazy|LocalKey", ty):
                out.append(("%s:%s" % (short, n), "%s reaches the mutable static %s" % (where(a, line), n)))
    return sorted(set(out)), stats


MACRO_UNSAFE = re.compile(r"^(std|core|alloc)::fmt::(rt::)?(Arguments|Argument)|::box_new$|::box_assume_init|into_vec")


def unsafe_rule(facts):
    out = []
    stats = dict(functions=0, call_sites=0, types=0)
    for a in functions(facts):
        u = a[4]
        stats["functions"] += 1
        stats["call_sites"] += len(u["calls"])
        stats["types"] += len(u["types"])
        short = re.sub(r"<[^<>]*>", "", a[1])
        for c, line, targs, un in u["calls"]:
            if un and not MACRO_UNSAFE.search(c):
                out.append(("%s:%s" % (short, c), "%s calls the unsafe function %s" % (where(a, line), c)))
        for t in u["types"]:
            if "*mut" in t and "MaybeUninit" not in t:
                out.append(("%s:%s" % (short, t), "%s holds the raw pointer %s" % (where(a, 0), t)))
    return sorted(set(out)), stats
