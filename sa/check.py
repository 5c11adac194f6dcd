"""check.py <property> : decide one property of /repo's current source by static analysis."""
import os, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build
from report import Report, parallel

CHECKS = {}
ASSUME_MIR = "the MIR rustc produces for the current source (overflow and bounds checks included) is what the analysis sees; library calls outside the two crates follow the models in sa/models*.py"
ASSUME_FIELD = "the scalar field is a prime field with the modulus named in the obligation; its generic operations are exact field arithmetic"
ASSUME_SHAPE = "lengths (operand counts, bit counts, table sizes, circuit shapes) are those enumerated in the obligations; values are arbitrary"


def check(pid, rule, floor, assumptions=(ASSUME_MIR, ASSUME_FIELD, ASSUME_SHAPE)):
    def deco(f):
        CHECKS[pid] = (f, rule, floor, assumptions)
        return f
    return deco


def load(cfg="mt"):
    from mir import Program
    d = build.dumps()[cfg]
    return Program([d[c] for c in ("bellman", "groth16") if c in d])


def batch(rep, items, fn, label, size=8, **kw):
    """run fn(rep, item) for all items in worker processes, a few items at a time"""
    jobs = []
    n = max(1, min(size, -(-len(items) // 8)))
    for i in range(0, len(items), n):
        def go(r, part=items[i:i + n]):
            for x in part:
                fn(r, x)
        jobs.append(("%s %d.." % (label, i), go))
    parallel(rep, jobs, **kw)


# ------------------------------------------------------------------ gadgets
@check("C01", "Abstract interpretation of every bit-allocating gadget without and with a value: in the constraints it emits each "
       "allocated variable is reduced to an idempotent (0/1) variable, and to 0 under the 'must be false' condition; with a value, "
       "the assigned and reported bits equal the value's bits (canonical decision diagrams).", 22)
def c01(rep, tier):
    import ops
    p = load()
    batch(rep, ops.c01_ops(), lambda r, a: ops.check_alloc(r, p, a), "allocation", 1)


def gates(rep, p, items, label, size=8, **kw):
    import ops

    def one(r, o):
        if hasattr(o, "nonzero"):
            ops.check_nonzero(r, p, o)
        else:
            ops.sound(r, p, o)
        ops.honest(r, p, o)
    batch(rep, items, one, label, size, **kw)


RULE_OP = ("Abstract interpretation of the gadget for each operand kind mixture, once without a witness (the emitted constraints, reduced to "
           "canonical form, must force exactly the specified result) and once with one (assigned and reported values equal the specification "
           "and every emitted constraint is identically satisfied). ")


@check("C02", RULE_OP + "Specification: truth tables of the boolean gates.", 530)
def c02(rep, tier):
    import ops
    gates(rep, load(), ops.c02_ops(), "gate", 16)


@check("C03", RULE_OP + "Specification: the named field operation.", 30)
def c03(rep, tier):
    import ops
    gates(rep, load(), ops.c03_ops(), "number", 2)


@check("C04", "Abstract interpretation of both decompositions over four fields: the emitted constraints reduce to the recombination equation "
       "sum 2^i b_i = a over exactly the field's bit count; for the strict form the set of admitted bit vectors equals the set of integers "
       "below the modulus (decision diagrams); the honest bits satisfy them.", 24)
def c04(rep, tier):
    import ops
    p = load()
    items = [(q, l, s) for q, l in ((ops.BLS_R, "BLS12-381 scalar"), (ops.JUBJUB_R, "Jubjub scalar"), (ops.PALLAS_P, "Pallas base"),
                                    (ops.BN_R, "BN254 scalar"), (ops.TOY, "13-bit field")) for s in (True, False)]
    batch(rep, items, lambda r, x: ops.check_decomp(r, p, x[2], x[0], x[1]), "decomposition", 1)


@check("C05", RULE_OP + "Specification: the entry the selector bits index, second coordinate negated by the sign bit; table entries are "
       "arbitrary field elements.", 300)
def c05(rep, tier):
    import ops
    gates(rep, load(), ops.c05_ops(), "lookup", 4)


@check("C06", RULE_OP + "Specification: 32-bit word operations on the operands' bits (sums modulo 2^32 as canonical carry chains).", 550)
def c06(rep, tier):
    import ops
    o = ops.c06_ops()
    o.sort(key=lambda x: not getattr(x, "add", False))
    gates(rep, load(), o, "word", 2)


@check("C07", "Abstract interpretation of the equality batcher on sequences of equalities of given bit widths and side shapes (variables, "
       "constants, empty sides, shared variables), interleaved with allocations, constraints and namespaces, followed by its release: every "
       "equality occurs in exactly one emitted constraint, with a power-of-two weight, the constraint is exactly the weighted sum of its "
       "equalities, ranges disjoint, total width below the field's capacity, other operations pass through. Exhaustive over widths 1..11 for triples with a 12-bit capacity.", 1330)
def c07(rep, tier):
    import itertools, ops
    p = load()
    seqs = [(ops.TOY, s, "12-bit capacity") for n in (1, 2, 3) for s in itertools.product(range(1, 12), repeat=n)]
    seqs += [(ops.BLS_R, (n,) * k, "254-bit capacity") for n in range(32, 37) for k in (1, 6, 7, 8, 20)]
    seqs += [(ops.BLS_R, s, "254-bit capacity") for s in ((253,), (253, 1), (1, 253), (200, 53, 1), (200, 54), (252, 1, 1), (253, 253))]
    if tier == "thorough":
        seqs += [(ops.TOY, s, "12-bit capacity") for s in itertools.product(range(1, 12), repeat=4)]
    import random
    rnd = random.Random(7)
    for i in range(60):
        seqs.append((ops.TOY, tuple(rnd.randint(1, 11) for _ in range(9)), "12-bit capacity"))

    sh = ["x", "xx", "xs", "xk", "xi", "xsk", "sx", "kx"]
    for n in (3, 11):
        for l, r in [(a, b) for a in sh for b in sh + ["", "s", "k"]] + [(b, a) for a in sh for b in ("", "s", "k")]:
            seqs.append((ops.TOY, ((n, l, r),), "12-bit capacity"))
            seqs.append((ops.TOY, (2, (n, l, r), (4, r, l), 3), "12-bit capacity"))
    ot = ("alloc", "input", "enforce", "fail", "ns")
    for o in ot:
        for t in ((o, 4, 4, 4, o), (4, o, 4, o, 4, o, 4), (11, o, 11, o), (4, 4, o, 3, 4), (4, o, o, o, 4)):
            seqs.append((ops.TOY, t, "12-bit capacity"))
    for t in itertools.permutations(ot, 3):
        seqs.append((ops.TOY, (5, t[0], (4, "x", "x", 1), t[1], (3, "xs", "", 1), t[2], 6), "12-bit capacity"))
    for k in (1, 2, 7, 8):
        seqs.append((ops.BLS_R, tuple(x for i in range(k) for x in (34, ot[i % 5], (35, "xx", "k", 1))), "254-bit capacity"))
    for i in range(300 if tier == "thorough" else 60):
        t = []
        for j in range(rnd.randint(2, 9)):
            z = rnd.random()
            if z < 0.3:
                t.append(rnd.choice(ot))
            else:
                t.append((rnd.randint(1, 11), rnd.choice(sh), rnd.choice(sh + ["", "k"])) + ((1,) if z < 0.5 else ()))
        seqs.append((ops.TOY, tuple(t), "12-bit capacity"))

    def go(r, part):
        ops.check_multieq(r, p, part[0], [part[1]], part[2])
    batch(rep, seqs, go, "sequence", 60)


RULE_HASH = ("(a) Abstract interpretation of the whole gadget on symbolic bits: all emitted constraints (sums unpacked into integer column sums, "
             "canonical modulo powers of two) are reduced and each of the 256 output bits must have the same canonical form as the standard's. "
             "(b) For longer messages the compression function is replaced by fresh words: number of blocks, every message-block bit (padding, "
             "length), the chained state and the output order must equal the standard's; message bits take patterns of constant, allocated and "
             "negated bits, lengths reach past 2^16 bits. ")


def hashes(rep, jobs, mem):
    jobs = [(hashlabel(j), lambda r, j=j: j[0](r, *j[1:])) for j in jobs]
    parallel(rep, jobs, limit=700, mem=mem)


def hashlabel(j):
    return "%s %s" % (j[0].__name__, [x for x in j[2:]])


@check("C08", RULE_HASH, 38)
def c08(rep, tier):
    import hashes as h
    p = load()
    jobs = [(h.check_hash, p, "sha256", "I", 64), (h.check_hash, p, "block", "I", 512), (h.check_hash, p, "block", "NIFT", 512),
            (h.check_hash, p, "sha256", "TFFT", 0), (h.check_hash, p, "sha256", "TFFFFTTFT", 448), (h.check_hash, p, "sha256", "TIN", 96), (h.check_hash, p, "sha256", "IN", 24)]
    if tier == "thorough":
        jobs += [(h.check_hash, p, "sha256", "I", 440), (h.check_hash, p, "sha256", "IFFTN", 504), (h.check_hash, p, "block", "IT", 512),
                 (h.check_hash, p, "block", "IN", 512)]
    lens = [0, 8, 16, 24, 64, 432, 440, 448, 456, 496, 504, 512, 520, 944, 952, 960, 1016, 1024, 1032, 1472, 2040, 2048, 4096]
    if tier == "thorough":
        lens = sorted(set(lens) | set(range(0, 2100, 8)))

    def blocks(r, part):
        for n in part:
            h.check_blocks(r, p, "sha256", "I", n)
            if n % 64 == 0 and n:
                h.check_blocks(r, p, "sha256", "TIFN", n)
    jobs = [(h.check_blocks, p, "sha256", "TFFTFTTFT", n) for n in ([66056] if tier == "quick" else [66056, 530000])] + jobs
    hashes(rep, jobs + [(blocks, part) for part in (lens[0::2], lens[1::2])], 5 << 30)


@check("C09", RULE_HASH, 41)
def c09(rep, tier):
    import hashes as h
    p = load()
    P2 = bytes(range(0x80, 0x88))
    jobs = [(h.check_hash, p, "blake2s", "I", 512), (h.check_hash, p, "blake2s", "I", 24, P2), (h.check_hash, p, "blake2s", "NIFT", 512, P2),
            (h.check_hash, p, "blake2s", "TIN", 64, b"\0" * 8), (h.check_hash, p, "blake2s", "TFT", 0, b"Zcash_PH"),
            (h.check_hash, p, "blake2s", "ITFN", 64, P2, 0x8123456789abcdef),
            (h.check_hash, p, "blake2s", "TFFTFTTFT", 1040, P2)]
    if tier == "thorough":
        jobs += [(h.check_hash, p, "blake2s", "IT", 256, P2), (h.check_hash, p, "blake2s", "I", 520, b"Zcash_PH")]
    lens = [0, 8, 16, 256, 448, 504, 512, 520, 760, 1016, 1024, 1032, 1536, 1544, 2048, 4096, 4104]
    if tier == "thorough":
        lens = sorted(set(lens) | set(range(0, 2100, 8)))

    def blocks(r, part):
        for n in part:
            h.check_blocks(r, p, "blake2s", "I", n, P2)
            h.check_blocks(r, p, "blake2s", "TIFN", n, b"\0\xff" * 4)
    jobs = [(h.check_blocks, p, "blake2s", "TFFTFTTFT", n, P2) for n in ([66056, 132104] if tier == "quick" else [66056, 132104, 530000])] + jobs
    hashes(rep, jobs + [(blocks, part) for part in (lens[0::2], lens[1::2])], 5 << 30)


@check("C10", RULE_OP + "Specification: one public input per chunk of CAPACITY bits equal to its little-endian integer; the out-of-circuit "
       "packing gives the same elements; byte helpers list the bits of each byte in the documented order.", 200)
def c10(rep, tier):
    import ops
    n = 64 if tier == "thorough" else 40
    o = ops.c10_ops(ops.TOY, [(i, "IN") for i in list(range(0, n)) + [72, 73, 110, 205]] + [(i, "FTIN") for i in (1, 5, 12, 13, 24, 30, 83)] + [(13, "FT")])
    o += ops.c10_ops(ops.BLS_R, [(i, "IINFT") for i in (0, 1, 253, 254, 255, 508, 509, 1017, 1300)]) + ops.bytes_ops((0, 1, 2, 3, 5))
    gates(rep, load(), o, "packing", 6)


@check("C11", "Each gadget is interpreted three times - no witness, witness known but not asked for, proving - and the event logs (allocations and "
       "constraints with canonical coefficients, in order) and the variables of the result must be identical; no event may be guarded by a "
       "condition on the witness.", 500)
def c11(rep, tier):
    import gcheck
    p = load()
    batch(rep, gcheck.all_cases() + gcheck.numalloc_cases(), lambda r, o: gcheck.shape_case(r, p, o), "shape", 4)


@check("C12", "Each gadget is interpreted with operands whose values are unknown while the constraint system asks for values: the result must be "
       "Err(AssignmentMissing) whenever an assigned value depends on them, with all operands unknown and with each single operand unknown, "
       "both when the constraint system reports the error and when it goes on; and once per allocation with that allocation failing: the "
       "result must be exactly that error; no panic is reachable in either case.", 1000)
def c12(rep, tier):
    import gcheck, ops
    p = load()
    cs = gcheck.all_cases() + gcheck.numalloc_cases()
    batch(rep, cs, lambda r, o: gcheck.error_case(r, p, o), "errors", 4)
    # zero where an inverse is needed
    for o in ops.c03_ops():
        if getattr(o, "err", None) == "DivisionByZero":
            ops.honest(rep, p, o)


@check("C13", "Abstract interpretation of +/- on linear combinations for all operand forms, with symbolic coefficients and overlapping "
       "variables: the resulting coefficient of every variable equals the sum (difference) as a polynomial.", 12)
def c13(rep, tier):
    import gcheck
    gcheck.check_lc(rep, load())


@check("C14", "A scenario using every constraint-system method is interpreted directly and through each adaptor (references, namespaces, nested "
       "namespaces, equality batcher, combinations): the logs on the underlying system, annotations, results and assigned values must be "
       "identical; and in every gadget, on every exit (success, missing witness, each failing allocation), namespace pushes and pops pair up.", 540)
def c14(rep, tier):
    import gcheck
    p = load()
    gcheck.check_adaptors(rep, p)
    batch(rep, gcheck.all_cases() + gcheck.numalloc_cases(), lambda r, o: gcheck.balance_case(r, p, o), "balance", 4)


# ------------------------------------------------------------------ multi-exponentiation, workers, domains
RULE_SCHED = ("Schedules: pool tasks run as soon as spawned or as late as possible, scope tasks in spawn order or reversed. ")
SCHED = [dict(), dict(late=True), dict(reverse=True), dict(late=True, reverse=True)]


def mexp_cases(tier):
    """(kinds, density, offset, field, label, options)"""
    import ops
    T, B = (ops.TOY, "13-bit field"), (ops.BLS_R, "BLS12-381 scalar")
    out = []

    def add(k, d, off, f, cfg="mt", **o):
        out.append((cfg, (k, d, off) + f, o))
    for cfg in ("mt", "st"):
        add("", None, 0, T, cfg)
        add("", "", 0, T, cfg)
        add("s", None, 0, B, cfg)
        add("ss", "11", 1, T, cfg)
        add("0s1", "101", 2, T, cfg)
        add("g0g1m", "11011", 1, B, cfg)
        add("gg", None, 0, T, cfg, ident=(1,))
        add("s1", None, 0, T, cfg, ident=(0,))
        add("1s", None, 0, T, cfg, ident=(1,))
        add("g01g", "1101", 1, T, cfg, short=1)
        add("01mr" * 9, "1101" * 9, 3, B, cfg)
        add("01mr" * 9, None, 0, B, cfg, spare=2)
    for d in ("000", "001", "010", "100", "110", "011", "101", "111", "202", None):
        add("ggg", d, 1, T)
        add("s0s", d, 0, T)
        add("1s1", d, 0, T)
    for n in range(1, 7):
        add("s" * n, None, n % 3, T)
        add("gm01r"[:n] + "r" * (n - 5 if n > 5 else 0), ("10110" * 2)[:n], 1, B)
    for i in range(4):
        for k in ("0000", "1111", "mmmm", "gggg", "0m1g"):
            add(k, None, 0, T, ident=(i,))
            add(k, "1111", 1, T, short=4 - i)
    for n in (31, 32, 33, 54, 55, 148, 149, 403, 404) + ((1096, 1097) if tier == "thorough" else ()):
        add(("0" + "r" * 7 + "1" + "m" * 3) * (n // 12) + "r" * (n % 12), None, 0, B)
        add("r" * n, ("1101100" * n)[:n], 1, B)
    for n, f in ((1097, B), (1097, T), (2981, T), (8104, T), (22027, T), (66000, T)) + (((2981, B), (8104, B), (180000, T)) if tier == "thorough" else ()):
        k, d = ["0"] * n, ["0"] * n            # long lists, few of them selected or non-zero
        for c, o, m in (("r", 0, 20), ("1", 5, 15), ("0", 7, 11), ("m", 9, 12)):
            for i in list(range(o, n, n // m)) + [n - 1 - o % 4]:
                k[i], d[i] = c, "1"
        add("".join(k), "".join(d), 1, f)
        if n < 30000:
            add("".join(k), None, 0, f)
    for n in (31, 32, 33):
        add("g" + "r" * (n - 2) + "g", None, 0, T)
        add("1" * (n - 3) + "g0m", ("01" * n)[:n], 0, B)
    for o in SCHED[1:]:
        add("gs01m", "11101", 1, T, **o)
        add("01mr" * 9, "1101" * 9, 3, B, **o)
    for t in (1, 2, 3, 7, 16):
        add("gs01m", "11101", 1, T, threads=t)
    if tier == "thorough":
        add("g" * 12, None, 0, T)
        add("g" * 32, "1" * 32, 0, T)
        add("g01m" * 8, "1101" * 8, 0, B)
        add("s" * 7, None, 0, B)
    return out


@check("C26", RULE_SCHED + "multiexp is interpreted with group elements as linear forms over named bases and exponents as constants or symbols "
       "(decision diagrams over their bits); the result's coefficient of every base must equal the exponent paired with it as a polynomial in "
       "the exponent's bits, for dense, sparse and full densities, every window size switch, offsets into the source, and both builds; no size is narrowed below 32 bits.", 90)
def c26(rep, tier):
    import mexp
    P = {c: load(c) for c in ("mt", "st")}
    narrowing(rep, "multiexp")
    items = [x for x in mexp_cases(tier) if not x[2].get("ident") and not x[2].get("short")]
    batch(rep, items, lambda r, x: r.attempt(str(x), lambda: mexp.check_multiexp(r, P[x[0]], *x[1], build=x[0], **x[2])), "multiexp", 1)


@check("C27", "The source implementation for (bases, cursor) is interpreted over call sequences (next, skip, build) with every number of bases, "
       "cursor and identity position listed: element, cursor and error must be as specified on every path; and through multiexp, exhausted "
       "sources and identity bases must surface as exactly those errors.", 1000)
def c27(rep, tier):
    import mexp
    P = {c: load(c) for c in ("mt", "st")}
    batch(rep, list(range(0, 5)), lambda r, n: mexp.check_sources(r, P["mt"], [n]), "sources", 1)
    items = [x for x in mexp_cases(tier) if x[2].get("ident") or x[2].get("short")]
    batch(rep, items, lambda r, x: r.attempt(str(x), lambda: mexp.check_multiexp(r, P[x[0]], *x[1], build=x[0], **x[2])), "multiexp", 1)


@check("C28", RULE_SCHED + "Worker::compute, Waiter::wait, dropping a Waiter and Worker::scope are interpreted in both builds with an abstract "
       "pool: the task's effects occur exactly once, wait returns its value, the pending counter returns to its start, no schedule panics "
       "(waiting inside the pool excepted, which must panic), and the chunk size is at least 1 and covers all elements.", 80)
def c28(rep, tier):
    import worker
    narrowing(rep, "multicore")
    for cfg in ("mt", "st"):
        p = load(cfg)
        rep.attempt("compute " + cfg, lambda: worker.check_compute(rep, p, cfg))
        rep.attempt("scope " + cfg, lambda: worker.check_scope(rep, p, cfg, tier))


def narrowing(rep, *mods):
    import narrow
    for cfg in ("mt", "st"):
        rep.attempt("narrowing", lambda: narrow.check(rep, load(cfg), mods))


def poly_items(tier, ms, Ts, cfgs=("mt", "st")):
    out = []
    for cfg in cfgs:
        for m in ms:
            for t in Ts if cfg == "mt" else Ts[:1]:
                for k in ("scalar", "point"):
                    for o in (SCHED if m <= 4 else SCHED[:1] + SCHED[-1:]) if cfg == "mt" else SCHED[:1]:
                        out.append((cfg, m, t, k, o))
    return out


def sparse_items(ms, Ts, cfgs=("mt",)):
    """larger domains: all but a few elements are zero"""
    return [(c, m, t, k, SCHED[(m + t) % 4], (0, 1, m // 2 + 1, m - 1)) for c in cfgs for m in ms for t in (Ts if c == "mt" else Ts[:1])
            for k in ("scalar", "point")]


def big_items(xs):
    """(build, size, threads, kind): large domains over a field with concrete constants"""
    return [(c, m, t, k, dict(SCHED[(m + t) % 4], conc=7), (1, m // 2 + 1, m - 1)) for c, m, t, k in xs]


def poly_run(rep, items):
    import poly
    P = {c: load(c) for c in ("mt", "st")}

    def one(r, x):
        cfg, m, t, k, o = x[:5]
        lab = "%s build, %d threads" % (cfg, t)
        if len(x) > 5:
            return r.attempt("transforms %r" % (x,), lambda: poly.transforms(r, P[cfg], m, t, k, o, lab, set(x[5])))
        r.attempt("transforms %r" % (x,), lambda: poly.transforms(r, P[cfg], m, t, k, o, lab))
        r.attempt("pointwise %r" % (x,), lambda: poly.pointwise(r, P[cfg], m, t, k, o, lab))
    batch(rep, items, one, "domain", 1)


@check("C29", RULE_SCHED + "Every polynomial operation is interpreted for every listed thread count, domain size, build and schedule with "
       "symbolic elements; each result element must equal the same closed form in the inputs and its own index. Domains of up to 16 elements have "
       "all elements symbolic; larger ones (up to 128, thread counts up to 128) have symbolic elements at spread positions and zeros elsewhere.", 300)
def c29(rep, tier):
    poly_run(rep, big_items([("mt", 256, 7, "scalar"), ("mt", 256, 33, "point"), ("mt", 512, 5, "scalar"), ("mt", 512, 16, "scalar"), ("mt", 1024, 9, "scalar")]) +
             sparse_items((32, 64), (2, 3, 5, 8, 12, 16, 17, 32)) + sparse_items((128,), (6, 64, 128)) +
             (sparse_items((256, 512), (2, 7, 16, 64)) if tier == "thorough" else []) +
             poly_items(tier, (1, 2, 4, 8, 16) + ((32,) if tier == "thorough" else ()), (1, 2, 3, 4, 5, 7, 8, 9, 16, 33)))
    import snark
    cs = [snark.circuits()[2], snark.circuits()[4], snark.big_circuit(6), snark.big_circuit(12)]
    snark_batch(rep, [("mt", snark.check_generate, (c,), dict(threads=t, **o)) for c in cs for t in (1, 2, 3, 4, 5, 7, 8, 9, 16, 33)
                      for o in (SCHED[:1] + SCHED[-1:])], "setup threads", 4)


@check("C30", "from_coeffs is interpreted for every length up to the listed bound over fields of several 2-adicities: size, padding and root of "
       "unity must be as specified or the error returned; transforms, coset transforms, their inverses, pointwise operations and division by the "
       "target polynomial are interpreted on symbolic elements and compared with their closed forms; domains up to 4096 with symbolic elements at "
       "spread positions, lengths up to 2^16 and their neighbours for the size computation; no size is narrowed below 32 bits.", 250)
def c30(rep, tier):
    import ops, poly
    P = {c: load(c) for c in ("mt", "st")}
    narrowing(rep, "domain")
    items = [("mt", n, ops.BLS_R, "BLS12-381 scalar") for n in list(range(0, 34)) + [63, 64, 65]]
    items += [("mt", (1 << k) + d, ops.BLS_R, "BLS12-381 scalar") for k in range(7, 17 if tier == "quick" else 21) for d in (-1, 0, 1)]
    items += [("st", n, ops.BLS_R, "BLS12-381 scalar") for n in (0, 1, 2, 3, 5, 8, 9, 1025, 4095)]
    for s in (1, 2, 3, 4):
        items += [("mt", n, poly.small_field(s), "field of 2-adicity %d" % s) for n in range(0, 20)]
    batch(rep, items, lambda r, x: r.attempt("size %r" % (x,), lambda: poly.check_size(r, P[x[0]], *x[1:], tag=x[0])), "sizes", 8)
    big = [("mt", 4096, 4, "scalar"), ("mt", 2048, 1, "scalar"), ("st", 2048, 1, "scalar"), ("mt", 2048, 8, "point")]
    big = [("mt", 8192, 8, "scalar"), ("st", 4096, 1, "point")] * (tier == "thorough") + big
    poly_run(rep, big_items(big) + sparse_items((1024, 2048, 4096) if tier == "thorough" else (1024,), (1, 4), ("mt", "st")) + sparse_items((128, 256), (1, 3), ("mt", "st")) +
             poly_items(tier, (1, 2, 4, 8) + ((16, 32) if tier == "thorough" else ()), (1, 3)))


# ------------------------------------------------------------------ Groth16
ASSUME_GP = "generic position: a polynomial in the secrets and witness that is not identically zero is taken as non-zero (probability of the contrary is negligible); pairings are bilinear"
ASSUME_SNARK = (ASSUME_MIR, ASSUME_FIELD, ASSUME_SHAPE, ASSUME_GP)
ASSUME_MEXP = "the multi-exponentiation is replaced by its specification (checked by C26, C27), run as a task of the pool"
RULE_CIRC = ("Circuits are driven through the ConstraintSystem interface; secrets, witness values, coefficients and blinding factors are field "
             "variables, group elements linear forms over named bases. ")


def snark_batch(rep, cases, label, size=4):
    """cases: [(build, fn(rep, prog, *args, **kw), args, kw)]"""
    P = {c: load(c) for c in sorted({x[0] for x in cases})}

    def one(r, x):
        cfg, fn, a, kw = x
        r.attempt("%s %s %s" % (fn.__name__, [getattr(v, "name", v) for v in a], kw), lambda: fn(r, P[cfg], *a, **kw))
    batch(rep, cases, one, label, size)


def all_circuits(tier, seed=1, n=16):
    import snark
    k = 4 if tier == "thorough" else 1
    return snark.circuits() + snark.rand_circuits(n * k, seed) + snark.rand_circuits(n * k // 2, seed + 50, (3, 8), False)


def large(fn, tier, cost=1):
    """satisfied circuits with many variables, long combinations or many rows; coefficients are residues, the field's constants numbers"""
    import snark
    cs = [snark.wide_circuit(*x) for x in ((20, 2), (40, 3), (70, 2), (130, 3), (260, 1), (520, 1), (5, 12), (3, 30), (4, 61))]
    cs += [snark.wide_circuit(na, ni, cancel=True) for na, ni in ((30, 2), (220, 3), (700, 1))]
    cs = [snark.sparse_circuit(n) for n in ((500, 250) if cost < 2 else (250,))] + cs
    cs += [snark.sparse_circuit(n) for n in (40, 61, 62, 126)]
    cs += [snark.big_circuit(n, p=snark.BLS_R) for n in (17, 33, 63, 100)]
    if tier == "thorough":
        cs += [snark.wide_circuit(*x) for x in ((1050, 2), (2100, 0), (6, 125))] + [snark.sparse_circuit(n) for n in (510, 1000)]
        cs += [snark.big_circuit(n, p=snark.BLS_R) for n in (130, 200)]
    return [("mt", fn, (c,), dict(conc=7, **({"threads": 1 + i % 5} if i % 2 else {}))) for i, c in enumerate(cs)]


def scheduled(fn, circs, few, threads=(1, 2, 3, 7)):
    """every circuit once; a few also with other thread counts and under the other schedules (groth16 always uses the multicore build)"""
    out = [("mt", fn, (c,), {}) for c in circs]
    for c in few:
        out += [("mt", fn, (c,), dict(threads=t)) for t in threads]
        out += [("mt", fn, (c,), o) for o in SCHED[1:]]
    return out


@check("C15", RULE_CIRC + "The generated key (secrets 1) and the proof (blinding 1, opaque key elements) must both have the value determined by one "
       "specification of the circuit's numbering and rows, and the prover must request exactly that specification's numbers of key elements.", 140,
       ASSUME_SNARK + (ASSUME_MEXP,))
def c15(rep, tier):
    import snark, snarkchecks as k
    cs = all_circuits(tier, 1, 120)
    snark_batch(rep, scheduled(k.check_same_system, cs + [snark.big_circuit(12)], cs[2:5], (1, 3)) + large(k.check_same_system, tier, 2), "system", 2)


@check("C16", RULE_CIRC + "Every element of the generated parameters must equal the Groth16 key element as a linear form in the generators whose "
       "coefficient is a polynomial (with inverses) in the secrets; all thread counts, builds and schedules listed; no size is narrowed below 32 bits.", 90, ASSUME_SNARK)
def c16(rep, tier):
    import snark
    cs = all_circuits(tier, 2, 200) + [snark.big_circuit(n) for n in (6, 12, 25)]
    narrowing(rep, "generator")
    few = [snark.circuits()[4], snark.big_circuit(12)]
    cases = scheduled(snark.check_generate, cs, few, (1, 2, 3, 5, 7, 16, 33))
    cases += [("mt", snark.check_generate, (c,), dict(p=q, label=l)) for c in few[:1] for q, l in snark_fields()]
    snark_batch(rep, cases + large(snark.check_generate, tier), "setup", 3)


def snark_fields():
    import ops
    return [(ops.JUBJUB_R, "Jubjub scalar")] if 0 else [(ops.BN_R, "BN254 scalar"), (ops.PALLAS_P, "Pallas base")]


@check("C17", RULE_CIRC + "Setup is interpreted with gamma or delta zero, with circuits larger than the evaluation domains of a field of small "
       "2-adicity, with unconstrained private variables and with each synthesis error: every path must return an error (the circuit's own "
       "where it reports one), none may panic; otherwise the returned private-variable query has no identity.", 300, ASSUME_SNARK)
def c17(rep, tier):
    import snark, snarkchecks as k
    cs = all_circuits(tier, 3, 40)
    out = []
    for c in cs[:8]:
        for g, d in ((0, "delta"), ("gamma", 0), (0, 0)):
            out.append(("mt", k.check_refused, (c, "gamma=%s delta=%s" % (g, d), dict(gamma=g, delta=d)), {}))
            out.append(("mt", k.check_refused, (c, "gamma=%s delta=%s" % (g, d), dict(gamma=g, delta=d)), dict(late=True, threads=2)))
        out.append(("mt", k.check_synth_errors, (c, "setup"), {}))
    for c in cs:
        for s in (None, dict(alpha=0), dict(beta=0), dict(alpha=0, beta=0)):
            out.append(("mt", k.check_l_full, (c,), dict(secrets=s)))
        for S in (1, 2, 3):
            out.append(("mt", k.check_too_large, (c, S, "setup"), {}))
    for na in (9, 20, 70, 130, 260, 520):
        for d in (3, 4, 2 + na // 2, 1 + na, 2 + na):
            out.append(("mt", snark.check_generate, (snark.wide_circuit(na, 2, d),), dict(conc=7, threads=1 + d % 4)))
            out.append(("mt", k.check_l_full, (snark.wide_circuit(na, 2, d),), dict(conc=7)))
    snark_batch(rep, out, "degenerate setup")


@check("C18", RULE_CIRC + "The proof made from opaque key elements must equal the Groth16 combination: the coefficient of every key element in A, B "
       "and C as a polynomial in witness, coefficients, r and s; the randomised entry point must use two separate draws of the caller's "
       "generator as r and s; no size is narrowed below 32 bits.", 100, ASSUME_SNARK + (ASSUME_MEXP,))
def c18(rep, tier):
    import snark, snarkchecks as k
    narrowing(rep, "prover")
    cs = all_circuits(tier, 4, 120)
    out = scheduled(snark.check_prove, cs + [snark.big_circuit(12)] + ([snark.big_circuit(25)] if tier == "thorough" else []), cs[2:6], (1, 3))
    out += scheduled(k.check_random_proof, cs[:8], cs[2:3], (1,))
    out += [("mt", snark.check_prove, (c,), dict(r=a, s=b, label="r=%s, s=%s" % (a, b))) for c in cs[2:4] for a, b in ((0, "s"), ("r", 0), (0, 0), ("r", "r"))]
    snark_batch(rep, out + large(snark.check_prove, tier), "proof", 2)


@check("C19", RULE_CIRC + "create_proof is interpreted with every query too short, each single key element the identity, delta the identity in "
       "either group, a key source failing at each request, each synthesis error and each missing value, under all listed schedules: the "
       "result must be exactly that error and neither the caller nor a pending pool task may panic.", 900, ASSUME_SNARK + (ASSUME_MEXP,))
def c19(rep, tier):
    import snark, snarkchecks as k
    cs = [c for c in all_circuits(tier, 5, 24) if len(c.rows) <= 4]
    out = []
    for i, c in enumerate(cs):
        for o in SCHED if i < 4 else [SCHED[i % 2]]:
            out.append(("mt", k.check_bad_key, (c,), o))
            out.append(("mt", k.check_bad_source, (c,), o))
            out.append(("mt", k.check_synth_errors, (c, "prover"), o))
    for c in cs + [snark.big_circuit(6)]:
        for S in (1, 2, 3):
            out.append(("mt", k.check_too_large, (c, S, "prover"), {}))
    for x in ((20, 2), (9, 5)) + (((70, 2),) if tier == "thorough" else ()):
        out.append(("mt", k.check_bad_key, (snark.wide_circuit(*x),), dict(conc=7)))
        out.append(("mt", k.check_bad_source, (snark.wide_circuit(*x),), dict(conc=7)))
    snark_batch(rep, out, "prover error", 1)


@check("C20", "prepare_verifying_key and verify_proof (and the single-item fallback) are interpreted on opaque group elements for every pair of "
       "input and key-element counts listed: exactly one equality of pairing products decides, it must equal the Groth16 equation as a "
       "bilinear form, its outcome must map to success / invalid proof, and count mismatches to the malformed-key error.", 280,
       (ASSUME_MIR, ASSUME_FIELD, ASSUME_SHAPE, "pairings are bilinear; distinct opaque elements are independent"))
def c20(rep, tier):
    import snarkchecks as k
    n = 24 if tier == "thorough" else 12
    out = []
    for nic in range(0, n):
        for nx in range(0, n):
            out.append(("mt", k.check_verify, (nic, nx), {}))
            out.append(("mt", k.check_verify, (nic, nx, "c"), {}))
    for nic in (17, 33, 65, 101, 129, 257, 513, 1025):
        for nx in (0, 1, nic - 2, nic - 1, nic, 2 * nic, nic + 255):
            out.append(("mt", k.check_verify, (nic, nx), {}))
    snark_batch(rep, out, "verification", 8)


@check("C21", "The batch verifier is interpreted on queues of opaque items: exactly one equality decides, and it must equal the sum of the items' "
       "Groth16 equations, each weighted by its own draw (never a zero one) from the caller's generator, also when items share proof elements or inputs; wrong input counts give the "
       "malformed-key error; verify_single equals single verification.", 350,
       (ASSUME_MIR, ASSUME_FIELD, ASSUME_SHAPE, "pairings are bilinear; distinct opaque elements and draws are independent",
        "Verifier::verify_multicore is not compiled in any configuration of this workspace and is not covered"))
def c21(rep, tier):
    import itertools, snarkchecks as k
    out = []
    for nic in (0, 1, 2, 3, 5):
        shapes = [()]
        for n in range(1, 6 if tier == "thorough" else 5):
            shapes += [(nic - 1,) * n] if nic else []
            shapes += [s for s in itertools.product((0, 1, 2), repeat=n)] if n <= 3 else []
        for sh in sorted(set(shapes)):
            good = all(n == nic - 1 for n in sh)
            for how in ("parts", "refs", "item") if good else ("parts",):
                for z in ((), (0,), (1,), (0, 1), (1, 2, 3)) if good and sh else ((),):
                    for kind in ("v", "c") if good else ("v",):
                        out.append(("mt", k.check_batch, (nic, sh, kind, how, z), {}))
        for nx in range(0, 4):
            out.append(("mt", k.check_verify, (nic, nx), dict(fn="groth16::verifier::batch::Item::verify_single")))
    for n in (7, 8, 9, 16, 17, 31, 33, 64, 65, 100, 129, 257):
        for nic in (1, 2, 3):
            out.append(("mt", k.check_batch, (nic, (nic - 1,) * n, "v", "parts", () if nic < 3 else (0, n // 2)), {}))
            for bad in (0, n // 2, n - 1):
                out.append(("mt", k.check_batch, (nic, tuple(nic - 1 + (i == bad) for i in range(n)), "v", "parts", ()), {}))
    for nic in (9, 17, 33, 65, 129, 257):
        for n in (1, 2, 3):
            out.append(("mt", k.check_batch, (nic, (nic - 1,) * n, "v", "refs", ()), {}))
            out.append(("mt", k.check_batch, (nic, (nic - 1,) * (n - 1) + (nic - 2,), "v", "parts", ()), {}))
    for nic in (2, 3):
        for parts in (((0, 0, 0, 0), (0, 0, 0, 1)), ((0, 0, 0, 0), (0, 0, 1, 0)), ((0, 0, 0, 0), (0, 1, 0, 0)), ((0, 0, 0, 0), (1, 0, 0, 0)),
                      ((0, 0, 0, 0), (1, 1, 1, 0)), ((0, 0, 0, 0), (1, 1, 1, 1), (0, 0, 0, 2)), ((0, 0, 0, 0), (0, 0, 1, 1), (1, 0, 0, 1)),
                      ((0, 0, 0, 0), (1, 1, 0, 0), (2, 2, 2, 0))):
            for how in ("parts", "refs", "item"):
                out.append(("mt", k.check_batch_shared, (nic, parts, how), {}))
    snark_batch(rep, out, "batch", 16)


@check("C32", RULE_CIRC + "The randomised entry points are interpreted with every draw a fresh symbol: the roles of the secrets are read off the "
       "result; they must be pairwise different draws, all from the caller's generator; the whole key must be the Groth16 key for those "
       "roles; no field element is stored in keys or proofs.", 45, ASSUME_SNARK + (ASSUME_MEXP,))
def c32(rep, tier):
    import snarkchecks as k
    cs = all_circuits(tier, 6, 40)
    use = [c for c in cs if not_free(c)]
    out = scheduled(k.check_random_setup, use, use[2:4], (1, 3)) + scheduled(k.check_random_proof, cs, cs[2:4], (1, 3))
    snark_batch(rep, out + large(k.check_random_proof, tier, 2)[:6] + large(k.check_random_setup, tier, 2)[:6], "randomness", 2)


def not_free(c):
    """every private variable occurs with a non-zero total coefficient"""
    import snark
    return all(any(snark.used(c, s, ("aux", i)) for s in range(3)) for i in range(c.na))


@check("C37", RULE_CIRC + "Setup, proving and verification are interpreted in sequence on satisfied circuits: the equation that verification tests "
       "must be identically zero as a bilinear form with polynomial coefficients.", 40, ASSUME_SNARK + (ASSUME_MEXP,))
def c37(rep, tier):
    import snark, snarkchecks as k
    cs = [c for c in all_circuits(tier, 7, 40) if not_free(c) and k.satisfied(c)]
    cs += [c for c in snark.sat_circuits(400 if tier == "thorough" else 100) if not_free(c)]
    snark_batch(rep, scheduled(k.check_complete, cs, cs[2:4], (1, 3)) + large(k.check_complete, tier), "completeness", 2)


# ------------------------------------------------------------------ serialisation
ASSUME_IO = (ASSUME_MIR, "point decoding of the curve libraries: checked decoding yields only valid points; readers may fail at any read and "
             "deliver any bytes; lengths of queries are those enumerated")


def io_batch(rep, cases, label, size=4):
    p = load()
    batch(rep, cases, lambda r, x: r.attempt("%s %s" % (x[0].__name__, (x[1:],)), lambda: x[0](r, p, *x[1:])), label, size)


def io_sizes(tier):
    import itertools, random
    n = 4 if tier == "thorough" else 3
    vks = [dict(ic=i) for i in range(0, 6)]
    q = ("ic", "h", "l", "a", "b_g1", "b_g2")
    ps = [dict.fromkeys(q, i) for i in range(0, n)]
    ps += [dict({k: 1 for k in q}, **{k: 2 + i}) for i, k in enumerate(q)]
    ps += [dict({k: 0 for k in q}, **{k: 2}) for k in q]
    ps += [dict(zip(q, x)) for x in itertools.permutations((0, 1, 2, 3, 4, 5))][:: 40 if tier == "thorough" else 120]
    vks += [dict(ic=i) for i in (9, 17, 33, 65, 129, 257, 300)]
    ps += [dict({k: 1 for k in q}, **{k: 20 + 30 * i}) for i, k in enumerate(q)]
    ps += [dict({k: 2 for k in q}, **{k: 260 + i}) for i, k in enumerate(q)][:: 1 if tier == "thorough" else 2]
    return vks, ps


@check("C22", "The readers are interpreted on a stream of opaque encodings where every read may fail, every decoding may be refused and every point may "
       "be the identity: the condition under which a value is returned (a decision diagram) must imply that every point passed the required "
       "decoding and, where required, is not the identity; it must hold for all-valid input, and all refusals are I/O errors or invalid data.", 45, ASSUME_IO)
def c22(rep, tier):
    import serial as s
    vks, ps = io_sizes(tier)
    cs = [(s.check_read, "Proof", {}, None)]
    for w, n, c in [("VerifyingKey", n, None) for n in vks] + [("Parameters", n, c) for n in ps for c in (True, False)]:
        if max(n.values()) <= 33:
            cs.append((s.check_read, w, n, c))
            continue
        lay = s.layout(w, n)                # long: bad input at a few places at a time
        q = max(n, key=n.get)
        at = [j for j, x in enumerate(lay) if x[0] == q]
        for h in ((0, 1), (len(at) - 2, len(at) - 1), (len(at) // 2,), (15, 16), (63, 64), (255, 256)):
            h = {at[i] for i in h if i < len(at)}
            if h:
                cs.append((s.check_read, w, n, c, frozenset(h | {len(lay) - 1})))
    io_batch(rep, cs, "read")


@check("C23", "The writers are interpreted with opaque elements; the written sequence must be the documented one, the readers are interpreted on exactly "
       "that sequence and must return every element in its own field and consume everything; a failing write must make writing fail; no partial read or "
       "write may be taken for a complete one; every list also with more than 65536 elements.", 120, ASSUME_IO)
def c23(rep, tier):
    import serial as s
    vks, ps = io_sizes(tier)
    cs = [("Proof", {}, None)] + [("VerifyingKey", n, None) for n in vks] + [("Parameters", n, c) for n in ps for c in (True, False)]
    import errflow
    p = load()
    errflow.partial_io(rep, p, "both crates", "Write")
    errflow.partial_io(rep, p, "both crates", "Read")
    q = ("ic", "h", "l", "a", "b_g1", "b_g2")
    long = [("Parameters", dict({x: 1 for x in q}, **{x: 65537 + i}), i % 2 == 0) for i, x in enumerate(q)]
    io_batch(rep, [(s.check_roundtrip,) + c for c in long], "long round trip", 1)
    io_batch(rep, [(s.check_roundtrip,) + c for c in cs] + [(s.check_write_errors,) + c[:2] for c in cs if c[2] is not False], "round trip")


@check("C24", "The readers are interpreted with length prefixes up to 2^32-1 and the stream ending at every possible read: every path must return an error, "
       "none may panic, and no reservation may exceed 65536 elements.", 250, ASSUME_IO)
def c24(rep, tier):
    import serial as s
    M = 2 ** 32 - 1
    cs = [(s.check_hostile, "Proof", (), e, None) for e in range(0, 3)]
    for n in (M, M - 1, 1 << 31, 1 << 20, 1 << 17):
        cs += [(s.check_hostile, "VerifyingKey", (n,), e, None) for e in range(0, 12)]
        for k in range(6):
            for e in range(7 + 2 * k, 7 + 2 * k + 3):
                cs += [(s.check_hostile, "Parameters", (1,) * k + (n,), e, c) for c in (True, False)]
    cs += [(s.check_hostile, "Parameters", (2,) * 6, e, c) for e in range(0, 24) for c in (True, False)]
    cs += [(s.check_hostile, "VerifyingKey", (2,), e, None) for e in range(0, 9)]
    io_batch(rep, cs, "hostile", 16)


@check("C31", "The equality operators are interpreted on two values whose components are independent opaque elements: the result (a decision diagram over "
       "the component equalities) must be their conjunction; different lengths must compare unequal.", 80,
       (ASSUME_MIR, "equality of curve points is an equivalence"))
def c31(rep, tier):
    import serial as s
    vks, ps = io_sizes(tier)
    cs = [(s.check_eq, "Proof", {}, {}, "all")]
    for k in "abc":
        cs.append((s.check_eq, "Proof", {}, {}, [(k, None)]))
    for n in vks:
        cs.append((s.check_eq, "VerifyingKey", n, n, "all"))
        cs += [(s.check_eq, "VerifyingKey", n, m, "all") for m in vks if m != n]
    for n in ps:
        cs.append((s.check_eq, "Parameters", n, n, "all"))
        for f in n:
            cs.append((s.check_eq, "Parameters", n, dict(n, **{f: n[f] + 1}), "all"))
            cs.append((s.check_eq, "Parameters", n, dict(n, **{f: n[f] + 1}), []))
    for n in ps[-3:]:
        for f, i, g in s.layout("Parameters", n):
            if f != "len":
                cs.append((s.check_eq, "Parameters", n, n, [(f, i)]))
    io_batch(rep, cs, "equality", 8)


TECH = {"C25": "error-flow dataflow (typestate of fallible results) over MIR",
        "C34": "effect query over HIR/THIR and the token stream: no unsafe constructs",
        "C28": "abstract interpretation of MIR with an abstract thread pool (all listed schedules)",
        "C29": "abstract interpretation of MIR with an abstract thread pool; results compared as polynomials by position",
        "C11": "witness-dependence analysis: event logs of abstract interpretations of MIR under three knowledge states compared",
        "C14": "effect analysis: event logs on the underlying constraint system and namespace balance on every exit path",
        "C12": "exit-path analysis by abstract interpretation of MIR with unknown witnesses and failing allocations",
        "C19": "exit-path analysis by abstract interpretation of MIR with deficient key material",
        "C24": "panic- and allocation-reachability by abstract interpretation of MIR over truncated and hostile streams",
        "C33": "panic-before-effect analysis by abstract interpretation of MIR"}


@check("C25", "Path search over the MIR of every function of both crates in both builds: from every call that yields a Result (or an Option, ControlFlow or "
       "Waiter carrying one), every path to a return must hand the result on or, on its failing branch, build or propagate an error, hand on the "
       "payload or not return; methods and iterator adaptors that turn failures into values or drop them are violations.", 500,
       (ASSUME_MIR, "conversions (integer, slice, formatting) and sending to a receiver that no longer exists are not failures of an operation",
        "functions outside the two crates propagate the errors of the callbacks they are given"))
def c25(rep, tier):
    import errflow
    for cfg in ("mt", "st"):
        errflow.check(rep, load(cfg), cfg)


@check("C34", "Every body, impl and trait of both crates in both builds (compiler's HIR/THIR) is searched for unsafe blocks, functions, impls and traits "
       "(compiler-generated ones excepted), and the token stream of every source file for the keyword, which covers code switched off by features.", 20,
       (ASSUME_MIR,))
def c34(rep, tier):
    import unsafety
    unsafety.check(rep)


@check("C33", "Each fixed-size gadget is interpreted with every listed wrong size: all paths must refuse (panic or error) and no event on the "
       "constraint system may precede the refusal.", 60)
def c33(rep, tier):
    import gcheck
    p = load()
    batch(rep, gcheck.misuse_cases(), lambda r, c: gcheck.check_misuse(r, p, c), "misuse", 4)
    import mexp, poly
    for cfg in ("mt", "st"):
        q = load(cfg)
        rep.attempt("density " + cfg, lambda: mexp.check_density_misuse(rep, q, cfg))
        rep.attempt("domains " + cfg, lambda: poly.check_sizes_differ(rep, q, cfg))


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    pid = a[0]
    f, rule, floor, assume = CHECKS[pid]
    rep = Report(pid, tier, rule, assume)
    try:
        build.dumps()
    except build.BuildError as e:
        print("build failed: %s" % e)
        return 2
    f(rep, tier)
    return rep.finish(floor)


if __name__ == "__main__":
    sys.exit(main())
