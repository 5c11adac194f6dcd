"""Checks over the Groth16 protocol functions (C15, C17-C21, C32, C37)."""
from snark import *
import poly as P_

GP = "groth16::generator::generate_parameters"
CP = "groth16::prover::create_proof"
VP = "groth16::verifier::verify_proof"


def run(rep, key, R, fn, where):
    """run fn; -> outcome list, or None after recording a panic"""
    try:
        r = fn()
        R.env.settle()
    except Diverge:
        pn = R.real_panics()
        rep.bad(key, "panics: %s" % (pn and pn[0][0]), pn and str(pn[0][2]) or where)
        return None
    finally:
        rep.seen(R.I)
    if R.real_panics():
        pn = R.real_panics()[0]
        rep.bad(key, "may panic: %s" % pn[0], str(pn[2]))
        return None
    if task_panics(R):
        rep.bad(key, "a task of the pool panics", where)
        return None
    return outcome(R.I, r)


def opts(kw):
    return "".join(", %s=%s" % x for x in sorted(kw.items()))


# ---------------------------------------------------------------- C15
def check_same_system(rep, prog, circ, **kw):
    ones = dict(alpha=1, beta=1, gamma=1, delta=1)
    key = "setup side of circuit '%s'%s" % (circ.name, opts(kw))
    R = SRun(prog, **kw)
    o = run(rep, key, R, lambda: R.generate(circ, ones), GP)
    if o is not None:
        want = spec_key(R.env, circ, secrets=ones)
        if any(not e.nz() for e in want["l"]):
            rep.verdict(key, len(o) == 1 and o[0][1] == "err", "a private variable without constraints must be refused", GP)
        elif len(o) != 1 or o[0][1] != "ok":
            rep.bad(key, "no parameters: %.200r" % (o[0][1:],), GP)
        else:
            d = compare_key(R, o[0][2], want, ("a", "b_g1", "b_g2", "ic", "l"))
            rep.verdict(key, d is None, d and "rows of the constraint system as seen by setup (secrets 1): " + d, GP)
    rows = ("a", "b_g1", "b_g2", "l", "h")
    check_prove(rep, prog, circ, only=lambda n, k: k[0] in rows, r=1, s=1, label="prover side", **kw)
    check_counts(rep, prog, circ, **kw)


COUNTS = {"get_vk": ("num_ic",), "get_h": ("m-1",), "get_l": ("aux",), "get_a": ("inputs", "aux with A"), "get_b_g1": ("in with B", "aux with B"),
          "get_b_g2": ("in with B", "aux with B")}


def counts(circ):
    ua = sum(used(circ, 0, ("aux", i)) for i in range(circ.na))
    ib = sum(used(circ, 1, ("in", i)) for i in range(circ.ni))
    ab = sum(used(circ, 1, ("aux", i)) for i in range(circ.na))
    return {"get_vk": (circ.ni,), "get_h": (size_for(len(circ.rows)) - 1,), "get_l": (circ.na,), "get_a": (circ.ni, ua),
            "get_b_g1": (ib, ab), "get_b_g2": (ib, ab)}


def rigid_source(R, params, asked, fail=None, error="UnconstrainedVariable"):
    """a parameter source outside the library: records what it is asked for, answers from params, fails at one request"""
    I = R.I

    def q(n, start):
        return Seq([R.field0(params, n), start])

    def go(n, args):
        asked.append((n, tuple(args)))
        if n == fail:
            return ERR(serr(I, error))
        if n == "get_vk":
            return OK(I.strip(R.field0(params, "vk")))
        if n in ("get_h", "get_l"):
            return OK(q(n[4:], 0))
        if n in ("get_a", "get_b_g1", "get_b_g2"):
            return OK(Seq([q(n[4:], 0), q(n[4:], args[0])]))
        raise Unsupported("parameter source method %s" % n)
    return go


def prove_from_source(R, circ, asked, fail=None, r="r", s="s", params=None, error="UnconstrainedVariable"):
    if params is None:
        params, n = params_value(R, circ)
    R.env.source = rigid_source(R, params, asked, fail, error)
    R.env.circuit = circ.synth(True)
    return R.fn(CP, Opq("circuit"), Opq("source"), topoly(r), topoly(s))


def check_counts(rep, prog, circ, **kw):
    key = "sizes requested from the key source for circuit '%s'%s" % (circ.name, opts(kw))
    R = SRun(prog, **kw)
    asked = []
    o = run(rep, key, R, lambda: prove_from_source(R, circ, asked), CP)
    if o is None:
        return
    want = counts(circ)
    for n, a in asked:
        if tuple(R.I.strip(x) for x in a) != want[n]:
            return rep.bad(key, "%s is asked for %r elements; the circuit has %r" % (n, a, want[n]), CP)
    if sorted(set(n for n, a in asked)) != sorted(want):
        return rep.bad(key, "requests %r" % (asked,), CP)
    rep.ok(key)


# ---------------------------------------------------------------- C17
def errs(o):
    return all(x[1] == "err" for x in o)


def check_refused(rep, prog, circ, label, secrets=None, p=BLS_R, want=None, **kw):
    key = "setup refuses %s, circuit '%s'%s" % (label, circ.name, opts(kw))
    R = SRun(prog, p=p, **kw)
    o = run(rep, key, R, lambda: R.generate(circ, secrets), GP)
    if o is None:
        return
    good = errs(o) and (want is None or all(x[2] == want for x in o))
    rep.verdict(key, good, "returns %.200r%s" % (o[0][1:], want and ", expected the error %s" % want or ""), GP)


def check_l_full(rep, prog, circ, p=BLS_R, secrets=None, **kw):
    """parameters are returned only without identity in l; returned at all when every private variable is constrained"""
    key = "private-variable query of circuit '%s'%s%s" % (circ.name, secrets and ", " + ",".join("%s=%s" % x for x in sorted(secrets.items())) or "", opts(kw))
    R = SRun(prog, p=p, **kw)
    o = run(rep, key, R, lambda: R.generate(circ, secrets), GP)
    if o is None:
        return
    want = spec_key(R.env, circ, secrets=secrets)
    free = [i for i, e in enumerate(want["l"]) if not e.nz()]
    if free:
        return rep.verdict(key, errs(o), "private variable %d has no effect, yet parameters are returned" % free[0], GP)
    if len(o) != 1 or o[0][1] != "ok":
        return rep.bad(key, "every private variable is constrained, yet %.200r" % (o[0][1:],), GP)
    ident = [i for i, e in enumerate(R.I.seq(R.field(o[0][2], "l")).i) if R.I.strip(e).is_id()]
    rep.verdict(key, not ident, "element %r of the private-variable query is the identity" % ident, GP)


# ---------------------------------------------------------------- C18 (random entry point), C32
def draws_ok(R):
    bad = [k for k, (g, src) in enumerate(R.env.draws) if src != RNG]
    return None if not bad else "draw %d comes from %r, not from the caller's generator" % (bad[0], R.env.draws[bad[0]][1])


def single(c):
    """coefficient polynomial -> draw index if it is exactly one drawn value, else None"""
    c = norm(c)
    ks = [ring.keys[v] for v in c.vars()]
    if len(ks) == 1 and isinstance(ks[0], tuple) and ks[0][0] == "rnd" and c == norm(Poly.var(ks[0])):
        return ks[0][1]
    return None


def check_random_proof(rep, prog, circ, **kw):
    key = "random proof of circuit '%s'%s" % (circ.name, opts(kw))
    where = "groth16::prover::create_random_proof"
    R = SRun(prog, **kw)
    params, n = params_value(R, circ)
    R.env.circuit = circ.synth(True)
    o = run(rep, key, R, lambda: R.fn(where, Opq("circuit"), R.I.ref(params), R.I.ref(RNG), P=("ref", False, PARAMS)), where)
    if o is None:
        return
    if len(o) != 1 or o[0][1] != "ok":
        return rep.bad(key, "no proof: %.200r" % (o[0][1:],), where)
    d = draws_ok(R)
    if d:
        return rep.bad(key, d, where)
    a, b = R.field(o[0][2], "a"), R.field(o[0][2], "b")
    r, s = single(a.t.get(("delta",), ZERO)), single(b.t.get(("delta",), ZERO))
    if r is None or s is None or r == s:
        return rep.bad(key, "blinding of A is %.100r and of B is %.100r: not two separate draws" % (a.t.get(("delta",)), b.t.get(("delta",))), where)
    want = spec_proof(R.env, circ, Poly.var(("rnd", r)), Poly.var(("rnd", s)))
    for nme, w in zip(("a", "b", "c"), want):
        v = R.field(o[0][2], nme)
        if not same_ge(v, w):
            return rep.bad(key, "element %s is %.300r, expected %.300r" % (nme, v, w), where)
    rep.ok(key)


def scalars_in(I, v, seen=None):
    """field elements stored in a value"""
    v = I.strip(v)
    if isinstance(v, Poly):
        return [v]
    if isinstance(v, Adt):
        return [x for f in v.f for x in scalars_in(I, f)]
    if isinstance(v, Seq):
        return [x for f in v.i for x in scalars_in(I, f)]
    if isinstance(v, Ptr):
        return scalars_in(I, I.mem[v.c]) if hasattr(v, "c") else []
    return []


def check_random_setup(rep, prog, circ, **kw):
    key = "random setup of circuit '%s'%s" % (circ.name, opts(kw))
    where = "groth16::generator::generate_random_parameters"
    R = SRun(prog, **kw)
    R.env.circuit = circ.synth(False)
    o = run(rep, key, R, lambda: R.fn(where, Opq("circuit"), R.I.ref(RNG)), where)
    if o is None:
        return
    d = draws_ok(R)
    if d:
        return rep.bad(key, d, where)
    if len(o) != 1 or o[0][1] != "ok":
        return rep.bad(key, "no parameters: %.200r" % (o[0][1:],), where)
    pv = o[0][2]
    vk = R.field(pv, "vk")
    role = {}
    for nme, f in (("alpha", "alpha_g1"), ("beta", "beta_g1"), ("gamma", "gamma_g2"), ("delta", "delta_g1")):
        g = R.field(vk, f).nz()
        if len(g) != 1:
            return rep.bad(key, "%s is %.200r" % (f, g), where)
        (b, c), = g.items()
        if not (isinstance(b, tuple) and b[0] == "rnd"):
            return rep.bad(key, "%s is a multiple of %r, which was not drawn" % (f, b), where)
        role[nme] = single(c)
        if role[nme] is None:
            return rep.bad(key, "the secret %s is %.100r, not a drawn value" % (nme, c), where)
    if len(set(role.values())) != 4:
        return rep.bad(key, "two secrets are the same draw: %r" % role, where)
    tau = set()
    for q in ("h", "a"):
        for e in R.I.seq(R.field(pv, q)).i:
            for c in R.I.strip(e).t.values():
                tau |= {k for k in range(len(R.env.draws)) if mentions(c, ("rnd", k))}
    tau -= set(role.values())
    if len(circ.rows) > 1 and len(tau) != 1:
        return rep.bad(key, "the evaluation point is not one separate draw: %r" % (tau,), where)
    if tau:
        role["tau"] = tau.pop()
        want = spec_key(R.env, circ, g1=("rnd", "G1"), g2=("rnd", "G2"), secrets={n: ("rnd", k) for n, k in role.items()})
        d = compare_key(R, pv, want)
        if d:
            return rep.bad(key, "with roles %r: %s" % (role, d), where)
    sc = scalars_in(R.I, pv)
    if sc:
        return rep.bad(key, "the parameters contain the field element %.100r" % (sc[0],), where)
    rep.ok(key)


def mentions(c, v):
    return ring.var(v) in norm(c).vars()


# ---------------------------------------------------------------- C19
def check_bad_source(rep, prog, circ, **kw):
    for n in COUNTS:
        for error in ("UnconstrainedVariable", "UnexpectedIdentity"):
            key = "key source fails at %s with %s, circuit '%s'%s" % (n, error, circ.name, opts(kw))
            R = SRun(prog, **kw)
            asked = []
            o = run(rep, key, R, lambda: prove_from_source(R, circ, asked, n, error=error), CP)
            if o is None:
                continue
            rep.verdict(key, all(x[1:] == ("err", error) for x in o), "returns %.200r" % (o[0][1:],), CP)


def zero_coeff(v):
    return norm(v).is_zero()


def check_bad_key(rep, prog, circ, tier="quick", **kw):
    """short queries, identity elements, identity delta"""
    def one(label, want, **pk):
        key = "%s, circuit '%s'%s" % (label, circ.name, opts(kw))
        R = SRun(prog, **kw)
        params, n = params_value(R, circ, **pk)
        o = run(rep, key, R, lambda: prove(R, circ, params), CP)
        if o is None:
            return
        if want == "ok":
            return rep.verdict(key, len(o) == 1 and o[0][1] == "ok", "returns %.200r, expected a proof" % (o[0][1:],), CP)
        rep.verdict(key, all(x[1] == "err" and x[2] in want for x in o), "returns %.200r, expected %r" % (o[0][1:], want), CP)
    EOF_ = ("IoError", ("ioerr", "UnexpectedEof"))
    for d in ((False, True), (True, False), (False, False)):
        one("identity delta in %s" % " and ".join(g for g, x in zip(("G1", "G2"), d) if not x), ["UnexpectedIdentity"], delta=d)
    R = SRun(prog)
    n = params_value(R, circ)[1]
    for q in QS:
        for miss in sorted({1, n[q]} - {0}):
            if n[q] >= miss:
                one("query %s is %d of %d elements long" % (q, n[q] - miss, n[q]), [EOF_], sizes={q: n[q] - miss})
    # which witness value multiplies which element
    ex = {"l": [circ.value(("aux", i)) for i in range(circ.na)], "a": [], "b_g1": []}
    for k in circ.idx:
        pass
    for k in [("in", i) for i in range(circ.ni)] + [("aux", i) for i in range(circ.na)]:
        if k[0] == "in" or used(circ, 0, k):
            ex["a"].append(circ.value(k))
        if used(circ, 1, k):
            ex["b_g1"].append(circ.value(k))
    ex["b_g2"] = ex["b_g1"]
    for q in ("l", "a", "b_g1", "b_g2"):
        for i, v in enumerate(ex[q]):
            one("identity as element %d of query %s" % (i, q), "ok" if zero_coeff(v) else ["UnexpectedIdentity"], ident=((q, i),))
    R = SRun(prog)
    H = spec_proof(R.env, circ, ZERO, ZERO)[2]
    for i in range(n["h"]):
        v = H.t.get(("h", i), ZERO)
        one("identity as element %d of query h" % i, "ok" if zero_coeff(v) else ["UnexpectedIdentity"], ident=(("h", i),))


def check_synth_errors(rep, prog, circ, side, **kw):
    """each synthesis error, and each missing value when proving"""
    names = [v["name"] for v in prog.adts["bellman::SynthesisError"]["variants"] if v["name"] != "IoError"]
    for e in names:
        for at in sorted({0, len(circ.steps)}):
            c = Circ("%s, %s reported after %d steps" % (circ.name, e, at), *(circ.steps[:at] + (("fail", e),) + circ.steps[at:]))
            key = "%s returns the circuit's error, circuit '%s'%s" % (side, c.name, opts(kw))
            R = SRun(prog, **kw)
            if side == "setup":
                o = run(rep, key, R, lambda: R.generate(c), GP)
            else:
                pv, n = params_value(R, circ)
                o = run(rep, key, R, lambda: prove(R, c, pv), CP)
            if o is not None:
                rep.verdict(key, all(x[1:] == ("err", e) for x in o), "returns %.200r" % (o[0][1:],), GP if side == "setup" else CP)
    if side == "prover":
        for i in range(len(circ.idx) - 1):
            key = "value of allocation %d missing when proving circuit '%s'%s" % (i, circ.name, opts(kw))
            R = SRun(prog, **kw)
            pv, n = params_value(R, circ)
            o = run(rep, key, R, lambda: prove(R, circ, pv, failalloc=i), CP)
            if o is not None:
                rep.verdict(key, all(x[1:] == ("err", MISSING) for x in o), "returns %.200r" % (o[0][1:],), CP)


def check_too_large(rep, prog, circ, S, side, **kw):
    """more constraints than the field's domains hold"""
    p = P_.small_field(S)
    n = len(circ.rows)
    key = "%s, %d constraints over a field of 2-adicity %d%s" % (side, n, S, opts(kw))
    R = SRun(prog, p=p, **kw)
    if side == "setup":
        o = run(rep, key, R, lambda: R.generate(circ), GP)
    else:
        pv, k = params_value(R, circ)
        o = run(rep, key, R, lambda: prove(R, circ, pv), CP)
    if o is None:
        return
    fits = n <= 2 ** S
    if not fits:
        rep.verdict(key, errs(o), "returns %.100r" % (o[0][1:],), GP if side == "setup" else CP)
    elif side == "setup" and any(not any(used(circ, x, ("aux", i)) for x in range(3)) for i in range(circ.na)):
        rep.verdict(key, errs(o), "a private variable without constraints must be refused", GP)
    elif size_for(n) < 2 ** S:
        rep.verdict(key, len(o) == 1 and o[0][1] == "ok", "returns %.100r" % (o[0][1:],), GP if side == "setup" else CP)
    else:
        rep.ok(key + " (either result)")


# ---------------------------------------------------------------- C20, C21
def vk_value(R, nic, tag=()):
    b = lambda g, *k: GE.base(g, k + tag)
    return adt(R.prog, "groth16::VerifyingKey", {
        "alpha_g1": b("G1", "alpha"), "beta_g1": b("G1", "beta"), "beta_g2": b("G2", "beta"), "gamma_g2": b("G2", "gamma"),
        "delta_g1": b("G1", "delta"), "delta_g2": b("G2", "delta"), "ic": Seq([b("G1", "ic", i) for i in range(nic)])})


def proof_value(R, i=0):
    return adt(R.prog, "groth16::Proof", {"a": GE.base("G1", ("A", i)), "b": GE.base("G2", ("B", i)), "c": GE.base("G1", ("C", i))})


def equation(xs, i=0):
    """e(A,B) - e(alpha,beta) - e(IC(x),gamma) - e(C,delta)"""
    t = {(("A", i), ("B", i)): ONE, (("alpha",), ("beta",)): Poly.const(-1), (("C", i), ("delta",)): Poly.const(-1)}
    for j, x in enumerate([ONE] + list(xs)):
        t[(("ic", j), ("gamma",))] = -topoly(x)
    return GE("Gt", t)


def input_vars(i, n, kind="v"):
    return [Poly.var(("x", i, j)) if kind == "v" else [ZERO, ONE, Poly.const(-1)][j % 3] for j in range(n)]


def check_verify(rep, prog, nic, nx, kind="v", fn=None, **kw):
    fn = fn or VP
    single_ = fn.endswith("verify_single")
    for verdict in (True, False):
        key = "%s with %d key elements and %d inputs (%s), equation %s%s" % (fn.split("::")[-1], nic, nx, kind, verdict, opts(kw))
        R = SRun(prog, **kw)
        R.env.verdicts = [verdict]
        xs = input_vars(0, nx, kind)

        def go():
            pvk = R.fn("groth16::verifier::prepare_verifying_key", R.I.ref(vk_value(R, nic)))
            if single_:
                it = adt(prog, "groth16::verifier::batch::Item", {"proof": proof_value(R), "inputs": Seq(list(xs))})
                return R.fn(fn, it, R.I.ref(pvk))
            return R.fn(fn, R.I.ref(pvk), R.I.ref(proof_value(R)), R.I.ref(Seq(list(xs))))
        o = run(rep, key, R, go, fn)
        if o is None:
            continue
        if nic != nx + 1:
            rep.verdict(key, all(x[1:] == ("err", "InvalidVerifyingKey") for x in o), "returns %.200r, expected InvalidVerifyingKey" % (o[0][1:],), fn)
            continue
        w = [("ok", None)] if verdict else [("err", "InvalidProof")]
        if len(o) != 1 or o[0][1] != w[0][0] or (not verdict and o[0][2] != "InvalidProof"):
            rep.bad(key, "returns %.200r when the pairing equation is %s" % (o[0][1:], verdict), fn)
            continue
        e = equation(xs)
        if len(R.env.tests) != 1 or not ((R.env.tests[0] - e).is_id() or (R.env.tests[0] + e).is_id()):
            rep.bad(key, "the tested equation is %.400r" % (R.env.tests,), fn)
            continue
        rep.ok(key)


def batch_verifier(R, items, how="parts", names=None):
    """Verifier::new + queue; items: [inputs]; names: which opaque A, B, C each proof has"""
    I = R.I

    def proof_value(R, i):
        a, b, c = names[i] if names else (i, i, i)
        return adt(R.prog, "groth16::Proof", {"a": GE.base("G1", ("A", a)), "b": GE.base("G2", ("B", b)), "c": GE.base("G1", ("C", c))})
    VER = "groth16::verifier::batch::Verifier"
    v = I.ref(R.fn(VER + "::new"))
    for i, xs in enumerate(items):
        xs = list(xs)
        IT = ("adt", "groth16::verifier::batch::Item", (ET,))
        PR = ("adt", "groth16::Proof", (ET,))
        if how == "parts":
            item, t = Seq([proof_value(R, i), Seq(xs)]), ("tuple", (PR, VEC(FR)))
        elif how == "refs":
            item, t = Seq([I.ref(proof_value(R, i)), I.ref(Seq(xs))]), ("tuple", (("ref", False, PR), ("ref", False, ("slice", FR))))
        else:
            item, t = adt(R.prog, "groth16::verifier::batch::Item", {"proof": proof_value(R, i), "inputs": Seq(xs)}), IT
        R.fn(VER + "::queue", v, item, I=t)
    return I.rget(v)


def check_batch(rep, prog, nic, shape, kind="v", how="parts", zero=(), **kw):
    """shape: number of inputs of each item"""
    fn = "groth16::verifier::batch::Verifier::verify"
    for verdict in (True, False):
        key = "batch of %s inputs, %d key elements (%s, %s, zero draws %s), equation %s%s" % (list(shape), nic, kind, how, list(zero), verdict, opts(kw))
        R = SRun(prog, **kw)
        R.env.verdicts = [verdict]
        R.env.zero_draws = tuple(zero)
        items = [input_vars(i, n, kind) for i, n in enumerate(shape)]
        o = run(rep, key, R, lambda: R.fn(fn, batch_verifier(R, items, how), RNG, R.I.ref(vk_value(R, nic))), fn)
        if o is None:
            continue
        if any(nic != n + 1 for n in shape):
            rep.verdict(key, all(x[1:] == ("err", "InvalidVerifyingKey") for x in o), "returns %.200r, expected InvalidVerifyingKey" % (o[0][1:],), fn)
            continue
        if not shape and len(o) == 1 and o[0][1] == "ok" and not R.env.tests:
            rep.ok(key)
            continue
        tests = [t for t in R.env.tests]
        exp = verdict if shape else True
        if shape and len(tests) != 1:
            rep.bad(key, "%d pairing tests decide the batch" % len(tests), fn)
            continue
        if not shape:
            if any(not t.is_id() for t in tests):
                rep.bad(key, "the empty batch tests %.200r" % (tests,), fn)
            else:
                rep.ok(key)
            continue
        if len(o) != 1 or (o[0][1] == "ok") != exp or (not exp and o[0][2] != "InvalidProof"):
            rep.bad(key, "returns %.200r when the combined equation is %s" % (o[0][1:], verdict), fn)
            continue
        T = tests[0]
        d = draws_ok(R)
        ws = []
        sg = None
        for i in range(len(shape)):
            c = T.t.get((("A", i), ("B", i)), ZERO)
            k = single(c)
            s = 1
            if k is None:
                k, s = single(-c), -1
            if k is None and len(shape) == 1 and not norm(c).is_zero() and norm(c).cval() is not None:
                sg, ws = 1, [norm(c)]               # a lone item needs no random weight
                break
            if k is None or k in zero:
                d = d or "item %d is weighted by %.100r, not by a non-zero draw" % (i, c)
                break
            if sg not in (None, s):
                d = d or "signs differ"
            sg = s
            ws.append(k)
        if d is None and len(set(ws)) != len(ws):
            d = "two items share the weight of draw %r" % ws
        if d is None:
            E = GE("Gt", {})
            for i, k in enumerate(ws):
                E = E + equation(items[i], i).mul(k if isinstance(k, Poly) else Poly.var(("rnd", k)))
            if not (T - E.mul(Poly.const(sg))).is_id():
                diff = (T - E.mul(Poly.const(sg))).nz()
                d = "the tested equation differs from the weighted sum at %.300r" % (diff,)
        rep.verdict(key, d is None, d, fn)


def check_batch_shared(rep, prog, nic, parts, how="parts", **kw):
    """items that have some elements in common: (a, b, c, inputs) names of each; some assignment of separate draws must explain the test"""
    import itertools
    fn = "groth16::verifier::batch::Verifier::verify"
    key = "batch of items sharing elements %s, %d key elements (%s)%s" % (list(parts), nic, how, opts(kw))
    R = SRun(prog, **kw)
    R.env.verdicts = [True]
    items = [input_vars(p[3], nic - 1) for p in parts]
    o = run(rep, key, R, lambda: R.fn(fn, batch_verifier(R, items, how, [p[:3] for p in parts]), RNG, R.I.ref(vk_value(R, nic))), fn)
    if o is None:
        return
    if len(o) != 1 or o[0][1] != "ok" or len(R.env.tests) != 1:
        return rep.bad(key, "returns %.200r after %d pairing tests" % (o[0][1:], len(R.env.tests)), fn)
    T = R.env.tests[0]
    d = draws_ok(R)
    eqs = []
    for (a, b, c, x), xs in zip(parts, items):
        t = dict(equation(xs).t)
        for k0, k1 in (((("A", 0), ("B", 0)), (("A", a), ("B", b))), ((("C", 0), ("delta",)), (("C", c), ("delta",)))):
            t[k1] = t.pop(k0)
        eqs.append(GE("Gt", t))
    if d is None:
        ks = range(len(R.env.draws))
        for ws in itertools.permutations(ks, len(parts)):
            E = GE("Gt", {})
            for e, k in zip(eqs, ws):
                E = E + e.mul(Poly.var(("rnd", k)))
            if (T - E).is_id() or (T + E).is_id():
                break
        else:
            d = "no assignment of separate draws to the items explains the tested equation %.300r" % (T,)
    rep.verdict(key, d is None, d, fn)


# ---------------------------------------------------------------- C37
def satisfied(circ):
    for row in circ.rows:
        v = [sum((c * circ.value(k) for k, c in row[x].items()), ZERO) for x in range(3)]
        if not norm(v[0] * v[1] - v[2]).is_zero():
            return False
    return True


def check_complete(rep, prog, circ, **kw):
    key = "honest proof of circuit '%s'%s" % (circ.name, opts(kw))
    R = SRun(prog, **kw)
    o = run(rep, key, R, lambda: R.generate(circ), GP)
    if o is None:
        return
    if len(o) != 1 or o[0][1] != "ok":
        return rep.bad(key, "no parameters: %.200r" % (o[0][1:],), GP)
    pv = o[0][2]
    o = run(rep, key, R, lambda: prove(R, circ, pv), CP)
    if o is None:
        return
    if len(o) != 1 or o[0][1] != "ok":
        return rep.bad(key, "no proof: %.200r" % (o[0][1:],), CP)
    pr = o[0][2]
    R.env.verdicts = [True]
    xs = [circ.value(("in", i)) for i in range(1, circ.ni)]

    def ver():
        pvk = R.fn("groth16::verifier::prepare_verifying_key", R.I.ref(R.field(pv, "vk")))
        return R.fn(VP, R.I.ref(pvk), R.I.ref(pr), R.I.ref(Seq(xs)))
    o = run(rep, key, R, ver, VP)
    if o is None:
        return
    if len(o) != 1 or o[0][1] != "ok":
        return rep.bad(key, "verification returns %.200r" % (o[0][1:],), VP)
    left = [norm(c) for t in R.env.tests for c in t.nz().values()]
    left = [c for c in left if not c.is_zero()]
    rep.verdict(key, not left, "the pairing equation is not an identity: %.300r" % (left[:1],), VP)
