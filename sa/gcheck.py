"""Obligations common to all gadgets: shape independence, error discipline, adaptors, misuse, linear combinations."""
import re
from ops import *

LCT = ("adt", "bellman::LinearCombination", (("rigid", "Scalar"),))
VART = ("adt", "bellman::Variable", ())
CSTR = "bellman::ConstraintSystem"
SC, CSR = ("rigid", "Scalar"), ("rigid", "CS")


def var(kind, k):
    return Adt("bellman::Variable", 0, (Adt("bellman::Index", 0 if kind == "input" else 1, (k,)),))


def mklc(*terms):
    return Adt("bellman::LinearCombination", 0, (Seq([TUP(var(*v), c) for v, c in terms]),))


class Case:
    """one use of a gadget: operands, call"""
    def __init__(self, name, prep, call, p=None):
        self.name, self.prep, self.call, self.p = name, prep, call, p
        self.pure = False


def all_cases(tier="quick"):
    out = [o for o in c02_ops() if not o.pure] + [o for o in c03_ops() if not o.pure] + c05_ops()
    out += [o for o in c06_ops() if not o.pure and " after " not in o.name]
    out += [o for o in c10_ops(TOY, [(n, pat) for n in (0, 1, 11, 12, 13, 25) for pat in ("I", "IINFT", "FT")]) if not o.pure]
    for a in c01_ops():
        out.append(Case(a.name, a.prep, lambda R, x, a=a: a.go(R, x)))
    for q in (TOY, BLS_R):
        for s in (False, True):
            path = NUM + ("::to_bits_le_strict" if s else "::to_bits_le")
            out.append(Case("to_bits_le%s (%d bits)" % ("_strict" if s else "", q.bit_length()), lambda R: R.num("a"),
                            lambda R, a, path=path: R.call(path, [R.I.ref(a), R.cs]), q))
    return out


def numalloc_cases():
    """AllocatedNum::alloc itself"""
    def go(R, _):
        v = Poly.var("a")
        clo = R.env.native((lambda: OK(v)) if R.known else (lambda: ERR(R.missing())))
        return R.call(NUM + "::alloc", [R.cs, clo])
    return [Case("AllocatedNum::alloc", lambda R: None, go)]


# ------------------------------------------------------------------ C11
def rshape(R, v):
    """witness-independent structure of a result"""
    if v is None or v == UNIT:
        return ()
    o = observe(R, v)

    def w(o):
        if isinstance(o, list):
            return tuple(w(x) for x in o)
        if o[0] == "w":
            return w(o[1])
        if o[0] == "v":
            return "v"
        return (o[0], tuple(sorted(((k, c.key()) for k, c in lcdict(o[1]).items()), key=repr)))
    return w(o)


def shape_case(rep, prog, op):
    key = op.name

    def go():
        ref = None
        for mode in ("setup", "setupk", "prove"):
            R = Run(prog, mode, op.p or BLS_R)
            a = op.prep(R)
            R.begin()
            try:
                r = op.call(R, a)
                oc = outcome(R.I, r)
            except Unsupported as e:
                dep = [x for x in R.events() if x.g != TRUE]
                if getattr(R.env, "ctrdep", None) or ("depends on the witness" in str(e)):
                    rep.bad(key + " | %s" % mode, "%s; %s" % (e, ev_str(dep[0]) if dep else ""), where_of(R))
                    return
                raise
            rep.seen(R.I)
            okc, val = FALSE, None
            for c, k, v in oc:
                if k == "ok":
                    okc = bdd.or_(okc, c)
                    val = v if val is None else merge(c, v, val)
            if okc == FALSE:
                cur = ("error",), [], ()
                if mode == "setup":
                    ref = cur
                elif cur[0] != ref[0]:
                    rep.bad(key + " | %s" % mode, "never succeeds, unlike without a witness", where_of(R))
                    return
                continue
            sh, dep = shape(R.events(), okc)
            if dep:
                rep.bad(key + " | %s" % mode, "happens only for some witnesses: %s, %s" % (ev_str(dep[0]), bdd.show(dep[0].g)),
                        dep[0].site[0].path if dep[0].site and dep[0].site[0] else "")
                return
            try:
                rs = rshape(R, val)
            except Unsupported as e:
                if "depends on the witness" in str(e):
                    rep.bad(key + " | %s result" % mode, str(e), where_of(R))
                    return
                raise
            rep.count("events_compared", len(sh))
            if mode == "setup":
                ref = (sh, dep, rs)
            else:
                d = diff_shape(ref[0], sh)
                if d:
                    rep.bad(key + " | %s" % mode, "shape without a witness / with a witness: %s" % short(d, 600), where_of(R))
                    return
                if rs != ref[2]:
                    rep.bad(key + " | %s result" % mode, "the result's variables differ: %s / %s" % (short(repr(ref[2])), short(repr(rs))), where_of(R))
                    return
        rep.ok(key + " | same shape without witness, with witness, proving")
    rep.attempt(key + " | shape", go)


def short(s, n=300):
    s = str(s)
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------ C12
def error_case(rep, prog, op):
    key = op.name

    def support(v):
        v = v if not isinstance(v, U) else None
        if v is None:
            return True
        if isinstance(v, Poly):
            return any(ring.idem[x] or not re.match(r"[xy]\d+$", str(ring.keys[x])) for x in v.vars())
        return True

    def miss():
        S0 = Run(prog, "prove", op.p or BLS_R)
        a = op.prep(S0)
        S0.begin()
        okc = TRUE
        r = op.call(S0, a)
        oc0 = outcome(S0.I, r)
        needs = any(e.k == "alloc" and support(S0.env.wit.get(e.a)) for e in S0.events())
        R = Run(prog, "missing", op.p or BLS_R)
        a = op.prep(R)
        R.begin()
        r = op.call(R, a)
        rep.seen(R.I)
        oc = outcome(R.I, r)
        ps = panics_of(R)
        if ps:
            rep.bad(key + " | missing witness panics", "%s in %s" % (ps[0][0], ps[0][2]), " > ".join(ps[0][3][-4:]))
            return
        got = sorted({str(x[2]) if x[1] == "err" else "ok" for x in oc})
        if needs:
            rep.verdict(key + " | missing witness", got == ["AssignmentMissing"],
                        "expected Err(AssignmentMissing), got %s" % got, where_of(R))
        elif S0.bitvars or S0.numvars:
            # the value happens not to depend on the unknown operands: asking for them is legitimate too
            exp = {str(x[2]) if x[1] == "err" else "ok" for x in oc0}
            rep.verdict(key + " | missing witness", set(got) <= exp | {"AssignmentMissing"}, "got %s" % got, where_of(R))
        else:
            exp = sorted({str(x[2]) if x[1] == "err" else "ok" for x in oc0})
            rep.verdict(key + " | no witness needed", got == exp, "expected %s, got %s" % (exp, got), where_of(R))
    rep.attempt(key + " | missing witness", miss)

    def partly():
        """one operand unknown, in a constraint system that goes on when a value cannot be computed: every value that is
        computed all the same is the right one"""
        S0 = Run(prog, "prove", op.p or BLS_R)
        a = op.prep(S0)
        S0.begin()
        op.call(S0, a)
        names = []
        for n in list(S0.bitvars.values()) + list(S0.numvars.values()):
            n = n[0] if isinstance(n, tuple) else n
            if n not in names:
                names.append(n)
        if len(names) > 4:
            names = [names[0], names[1], names[len(names) // 2], names[-1]]
        if len(names) < 2:
            return
        for nm in names:
            for probe in (False, True):
                R = Run(prog, "missing", op.p or BLS_R, unknown={nm})
                a = op.prep(R)
                R.begin()
                R.env.probe = [] if probe else None
                label = "%s | %s unknown" % (key, nm)
                try:
                    r = op.call(R, a)
                except Diverge:
                    if not probe:
                        raise
                    r = None        # the caller let the gadget go on after an error
                rep.seen(R.I)
                if not probe:
                    ps = panics_of(R)
                    if ps:
                        rep.bad(label + " | panics", "%s in %s" % (ps[0][0], ps[0][2]), " > ".join(ps[0][3][-4:]))
                        return
                    for c, k, v in outcome(R.I, r):
                        if k == "err" and v not in ("AssignmentMissing", getattr(op, "err", None)):
                            rep.bad(label + " | outcome", "Err(%s)" % (v,), where_of(R))
                            return
                    got = [(k, "ok", v, TRUE) for k, v in R.env.wit.items()]
                    okc = FALSE
                    for c, k, v in outcome(R.I, r):
                        if k == "ok":
                            okc = bdd.or_(okc, c)
                else:
                    got, okc = R.env.probe, TRUE
                for k, kind, v, g in got:
                    g = bdd.and_(g, okc)
                    if kind != "ok" or g == FALSE:
                        continue
                    h = S0.env.wit.get(k)
                    if h is None:
                        continue
                    if not isinstance(h, Poly) or not isinstance(v, Poly):
                        raise Unsupported("assigned value %r" % (v,))
                    d = modq(v - h, R.env.p)
                    if d.is_zero():
                        continue
                    n = len([x for x in d.vars() if ring.idem[x]])
                    if n > 12:
                        rep.und(label, "%s assigned %s" % (k, short(repr(v))))
                        return
                    z = nonzero_cond(d, g)
                    if z != FALSE:
                        rep.bad(label + " | substituted value", "%s is assigned %s although the operand is unknown%s; with it known: %s, %s" % (
                            k, short(repr(v)), " (the constraint system goes on after an error)" if probe else "", short(repr(h)), bdd.show(z)), where_of(R))
                        return
        rep.ok(key + " | each operand unknown in turn")
    rep.attempt(key + " | one operand unknown", partly)

    def failing():
        bad = False
        n = 0
        for k, R, r in faults(prog, op):
            n += 1
            ps = panics_of(R)
            oc = outcome(R.I, r) if r is not None else []
            if ps or r is None:
                w = ps[0] if ps else R.I.panics[-1]
                rep.bad(key + " | failing allocation panics", "allocation %d fails: %s in %s" % (k, w[0], w[2]), " > ".join(w[3][-4:]))
                return
            if [x[1:] for x in oc] != [("err", ("allocerr", k))]:
                rep.bad(key + " | failing allocation", "allocation %d fails with an error, the gadget returns %s" % (
                    k, [x[1] if x[1] == "ok" else "Err(%s)" % (x[2],) for x in oc]), where_of(R) or op.name)
                return
            rep.seen(R.I)
        rep.count("failing_allocations", n)
        rep.ok(key + " | %d allocation failures propagate" % n)
    rep.attempt(key + " | failing allocation", failing)


def faults(prog, op):
    """runs of the gadget in which the k-th allocation fails -> (k, run, result or None if it diverges)"""
    R0 = Run(prog, "setup", op.p or BLS_R)
    a = op.prep(R0)
    R0.begin()
    op.call(R0, a)
    n = sum(e.k == "alloc" for e in R0.events())
    ks = range(n)
    if n > 40:
        ks = sorted({0, 1, 2, n // 5, n // 3, n // 2, 3 * n // 4, n - 3, n - 2, n - 1})
    elif n > 8 and op.name.startswith("UInt32"):
        ks = sorted({0, 1, n // 2, n - 2, n - 1})
    for k in ks:
        R = Run(prog, "setup", op.p or BLS_R)
        a = op.prep(R)
        R.begin()
        R.env.failat = R.env.nalloc + k
        R.env.failtag = k
        try:
            r = op.call(R, a)
        except Diverge:
            r = None
        yield k, R, r


# ------------------------------------------------------------------ C13
def check_lc(rep, prog):
    """LC (+|-) {variable, (coeff, variable), &LC, (coeff, &LC)}: value changes by exactly the term"""
    k = Poly.var("k")
    va, vb, vc = ("input", 0), ("aux", 0), ("aux", 1)
    c = [Poly.var("c%d" % i) for i in range(6)]
    bases = [(), ((va, c[0]),), ((va, c[0]), (vb, c[1])), ((vb, c[1]), (vb, c[2]), (va, c[0])), ((vc, ZERO), (va, ONE), (vb, -ONE))]
    others = [(), ((vb, c[3]),), ((vb, c[3]), (vc, c[4])), ((vb, c[3]), (vb, c[4]), (va, c[5])), ((va, ZERO), (vc, ONE), (vb, -ONE))]
    coefs = [k, ZERO, ONE, -ONE, Poly.const(2)]
    vs = [va, vb, vc, ("input", 1)] + [("aux", 2 + i) for i in range(60)]
    vs += [x for k in (300, 512, 70000, 1 << 33) for x in (("aux", k), ("input", k), ("aux", k + 1))]
    far = vs[-3:] + vs[-6:-3]
    bases.append(tuple((v, c[i % 3]) for i, v in enumerate(far)))
    others.append(tuple((v, c[3 + i % 3]) for i, v in enumerate(far[1:] + far[:1])))
    for n in (7, 9, 17, 33, 65, 140, 600):
        bases.append(tuple((vs[i * 5 % len(vs)], c[i % 3] if i % 4 else ONE) for i in range(n)))
        others.append(tuple((vs[i * 3 % len(vs)], c[3 + i % 3] if i % 5 else -ONE) for i in range(n)))
    F = ("rigid", "Scalar")
    forms = {"Variable": (VART, lambda R: [(var(*v), {v: ONE}) for v in (va, vb, vc) + tuple(far)]),
             "(coeff, Variable)": (("tuple", (F, VART)), lambda R: [(TUP(q, var(*v)), {v: q}) for q in coefs for v in (va, vb) + tuple(far)]),
             "&LinearCombination": (("ref", False, LCT), lambda R: [(R.I.ref(mklc(*o)), lcsum(o, ONE)) for o in others]),
             "(coeff, &LinearCombination)": (("tuple", (F, ("ref", False, LCT))),
                                             lambda R: [(TUP(q, R.I.ref(mklc(*o))), lcsum(o, q)) for q in coefs for o in others])}

    def lcsum(o, q):
        d = {}
        for v, x in o:
            d[v] = d.get(v, ZERO) + x * q
        return d
    for opn, sgn in (("Add", 1), ("Sub", -1)):
        for nm, (t, mk) in forms.items():
            key = "LinearCombination %s %s" % ("+" if sgn > 0 else "-", nm)

            def go():
                R = Run(prog, "setup")
                n = 0
                im = prog.find_impl("core::ops::arith::" + opn, (LCT, t))
                if im is None:
                    raise MissingAnchor("no implementation of %s for %s" % (opn, nm))
                for b in bases:
                    for arg, d in mk(R):
                        p0 = len(R.I.panics)
                        r = R.I.call_trait("core::ops::arith::" + opn, opn.lower(), LCT, [mklc(*b), arg], (t,))
                        got = {v: q for v, q in lcdict(R.env.lc(r)).items() if not q.is_zero()}
                        for v in list(got):
                            # zero tests of coefficients: the same coefficient in every case counts as equal
                            w = lcsum(b, ONE).get(v, ZERO) + d.get(v, ZERO).scale(sgn)
                            if not (got[v] - w).is_zero() and cases.always_zero(got[v] - w) is None:
                                got[v] = w
                        exp = lcsum(b, ONE)
                        for v, q in d.items():
                            exp[v] = exp.get(v, ZERO) + q.scale(sgn)
                        exp = {v: q for v, q in exp.items() if not q.is_zero()}
                        got = {v: q for v, q in got.items() if not q.is_zero()}
                        n += 1
                        if got != exp:
                            rep.bad(key, "%s %s %s gives %s, expected %s" % (list(b), "+-"[sgn < 0], d, got, exp),
                                    prog.fns[im[0].fns[opn.lower()]].path)
                            return
                        if len(R.I.panics) > p0:
                            rep.bad(key, "panics: %s" % R.I.panics[-1][0])
                            return
                rep.seen(R.I)
                rep.ok(key + " (%d operand shapes)" % n)
                rep.count("operand_shapes", n)
            rep.attempt(key, go)

    def zero():
        R = Run(prog, "setup")
        r = R.call("bellman::LinearCombination::zero", [])
        rep.verdict("LinearCombination::zero", not any(not q.is_zero() for q in lcdict(R.env.lc(r)).values()), "is not zero")
    rep.attempt("LinearCombination::zero", zero)

    def asref():
        R = Run(prog, "setup")
        b = bases[3]
        r = R.I.call_trait("core::convert::AsRef", "as_ref", LCT, [R.I.ref(mklc(*b))], (("slice", ("tuple", (VART, F))),))
        s = R.I.seq(r).i
        got = [(R.env.varkey(t.i[0]), t.i[1]) for t in s]
        d = {}
        for v, q in got:
            d[v] = d.get(v, ZERO) + q
        rep.verdict("LinearCombination::as_ref", d == lcsum(b, ONE), "terms listed: %s" % got)
    rep.attempt("LinearCombination::as_ref", asref)

    # the running sums used by gadgets are built on it
    def num():
        R = Run(prog, "prove")
        a = R.num("a")
        n = R.I.call_trait("core::convert::From", "from", ("adt", LNUM, (F,)), [a], (("adt", NUM, (F,)),))
        lc = R.env.lc(R.call(LNUM + "::lc", [R.I.ref(n), k]))
        av = list(R.numvars)[0]
        rep.verdict("Num::lc scales by its coefficient", lcdict(lc) == {av: k}, "%s" % lc)
        z = R.call(LNUM + "::zero", [])
        rep.verdict("Num::zero is empty", not [1 for q in lcdict(R.env.lc(R.call(LNUM + "::lc", [R.I.ref(z), k]))).values() if not q.is_zero()], "")
    rep.attempt("Num", num)


# ------------------------------------------------------------------ C14
def csm(I, selfty, n, args):
    """call a ConstraintSystem method of an adaptor type"""
    prog = I.prog
    tr = CSTR
    extra = tuple(("rigid", "x%d" % i) for i in range(5))
    r = prog.find_impl(tr, (selfty, SC))
    f = FnDef.__new__(FnDef)
    f.k, f.p, f.tr, f.n = "fndef", tr + "::" + n, tr, n
    d = prog.by_path.get(tr + "::" + n)
    f.key = d[0].key if d else tr + "::" + n
    f.a = (selfty, SC) + extra
    f.ntr, f.hasdef, f.ctor, f.vi, f.memo = 2, bool(d), None, 0, None
    return I.call_def(f, args)


def scenario(R, T, me):
    """one use of everything a constraint system offers"""
    I, env = R.I, R.env
    nat = env.native
    ann = lambda s: nat(lambda: Opq("ann", s))
    out = []

    def lcf(*terms):
        def f(lc):
            return Adt("bellman::LinearCombination", 0, (Seq(list(I.seq(lc.f[0]).i) + [TUP(var(*v), c) for v, c in terms]),))
        return nat(f)
    x, y, z = Poly.var("x"), Poly.var("y"), Poly.var("z")
    out.append(csm(I, T, "alloc", [me, ann("a"), nat(lambda: OK(x))]))
    out.append(csm(I, T, "alloc_input", [me, ann("b"), nat(lambda: OK(y))]))
    csm(I, T, "enforce", [me, ann("c"), lcf((("aux", 0), x)), lcf((("input", 0), y)), lcf((("aux", 7), z), (("aux", 0), ONE))])
    out.append(csm(I, T, "alloc", [me, ann("d"), nat(lambda: ERR(R.missing()))]))
    out.append(csm(I, T, "alloc_input", [me, ann("d2"), nat(lambda: ERR(R.missing()))]))
    out.append(csm(I, T, "one", []))
    return out


def use_namespace(R, T, me, depth=2):
    I, env = R.I, R.env
    ann = env.native(lambda: Opq("ann", "ns%d" % depth))
    ns = csm(I, T, "namespace", [me, ann])
    root = I.prog.norm(("proj", CSTR, "Root", (T, SC))) if False else None
    return ns


def ev_cmp(e):
    a = e.site[1] if e.site else None
    if e.k == "enforce":
        return (e.k, e.a, repr(a))
    return (e.k, e.a, repr(a))


def check_adaptors(rep, prog):
    NS = lambda t: ("adt", "bellman::Namespace", (None, SC, t))
    REFM = lambda t: ("ref", True, t)
    MQ = lambda t: ("adt", MEQ, (SC, t))

    def run(mode, wrap):
        R = Run(prog, mode, ann=True)
        R.env.one = var("input", 3)   # a system with its own `one`
        R.begin()
        T, me, close = wrap(R)
        n1 = len(R.I.log)
        out = scenario(R, T, me)
        n2 = len(R.I.log)
        close()
        return R, out, R.I.log[:n1], R.I.log[n1:n2], R.I.log[n2:]

    def direct(R):
        return CSR, R.cs, lambda: None

    def by_ref(R):
        return REFM(CSR), R.I.ref(R.cs), lambda: None

    def by_ref2(R):
        return REFM(REFM(CSR)), R.I.ref(R.I.ref(R.cs)), lambda: None

    def ns(R):
        I = R.I
        v = csm(I, CSR, "namespace", [R.cs, R.env.native(lambda: Opq("ann", "n"))])
        c = I.ref(v)
        return NS(CSR), c, lambda: I.drop_at(c.c, (), NS(CSR))

    def nsns(R):
        I = R.I
        T, me, cl = ns(R)
        v = csm(I, T, "namespace", [me, R.env.native(lambda: Opq("ann", "n2"))])
        c = I.ref(v)

        def close():
            I.drop_at(c.c, (), NS(CSR))
            cl()
        return NS(CSR), c, close

    def refns(R):
        I = R.I
        T, me, cl = ns(R)
        return REFM(T), I.ref(me), cl

    def nsref(R):
        I = R.I
        T = REFM(CSR)
        me = I.ref(R.cs)
        v = csm(I, T, "namespace", [me, R.env.native(lambda: Opq("ann", "n"))])
        c = I.ref(v)
        return NS(CSR), c, lambda: I.drop_at(c.c, (), NS(CSR))

    def meq(R):
        I = R.I
        v = R.call(MEQ + "::new", [R.cs])
        c = I.ref(v)
        return MQ(CSR), c, lambda: I.drop_at(c.c, (), MQ(CSR))

    def meqns(R):
        I = R.I
        T, me, cl = meq(R)
        v = csm(I, T, "namespace", [me, R.env.native(lambda: Opq("ann", "n"))])
        c = I.ref(v)

        def close():
            I.drop_at(c.c, (), NS(T))
            cl()
        return NS(T), c, close

    def meqof(R):
        I = R.I
        T, me, cl = nsns(R)
        v = R.call(MEQ + "::new", [me], CS=REFM(T))
        c = I.ref(v)

        def close():
            I.drop_at(c.c, (), MQ(REFM(T)))
            cl()
        return MQ(REFM(T)), c, close

    for nm, w, depth in (("&mut CS", by_ref, 0), ("&mut &mut CS", by_ref2, 0), ("Namespace<CS>", ns, 1),
                         ("Namespace in a Namespace", nsns, 2), ("&mut Namespace<CS>", refns, 1),
                         ("namespace of &mut CS", nsref, 1), ("MultiEq<CS>", meq, 0),
                         ("Namespace<MultiEq<CS>>", meqns, 1), ("MultiEq<&mut Namespace>", meqof, 2)):
        def go(nm=nm, w=w, depth=depth):
            for mode in ("prove", "setup"):
                D = run(mode, direct)
                A = run(mode, w)
                rep.seen(A[0].I)
                ps = A[0].panics()
                if ps:
                    rep.bad(nm + " | panic", ps[0][0], ps[0][2])
                    return
                if [e.k for e in A[2]] != ["push"] * depth:
                    rep.bad(nm + " | opening", "events %s, expected %d push" % ([e.k for e in A[2]], depth))
                    return
                if [e.k for e in A[4]] != ["pop"] * depth:
                    rep.bad(nm + " | closing", "events %s, expected %d pop" % ([e.k for e in A[4]], depth))
                    return
                if A[1] != D[1]:
                    rep.bad(nm + " | results", "results differ: %s / %s" % (D[1], A[1]), nm)
                    return
                x, y = [ev_cmp(e) for e in D[3]], [ev_cmp(e) for e in A[3]]
                if x != y:
                    rep.bad(nm + " | operations", "operations on the underlying system differ: direct %s; through the adaptor %s" % (
                        short(x, 500), short(y, 500)))
                    return
                for k in D[0].env.wit:
                    if D[0].env.wit[k] != A[0].env.wit.get(k):
                        rep.bad(nm + " | values", "assigned value of %s differs" % (k,))
                        return
                rep.ok("%s | %s: %d operations forwarded, %d levels" % (nm, mode, len(y), depth))
                if depth:
                    anns = [repr(e.site[1]) for e in A[2]]
                    if any("ann" not in a for a in anns) or len(set(anns)) != len(anns):
                        rep.bad(nm + " | namespace name", "the namespace's name is not passed on: %s" % anns)
        rep.attempt(nm, go)

    # roots
    def roots():
        R = Run(prog, "setup")
        I = R.I
        R.begin()
        for nm, w, want in (("&mut CS", by_ref, None), ("Namespace<CS>", ns, None), ("Namespace in a Namespace", nsns, None)):
            T, me, cl = w(R)
            r = csm(I, T, "get_root", [me])
            rep.verdict("%s | root" % nm, I.strip(I.rget(r) if isinstance(r, Ref) and not I.rget(r) == CSV else I.rget(r)) == CSV, "get_root gives %r" % (r,))
            cl()
    rep.attempt("roots", roots)

    # explicit push/pop through forwarding adaptors
    for nm, w in (("&mut CS", by_ref), ("MultiEq<CS>", meq)):
        def pp(nm=nm, w=w):
            R = Run(prog, "setup", ann=True)
            R.begin()
            T, me, cl = w(R)
            n = len(R.I.log)
            csm(R.I, T, "push_namespace", [me, R.env.native(lambda: Opq("ann", "q"))])
            csm(R.I, T, "pop_namespace", [me])
            got = [(e.k, repr(e.site[1])) for e in R.I.log[n:]]
            rep.verdict("%s | push and pop are forwarded" % nm, [g[0] for g in got] == ["push", "pop"] and "'q'" in got[0][1], "%s" % got)
        rep.attempt(nm + " | push/pop", pp)

    # trait-provided `one`
    def one():
        R = Run(prog, "setup")
        r = csm(R.I, CSR, "one", [])
        rep.verdict("ConstraintSystem::one is input 0", R.env.varkey(r) == ("input", 0), "%r" % (r,))
    rep.attempt("one", one)


def path_balanced(log):
    """pushes and pops pair up on every path; returns an offending event or None"""
    st = []
    for e in log:
        if e.k == "push":
            st.append([e.g, e])
        elif e.k == "pop":
            h = e.g
            for s in reversed(st):
                c = bdd.and_(s[0], h)
                if c != FALSE:
                    s[0] = bdd.and_(s[0], bdd.not_(c))
                    h = bdd.and_(h, bdd.not_(c))
                if h == FALSE:
                    break
            if h != FALSE:
                return "pop without push", e
            st = [s for s in st if s[0] != FALSE]
    if st:
        return "namespace never released", st[-1][1]
    return None


def balance_case(rep, prog, op):
    def one(label, R):
        rep.seen(R.I)
        b = path_balanced(R.events())
        rep.count("namespace_events", sum(e.k in ("push", "pop") for e in R.events()))
        rep.count("exit_paths", 1)
        if b is not None:
            rep.bad("%s | balanced (%s)" % (op.name, label), "%s: %s" % (b[0], ev_str(b[1])), where_of(R))
            return False
        return True

    def go():
        good = True
        for mode in ("setup", "missing"):
            R = Run(prog, mode, op.p or BLS_R)
            a = op.prep(R)
            R.begin()
            op.call(R, a)
            good = one(mode, R) and good
        for k, R, r in faults(prog, op):
            if r is not None:
                good = one("allocation %d fails" % k, R) and good
        if good:
            rep.ok(op.name + " | namespaces balanced on every exit")
    rep.attempt(op.name + " | balanced", go)


# ------------------------------------------------------------------ C33
def misuse_cases():
    def bools(R, n):
        return R.I.ref(Seq([R.boolean("I", "b%d" % i) for i in range(n)]))

    def table(R, n):
        return R.I.ref(Seq([TUP(Poly.var("x%d" % i), Poly.var("y%d" % i)) for i in range(n)]))
    out = []
    for nm in ("from_bits", "from_bits_be"):
        for n in (0, 1, 31, 33, 64):
            out.append(("UInt32::%s with %d bits" % (nm, n), lambda R, n=n: [bools(R, n)],
                        lambda R, a, nm=nm: R.call(U32 + "::" + nm, a)))
    for nm, tl in (("lookup3_xy", 8), ("lookup3_xy_with_conditional_negation", 4)):
        for nb, nt in ((2, tl), (4, tl), (0, tl), (3, tl - 1), (3, tl + 1), (3, 0), (3, 12 - tl), (3, 2 * tl)):
            if nt == tl and nb == 3:
                continue
            out.append(("%s with %d bits, %d entries" % (nm, nb, nt), lambda R, nb=nb, nt=nt: [R.cs, bools(R, nb), table(R, nt)],
                        lambda R, a, nm=nm: R.call(G + "lookup::" + nm, a)))
    for n in (0, 511, 513, 504, 520, 1024):
        out.append(("sha256_block_no_padding with %d bits" % n, lambda R, n=n: [R.cs, bools(R, n)],
                    lambda R, a: R.call(G + "sha256::sha256_block_no_padding", a)))
    for n in (1, 2, 4, 7, 9, 12, 511, 513):
        out.append(("sha256 with %d bits" % n, lambda R, n=n: [R.cs, bools(R, n)],
                    lambda R, a: R.call(G + "sha256::sha256", a)))
        out.append(("blake2s with %d bits" % n, lambda R, n=n: [R.cs, bools(R, n), R.I.gref(Seq(tuple(b"12345678")))],
                    lambda R, a: R.call(G + "blake2s::blake2s", a)))
    for n in (0, 1, 4, 7, 9, 16):
        out.append(("blake2s with a %d-byte personalisation" % n,
                    lambda R, n=n: [R.cs, bools(R, 8), R.I.gref(Seq(tuple(range(n))))],
                    lambda R, a: R.call(G + "blake2s::blake2s", a)))
    for n in (0, 1, 11, 12, 16):
        for kind in ("a", "c"):
            def prep(R, n=n, kind=kind):
                ws = word_args(R, (kind,) * 2)
                mq = R.call(MEQ + "::new", [R.cs])
                return [R.I.ref(mq), R.I.ref(Seq([M.clone(R.I, ws[i % 2]) for i in range(n)]))]
            out.append(("addmany of %d %s operands" % (n, "allocated" if kind == "a" else "constant"), prep,
                        lambda R, a: R.call(U32 + "::addmany", a, M=("ref", True, MEQT))))
    return out


def check_misuse(rep, prog, case):
    nm, prep, call = case

    def go():
        R = Run(prog, "setup")
        a = prep(R)
        R.begin()
        try:
            r = call(R, a)
        except Diverge:
            r = None
        rep.seen(R.I)
        ev = R.events()
        if r is not None:
            refused = FALSE
            for w, c, *_ in R.panics():
                refused = bdd.or_(refused, c)
            try:
                for c, k, v in outcome(R.I, r):
                    if k == "err":
                        refused = bdd.or_(refused, c)
            except Unsupported:
                pass
            if refused != TRUE:
                rep.bad(nm, "is accepted", where_of(R))
                return
        if ev:
            rep.bad(nm + " | late", "is refused only after touching the constraint system: %s" % ev_str(ev[0]),
                    ev[0].site[0].path if ev[0].site and ev[0].site[0] else "")
            return
        rep.ok(nm + " | refused")
    rep.attempt(nm, go)
