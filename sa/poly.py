"""Evaluation domains and parallel polynomial operations (C29, C30)."""
from pool import *
from gadgets import anchor, outcome, MissingAnchor
import models as M

D = "bellman::domain::EvaluationDomain"
ST = ("rigid", "S")
GT = ("rigid", "G")

def small_field(s):
    """a 200-bit prime with two-adicity s"""
    k = (1 << 200) // (1 << s) | 1
    while True:
        p = k * (1 << s) + 1
        if all(pow(a, p - 1, p) == 1 for a in (2, 3, 5, 7, 11)):
            return p
        k += 2


class DomEnv(PoolEnv):
    def zero_test(self, q):
        """non-zero by the field's structure: roots of unity, the generator g, and g^m - 1 for m up to the domain limit"""
        q = norm(q)
        ks = {ring.keys[v] for v in q.vars()}
        if len(q.t) == 1 and all(k == "gen" or (isinstance(k, tuple) and k[0] in ("omega", "unit")) for k in ks):
            return False
        if ks == {"gen"} and len(q.t) == 2 and q.t.get(()) in (-1, 1) and sorted(abs(c) for c in q.t.values()) == [1, 1]:
            (e,) = [m[0][1] for m in q.t if m]
            if 0 < e <= 1 << self.twoadic and e & (e - 1) == 0:
                return False
        return None


def concrete(env, gen):
    """coefficients are residues modulo p, the field's constants numbers"""
    ring.mod = env.p
    ring.conc = {"gen": gen, ("omega", env.twoadic): pow(gen, (env.p - 1) >> env.twoadic, env.p)}


class Dom:
    """one abstract run over an evaluation domain"""
    def __init__(self, prog, kind="scalar", p=BLS_R, conc=None, **kw):
        ring.rules.clear()
        self.prog = prog
        self.env = DomEnv(p, **kw)
        if conc:
            concrete(self.env, conc)
        self.I = mkrun(prog, self.env, 10 ** 9)
        self.kind = kind
        if kind == "scalar":
            self.S, self.T = ST, ("adt", "bellman::domain::Scalar", (ST,))
        else:
            self.S = ("proj", "group::Group", "Scalar", (GT,))
            self.T = ("adt", "bellman::domain::Point", (GT,))
        self.worker = self.I.ref(self.I.call_fn(anchor(prog, "bellman::multicore::Worker::new"), (), []))

    def elem(self, name):
        if name is None:
            x = ZERO if self.kind == "scalar" else GE("G", {})
        else:
            x = Poly.var(name) if self.kind == "scalar" else GE.base("G", name)
        return Adt(self.T[1], 0, (x,))

    def call(self, n, *args, env=None):
        return self.I.call_fn(anchor(self.prog, D + "::" + n), env or (self.S, self.T), list(args))

    def build(self, vals):
        r = self.I.strip(self.call("from_coeffs", Seq(vals)))
        return r

    def domain(self, names):
        r = self.build([self.elem(n) for n in names])
        if not (isinstance(r, Adt) and r.v == 0):
            raise Unsupported("domain not built: %r" % (r,))
        return self.I.ref(r.f[0])

    def coeffs(self, d):
        fn = anchor(self.prog, D + "::into_coeffs")
        v = self.I.seq(self.I.call_fn(fn, (self.S, self.T), [self.I.rget(d)]))
        return [self.I.strip(x).f[0] for x in v.i]

    def op(self, n, d, *args):
        return self.call(n, d, self.worker, *args)


def same(a, b):
    if isinstance(a, GE):
        return (a - b).is_id()
    return (a - b).is_zero()


def combine(kind, terms, coef):
    if kind == "scalar":
        r = ZERO
        for i, n in terms:
            r = r + Poly.var(n) * coef(i)
        return r
    r = GE("G", {})
    for i, n in terms:
        r = r + GE.base("G", n).mul(coef(i))
    return r


def lin(kind, names, coef):
    """sum coef(i) * element i"""
    if kind == "scalar":
        r = ZERO
        for i, n in enumerate(names):
            if n is not None:
                r = r + Poly.var(n) * coef(i)
        return r
    r = GE("G", {})
    for i, n in enumerate(names):
        if n is not None:
            r = r + GE.base("G", n).mul(coef(i))
    return r


def rootpow(env, m, u, e):
    """u-th power of the m-th root of unity, to the e"""
    w = Poly.var(("omega", env.twoadic))
    if ring.mod:
        return Poly.const(pow(w.cval(), ((1 << env.twoadic) // m * u * e) % (1 << env.twoadic), ring.mod))
    x = ((1 << env.twoadic) // m * u * e) % (1 << env.twoadic)
    (k, _), = w.t.items()
    return norm(Poly({((k[0][0], x),): 1})) if x else ONE


def size_for(n):
    m = 1
    while m < n:
        m *= 2
    return m


def check_size(rep, prog, n, p, label, tag="mt"):
    """from_coeffs: size, padding, order of the root, degree limit"""
    key = "domain from %d coefficients, %s, %s build" % (n, label, tag)
    R = Dom(prog, p=p)
    I = R.I
    names = ["c%d" % i for i in range(n)]
    r = R.build([R.elem(x) for x in names])
    rep.seen(I)
    if I.panics and any(bdd.and_(c if isinstance(c, int) else TRUE, TRUE) != FALSE for _, c, *_ in I.panics):
        return rep.bad(key, "may panic: %s" % (I.panics[0][0],), I.panics[0][2])
    o = outcome(I, r)
    S = R.env.twoadic
    m = size_for(n)
    if m > 1 << S:
        good = len(o) == 1 and o[0][1] == "err" and o[0][2] == "PolynomialDegreeTooLarge"
        return rep.verdict(key, good, "expected the degree error, got %r" % (o[0][1:],))
    if len(o) == 1 and o[0][1] == "err" and o[0][2] == "PolynomialDegreeTooLarge" and m == 1 << S:
        return rep.ok(key)     # the largest size may be refused
    if len(o) != 1 or o[0][1] != "ok":
        return rep.bad(key, "expected a domain, got %r" % (o[0][1:],))
    d = I.ref(o[0][2])
    c = R.coeffs(d)
    if len(c) != m:
        return rep.bad(key, "size %d, expected %d" % (len(c), m))
    for i in range(m):
        w = Poly.var(names[i]) if i < n else ZERO
        if not same(c[i], w):
            return rep.bad(key, "coefficient %d is %r" % (i, c[i]))
    z = I.strip(R.call("z", d, I.ref(Poly.var("tau"))))
    if not (z - (Poly.var("tau") ** m - ONE)).is_zero():
        return rep.bad(key, "vanishing polynomial is %r" % (z,))
    rep.ok(key)


def transforms(rep, prog, m, T, kind, opts, label, sparse=None):
    """fft, ifft, coset forms against their definition and against each other; sparse: only the elements at these
    positions are arbitrary, the others zero"""
    names = ["c%d" % i if sparse is None or i in sparse else None for i in range(m)]
    live = [i for i in range(m) if names[i] is not None]
    lin = lambda kind, names, coef: combine(kind, [(i, names[i]) for i in live], coef)
    memo = {}

    def gpow(i):
        if i not in memo:
            memo[i] = Poly.const(pow(opts["conc"], i, ring.mod)) if ring.mod else Poly.var("gen") ** i
        return memo[i]

    def run(seq):
        R = Dom(prog, kind, threads=T, **opts)
        d = R.domain(names)
        for x in seq:
            if isinstance(x, tuple):
                R.op(x[0], d, *x[1:])
            else:
                R.op(x, d)
        rep.seen(R.I)
        R.env.settle()
        if R.I.panics:
            real = [x for x in R.I.panics if x[1] != FALSE]
            if real:
                return R, None, real[0]
        return R, R.coeffs(d), None

    def expect(key, seq, want, roots=(1,)):
        R, c, pan = run(seq)
        if pan:
            return rep.bad(key, "may panic: %s" % (pan[0],), pan[2])
        if len(c) != m:
            return rep.bad(key, "%d elements instead of %d" % (len(c), m))
        bad = None
        for u in roots:
            bad = None
            for k in range(m):
                w = want(R.env, u, k)
                if not same(c[k], w):
                    bad = (k, c[k], w)
                    break
            if bad is None:
                return rep.ok(key)
        rep.bad(key, "element %d is %.300r, expected %.300r" % bad, D + "::" + str(seq[-1]))
    odd = tuple(range(1, max(2, m), 2))
    tag = "%s, %d elements of %s" % (label, m, kind)
    if sparse is not None:
        tag += " (%d arbitrary)" % len(live)
    at = lambda k, c: combine(kind, [(k, names[k])] if names[k] is not None else [], lambda i: c)
    idn = lambda E, u, k: at(k, ONE)
    expect("fft by definition, " + tag, ["fft"], lambda E, u, k: lin(kind, names, lambda i: rootpow(E, m, u, i * k)), odd)
    expect("coset fft by definition, " + tag, ["coset_fft"],
           lambda E, u, k: lin(kind, names, lambda i: rootpow(E, m, u, i * k) * gpow(i)), odd)
    expect("ifft by definition, " + tag, ["ifft"],
           lambda E, u, k: lin(kind, names, lambda i: rootpow(E, m, u, -i * k).scale(Fraction(1, m))), odd)
    for s in (["fft", "ifft"], ["ifft", "fft"], ["coset_fft", "icoset_fft"], ["icoset_fft", "coset_fft"]):
        expect("%s then %s is the identity, %s" % (s[0], s[1], tag), s, idn)
    h = Poly.var("h")
    expect("distribute_powers, " + tag, [("distribute_powers", h)], lambda E, u, k: at(k, h ** k))
    ring.mod = None if not opts.get("conc") else ring.mod
    zi = poly_inv(gpow(m) - ONE)
    expect("division by the target polynomial, " + tag, ["divide_by_z_on_coset"], lambda E, u, k: at(k, zi))


def pointwise(rep, prog, m, T, kind, opts, label):
    for n in ("mul_assign", "sub_assign"):
        key = "%s, %s, %d elements of %s" % (n, label, m, kind)
        R = Dom(prog, kind, threads=T, **opts)
        names = ["c%d" % i for i in range(m)]
        d = R.domain(names)
        sc = ("adt", "bellman::domain::Scalar", (R.S,))
        if n == "mul_assign":
            vals = [Adt("bellman::domain::Scalar", 0, (Poly.var("d%d" % i),)) for i in range(m)]
            r = R.call("from_coeffs", Seq(vals), env=(R.S, sc))
        else:
            r = R.call("from_coeffs", Seq([R.elem("d%d" % i) for i in range(m)]))
        d2 = R.I.ref(R.I.strip(r).f[0])
        R.op(n, d, d2)
        rep.seen(R.I)
        c = R.coeffs(d)
        bad = None
        for k in range(m):
            a = lin(kind, names, lambda i: ONE if i == k else ZERO)
            if n == "mul_assign":
                b = Poly.var("d%d" % k)
                w = a * b if kind == "scalar" else a.mul(b)
            else:
                w = a - lin(kind, ["d%d" % k], lambda i: ONE)
            if not same(c[k], w):
                bad = "element %d is %r, expected %r" % (k, c[k], w)
                break
        if [x for x in R.I.panics if x[1] != FALSE]:
            bad = "may panic: %s" % R.I.panics[0][0]
        rep.verdict(key, bad is None, bad, D + "::" + n)


def check_sizes_differ(rep, prog, build):
    for kind in ("scalar", "point"):
        for n in ("mul_assign", "sub_assign"):
            for m, m2 in ((2, 4), (4, 2), (1, 2), (8, 1), (4, 8)):
                key = "%s refuses domains of %d and %d elements of %s, %s build" % (n, m, m2, kind, build)
                R = Dom(prog, kind, threads=3)
                d = R.domain(["c%d" % i for i in range(m)])
                sc = ("adt", "bellman::domain::Scalar", (R.S,))
                if n == "mul_assign":
                    vals = [Adt("bellman::domain::Scalar", 0, (Poly.var("d%d" % i),)) for i in range(m2)]
                    r = R.call("from_coeffs", Seq(vals), env=(R.S, sc))
                else:
                    r = R.call("from_coeffs", Seq([R.elem("d%d" % i) for i in range(m2)]))
                d2 = R.I.ref(R.I.strip(r).f[0])
                before = R.coeffs(d)
                try:
                    R.op(n, d, d2)
                    bad = "accepted"
                except Diverge:
                    c = R.coeffs(d)
                    bad = None if all(same(x, y) for x, y in zip(c, before)) else "elements changed before the refusal"
                rep.seen(R.I)
                rep.verdict(key, bad is None, bad, D + "::" + n)
