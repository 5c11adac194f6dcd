"""Groth16 setup, proving and verification (C15-C21, C32): circuits are scenarios driven through the ConstraintSystem trait; group
elements are linear forms over named generators, pairings bilinear forms, secrets and witnesses field variables in general position."""
from pool import *
from gadgets import anchor, outcome, MissingAnchor
import models as M

ET = ("rigid", "E")
ENG = lambda n: ("proj", "pairing::Engine", n, (ET,))
FR, G1, G2, G1A, G2A = (ENG(n) for n in ("Fr", "G1", "G2", "G1Affine", "G2Affine"))
GLOBAL = ("adt", "alloc::alloc::Global", ())
VEC = lambda t: ("adt", "alloc::vec::Vec", (t, GLOBAL))
ARC = lambda t: ("adt", "alloc::rcs::arc::Arc", (t, GLOBAL))
LCT = ("adt", "bellman::LinearCombination", (FR,))
VART = ("adt", "bellman::Variable", ())
PARAMS = ("adt", "groth16::Parameters", (ET,))
CST = "bellman::ConstraintSystem"
RNG = Opq("rng")
MISSING = "AssignmentMissing"


def serr(I, name):
    vs = [v["name"] for v in I.prog.adts["bellman::SynthesisError"]["variants"]]
    return Adt("bellman::SynthesisError", vs.index(name), ())


class SnarkEnv(PoolEnv):
    circuit = None          # callable(env, cs, cstype) -> Result value
    zero_draws = ()
    verdicts = None         # list: outcome of the n-th pairing equality test (True/False)
    source = None           # rigid parameter source: callable(name, args) -> value
    summary = True

    def start(self, I):
        super().start(I)
        self.draws = []
        self.tests = []
        if self.summary:
            self.over["bellman::multiexp::multiexp"] = self.multiexp
            for f in I.prog.fns.values():
                if f.path.endswith("::from") and f.impl and "bellman::multiexp::Exponent" in f.path:
                    self.over[f.path] = lambda I, a: Adt("bellman::multiexp::Exponent", 9, (I.strip(a[0]),))

    # generic position: a polynomial that is not identically zero is not zero
    def zero_test(self, q):
        return False

    def group_zero_test(self, g):
        if g.g == "Gt":
            if self.verdicts is not None:
                self.tests.append(g)
                return self.verdicts[min(len(self.tests), len(self.verdicts)) - 1]
            return None
        return g.is_id()

    # ------------------------------------------------------------ trait calls
    def trait_call(self, f, args):
        I = self.I
        if f.tr == "bellman::Circuit" and f.n == "synthesize":
            return self.circuit(self, args[1], I.prog.norm(f.a[2]))
        if f.tr in ("ff::Field", "group::Group") and f.n == "random":
            k = len(self.draws)
            src = I.strip(args[0])
            g = "Fr" if f.tr == "ff::Field" else M.gname(f.a[0])
            if I.pc != TRUE:
                raise Unsupported("conditional draw")
            self.draws.append((g, src))
            if g == "Fr":
                return ZERO if k in self.zero_draws else Poly.var(("rnd", k))
            return GE.base(g, ("rnd", g))
        if f.tr == "pairing::Engine" and f.n == "pairing":
            return self.pair([(args[0], args[1])], "Gt")
        if f.tr == "pairing::PairingCurveAffine" and f.n == "pairing_with":
            return self.pair([(args[0], args[1])], "Gt")
        if f.tr == "pairing::MultiMillerLoop" and f.n == "multi_miller_loop":
            return self.pair([x.i for x in I.seq(args[0]).i], "Ml")
        if f.tr == "pairing::MillerLoopResult" and f.n == "final_exponentiation":
            g = I.strip(args[0])
            return GE("Gt", g.t)
        if f.tr == "groth16::ParameterSource" and self.source is not None:
            return self.source(f.n, [I.strip(a) for a in args[1:]])
        return None

    def pair(self, terms, g):
        I = self.I
        out = GE(g, {})
        for a, b in terms:
            a, b = I.strip(a), I.strip(b)
            if not isinstance(a, GE) or not isinstance(b, GE):
                raise Unsupported("pairing of %r and %r" % (a, b))
            if (a.g, b.g) == ("G2", "G1"):
                a, b = b, a
            for k, c in a.t.items():
                for l, d in b.t.items():
                    out = out + GE(g, {(k, l): c * d})
        return out

    def default(self, t):
        if is_rigid(t) and M.gname(t) == "Gt" and t[0] == "proj" and t[2] == "Result":
            return GE("Ml", {})
        return super().default(t)

    def extern(self, f, args):
        h = SX.get(f.p)
        return h(self, self.I, f, args) if h else super().extern(f, args)

    # ------------------------------------------------------------ multi-exponentiation as specified by C26 and C27
    def multiexp(self, I, args):
        pool, src, dens, exps = args
        src = I.rget(src) if isinstance(src, Ref) else src
        cell = I.ref(src)
        nx = anchor(I.prog, "<tuple as bellman::multiexp::Source>::next")
        sk = anchor(I.prog, "<tuple as bellman::multiexp::Source>::skip")

        def go():
            ex = I.seq(exps).i
            d = I.strip(dens)
            flags = [True] * len(ex)
            if isinstance(d, Adt) and d.p.endswith("DensityTracker"):
                flags = [I.strip(x) for x in I.seq([x for x in d.f if isinstance(I.strip(x), Seq)][0]).i]
            acc = GE("?", {})
            err = None
            for i, e in enumerate(ex):
                if flags[i] is False:
                    continue
                if flags[i] is not True:
                    raise Unsupported("density depends on the witness")
                e = I.strip(e)
                v = e.f[0] if e.v == 9 else None
                if v is None:
                    raise Unsupported("exponent %r" % (e,))
                if M.pzero(I, v) is True:
                    o = outcome(I, I.call_fn(sk, (G1A,), [cell, 1]))
                else:
                    o = outcome(I, I.call_fn(nx, (G1A,), [cell]))
                if len(o) != 1:
                    raise Unsupported("source outcome depends on the witness")
                if o[0][1] == "err":
                    r = I.call_fn(nx, (G1A,), [cell]) if M.pzero(I, v) is not True else I.call_fn(sk, (G1A,), [cell, 1])
                    err = r
                    break
                if M.pzero(I, v) is not True:
                    b = I.strip(o[0][2])
                    acc = GE(b.g, acc.t) + b.mul(v)
            if err is not None:
                return err
            return OK(acc)
        d = I.strip(dens)
        if isinstance(d, Adt) and d.p.endswith("DensityTracker"):
            if len(I.seq([x for x in d.f if isinstance(I.strip(x), Seq)][0]).i) != len(I.seq(exps).i):
                M.panic(I, "density of another size")
        cf = anchor(I.prog, "bellman::multicore::Worker::compute")
        return I.call_fn(cf, genv(cf), [pool, self.native(lambda *a: go())])


SX = {}


def sx(*names):
    def d(f):
        for n in names:
            SX[n] = f
        return f
    return d


W_ = "group::wnaf::Wnaf::"


@sx(W_ + "new")
def _wnew(E, I, f, a):
    return Adt("wnaf", 0, ())


def _wsplit(E, I, f, a):
    raise Unsupported("wnaf")


@sx(W_ + "base")
def _wbase(E, I, f, a):
    w = I.strip(a[0])
    if w.v == 2:
        return I.strip(a[1]).mul(w.f[0])
    return Adt("wnaf", 1, (I.strip(a[1]),))


@sx(W_ + "scalar")
def _wscalar(E, I, f, a):
    w = I.strip(a[0])
    if w.v == 1:
        return w.f[0].mul(I.strip(a[1]))
    return Adt("wnaf", 2, (I.strip(a[1]),))


@sx(W_ + "shared")
def _wshared(E, I, f, a):
    return I.strip(a[0])


# ---------------------------------------------------------------- circuits
class Circ:
    """a circuit: list of steps, run through the ConstraintSystem trait.
    ("in", value) ("aux", value) ("con", A, B, C) with A.. = [(variable, coefficient)], variable 0 = the constant one, else the n-th
    allocation (from 1); ("ns",) ("pop",); ("fail", error name)"""

    def __init__(self, name, *steps):
        self.name = name
        self.steps = steps
        self.kinds = ["in"] + [s[0] for s in steps if s[0] in ("in", "aux")]
        self.vals = [ONE] + [topoly(s[1]) for s in steps if s[0] in ("in", "aux")]
        ni = na = 0
        self.idx = []
        for k in self.kinds:
            if k == "in":
                self.idx.append(("in", ni))
                ni += 1
            else:
                self.idx.append(("aux", na))
                na += 1
        self.ni, self.na = ni, na
        rows = []
        for s in steps:
            if s[0] == "con":
                rows.append(tuple(self.row(x) for x in s[1:4]))
        for i in range(ni):
            rows.append(({("in", i): ONE}, {}, {}))
        self.rows = rows

    def row(self, terms):
        out = {}
        for v, c in terms:
            k = self.idx[v]
            out[k] = out.get(k, ZERO) + topoly(c)
        return out

    def fails(self):
        for s in self.steps:
            if s[0] == "fail":
                return s[1]
        return None

    def value(self, k):
        return self.vals[self.idx.index(k)]

    def synth(self, witness, failalloc=None):
        """witness: value closures return values; otherwise they report a missing assignment"""
        def run(env, cs, cst):
            I = env.I
            text = env.native(lambda *a: "x")
            nm = ("rigid", "NT")
            vars_ = [Adt("bellman::Variable", 0, (Adt("bellman::Index", 0, (0,)),))]
            env.asked = getattr(env, "asked", 0)
            if not hasattr(self, "csref"):
                pass

            def lc(terms):
                def go(z):
                    v = z
                    for x, c in terms:
                        c = topoly(c)
                        if c == ONE:
                            v = I.call_trait("core::ops::arith::Add", "add", LCT, [v, vars_[x]], (VART,))
                        elif c == Poly.const(-1):
                            v = I.call_trait("core::ops::arith::Sub", "sub", LCT, [v, vars_[x]], (VART,))
                        else:
                            v = I.call_trait("core::ops::arith::Add", "add", LCT, [v, Seq([c, vars_[x]])], (("tuple", (FR, VART)),))
                    return v
                return env.native(go)
            n = 0
            for s in self.steps:
                if s[0] in ("in", "aux"):
                    val = topoly(s[1])
                    if witness and n != failalloc:
                        f = env.native(lambda v=val: OK(v))
                    else:
                        f = env.native(lambda: ERR(serr(I, MISSING)))
                    n += 1
                    r = I.call_trait(CST, "alloc_input" if s[0] == "in" else "alloc", cst, [cs, text, f], (FR,), (nm, nm, nm))
                    o = outcome(I, r)
                    if len(o) != 1:
                        raise Unsupported("allocation outcome")
                    if o[0][1] == "err":
                        return r
                    vars_.append(I.strip(o[0][2]))
                elif s[0] == "con":
                    I.call_trait(CST, "enforce", cst, [cs, text] + [lc(x) for x in s[1:4]], (FR,), (nm,) * 5)
                elif s[0] == "ns":
                    I.call_trait(CST, "push_namespace", cst, [cs, text], (FR,), (nm, nm))
                elif s[0] == "pop":
                    I.call_trait(CST, "pop_namespace", cst, [cs], (FR,), ())
                elif s[0] == "root":
                    cs2 = I.call_trait(CST, "get_root", cst, [cs], (FR,), ())
                    cs = cs2
                elif s[0] == "fail":
                    return ERR(serr(I, s[1]))
            return OK(UNIT)
        return run


def topoly(x):
    return x if isinstance(x, Poly) else Poly.const(x) if isinstance(x, int) else Poly.var(x)


class SRun:
    def __init__(self, prog, p=BLS_R, summary=True, conc=None, **kw):
        ring.rules.clear()
        self.prog = prog
        self.env = SnarkEnv(p, **kw)
        if conc:                          # generator of the field: coefficients are residues modulo p
            from poly import concrete
            concrete(self.env, conc)
        self.env.summary = summary
        self.I = mkrun(prog, self.env, 10 ** 9)

    def fn(self, path, *args, **over):
        f = anchor(self.prog, path)
        return self.I.call_fn(f, genv(f, **over), list(args))

    def field(self, v, name):
        v = self.I.strip(v)
        vs = self.prog.adts[v.p]["variants"][v.v]["fields"]
        names = [x["n"] if isinstance(x, dict) else x[0] if isinstance(x, (list, tuple)) else x for x in vs]
        return self.I.strip(v.f[names.index(name)])

    def field0(self, v, name):
        v = self.I.strip(v)
        names = [f[0] for f in self.prog.adts[v.p]["variants"][v.v]["fields"]]
        return v.f[names.index(name)]

    def generate(self, circ, secrets=None):
        I = self.I
        s = dict(alpha="alpha", beta="beta", gamma="gamma", delta="delta", tau="tau")
        s.update(secrets or {})
        self.env.circuit = circ.synth(False)
        return self.fn("groth16::generator::generate_parameters", Opq("circuit"), GE.base("G1", "g1"), GE.base("G2", "g2"),
                       *[topoly(s[k]) for k in ("alpha", "beta", "gamma", "delta", "tau")])

    def real_panics(self):
        return [x for x in self.I.panics if x[1] != FALSE]


# ---------------------------------------------------------------- specification
def lagrange(env, m, tau):
    """L_j(tau) over the domain of size m: (1/m) sum_i (tau w^-j)^i"""
    import poly
    out = []
    for j in range(m):
        p = ZERO
        for i in range(m):
            p = p + (tau ** i) * poly.rootpow(env, m, 1, -i * j)
        out.append(p.scale(Fraction(1, m)))
    return out


def size_for(n):
    m = 1
    while m < n:
        m *= 2
    return m


def spec_key(env, circ, g1="g1", g2="g2", secrets=None):
    """expected parameters as {field: value}"""
    s = dict(alpha="alpha", beta="beta", gamma="gamma", delta="delta", tau="tau")
    s.update(secrets or {})
    s = {k: topoly(v) for k, v in s.items()}
    m = size_for(len(circ.rows))
    L = lagrange(env, m, s["tau"])
    gi, di = poly_inv(s["gamma"]), poly_inv(s["delta"])
    A = lambda k: GE.base("G1", g1).mul(k)
    B = lambda k: GE.base("G2", g2).mul(k)
    z = s["tau"] ** m - ONE
    out = {"alpha_g1": A(s["alpha"]), "beta_g1": A(s["beta"]), "beta_g2": B(s["beta"]), "gamma_g2": B(s["gamma"]),
           "delta_g1": A(s["delta"]), "delta_g2": B(s["delta"])}
    out["h"] = [A(s["tau"] ** i * z * di) for i in range(m - 1)]
    a, b1, b2, ic, l = [], [], [], [], []
    for k in [("in", i) for i in range(circ.ni)] + [("aux", i) for i in range(circ.na)]:
        u = [sum((L[j] * r[x][k] for j, r in enumerate(circ.rows) if k in r[x]), ZERO) for x in range(3)]
        if not norm(u[0]).is_zero():
            a.append(A(u[0]))
        if not norm(u[1]).is_zero():
            b1.append(A(u[1]))
            b2.append(B(u[1]))
        e = s["beta"] * u[0] + s["alpha"] * u[1] + u[2]
        if k[0] == "in":
            ic.append(A(e * gi))
        else:
            l.append(A(e * di))
    out.update(a=a, b_g1=b1, b_g2=b2, ic=ic, l=l)
    return out


VK = ("alpha_g1", "beta_g1", "beta_g2", "gamma_g2", "delta_g1", "delta_g2", "ic")
QS = ("h", "l", "a", "b_g1", "b_g2")


def same_ge(x, y):
    return isinstance(x, GE) and isinstance(y, GE) and (x.g == y.g or not x.t or not y.t) and (x - y).is_id()


def compare_key(R, params, want, only=None):
    """-> None or a description of the first difference"""
    I = R.I
    vk = R.field(params, "vk")
    for n in VK + QS:
        if only and n not in only:
            continue
        v = R.field(vk if n in VK else params, n)
        w = want[n]
        if isinstance(w, list):
            items = [I.strip(x) for x in I.seq(v).i]
            if len(items) != len(w):
                return "%s has %d elements, expected %d" % (n, len(items), len(w))
            for i, (x, y) in enumerate(zip(items, w)):
                if not same_ge(x, y):
                    return "%s[%d] is %.300r, expected %.300r" % (n, i, x, y)
        elif not same_ge(v, w):
            return "%s is %.300r, expected %.300r" % (n, v, w)
    return None


# ---------------------------------------------------------------- circuits used by the checks
def circuits(tier="quick"):
    V = Poly.var
    x, y, z = V("x"), V("y"), V("z")
    out = [
        Circ("no variables"),
        Circ("one input", ("in", x)),
        Circ("product", ("in", x * y), ("aux", x), ("aux", y), ("con", [(2, 1)], [(3, 1)], [(1, 1)])),
        Circ("aux before input", ("aux", x), ("in", x * x), ("con", [(1, 1)], [(1, 1)], [(2, 1)])),
        Circ("interleaved with symbolic coefficients", ("aux", x), ("in", y), ("con", [(1, "k1"), (0, "k2")], [(2, "k3")], [(3 - 2, 1)]),
             ("in", z), ("aux", x * y), ("con", [(3, 2), (4, 1)], [(1, 1), (0, "k4")], [(2, -1), (4, "k5")])),
        Circ("zero coefficients", ("in", x), ("aux", y), ("aux", z), ("con", [(2, 0), (1, 1)], [(3, 0), (0, 1)], [(1, 1)]),
             ("con", [(2, 1)], [(0, 1)], [(2, 1)]), ("con", [(0, 1)], [(3, 1)], [(3, 1)])),
        Circ("repeated variable", ("aux", x), ("in", x.scale(3)), ("con", [(1, 1), (1, 2)], [(0, 1)], [(2, 1)]),
             ("con", [(1, 1)], [(0, "k1"), (0, 1)], [(1, "k1"), (1, 1)])),
        Circ("empty sides", ("aux", x), ("con", [], [], []), ("con", [(1, 1)], [], []), ("con", [], [(1, 1)], []), ("con", [], [], [])),
        Circ("only in C", ("aux", x), ("aux", y), ("con", [(0, 1)], [(2, 1)], [(2, 1)]), ("con", [(0, 1)], [(0, 0)], [(1, 0)]),
             ("con", [(0, 0)], [(0, 1)], [(1, 1)])),
        Circ("only in B", ("in", x), ("aux", y), ("con", [(0, 0)], [(2, 1)], [(0, 0)])),
        Circ("namespaces", ("ns",), ("in", x), ("ns",), ("aux", x), ("pop",), ("con", [(1, 1)], [(0, 1)], [(2, 1)]), ("pop",), ("aux", x),
             ("con", [(3, 1)], [(0, 1)], [(2, 1)])),
        Circ("input in every side", ("in", x), ("in", ONE), ("aux", x * x), ("con", [(1, 1)], [(1, 1)], [(3, 1)]),
             ("con", [(2, 1)], [(3, 1)], [(3, 1)]), ("con", [(0, 1)], [(2, 1)], [(1, 0), (2, 1)])),
        Circ("zero witness", ("in", ZERO), ("aux", ZERO), ("aux", x), ("con", [(2, 1)], [(3, 1)], [(1, 1)])),
        Circ("unit witness", ("in", ONE), ("aux", ONE), ("aux", ZERO), ("con", [(2, 1)], [(1, 1)], [(0, 1)]), ("con", [(3, 1)], [(0, 1)], [])),
        Circ("cancelling terms", ("in", x * x), ("aux", x), ("aux", x * x), ("con", [(3, 1), (2, 1), (2, -1)], [(0, 1)], [(1, 1)]),
             ("con", [(0, 1)], [(2, 1), (3, 1), (3, -1)], [(2, 1), (1, 1), (1, -1)])),
        Circ("cancelling input terms", ("in", x), ("aux", x), ("con", [(1, 1), (2, 1), (1, -1)], [(1, "k1"), (0, 1), (1, -Poly.var("k1"))], [(2, 1)]),
             ("con", [(2, 2), (2, -2)], [(2, 1)], [])),
        Circ("root system", ("root",), ("aux", x), ("in", x), ("con", [(1, 1)], [(0, 1)], [(2, 1)])),
    ]
    chain = [("aux", x)]
    for i in range(5):
        chain += [("aux", x ** (i + 2)), ("con", [(i + 1, 1)], [(1, 1)], [(i + 2, 1)])]
    out.append(Circ("chain of five squarings", ("in", x ** 6), *[s if s[0] == "aux" else ("con",) + tuple(
        [(v + 1, c) for v, c in t] for t in s[1:]) for s in chain], ("con", [(7, 1)], [(0, 1)], [(1, 1)])))
    return out


def rand_circuits(n, seed=1, size=(1, 6), symbolic=True):
    """pseudo-random circuit shapes (fixed seed): allocation orders, rows, repeated and cancelling terms"""
    import random
    r = random.Random(seed)
    out = []
    for t in range(n):
        st, nv = [], 0
        for i in range(r.randint(*size)):
            for j in range(r.randint(0, 2)):
                k = r.choice(["in", "aux", "aux"])
                st.append((k, r.choice([ZERO, ONE, Poly.const(2)] + [Poly.var(("w", nv % 2))] * (2 if symbolic else 0))))
                nv += 1
            if r.random() < .2:
                st.append(("ns",))
            if r.random() < .85:
                row = []
                for side in range(3):
                    row.append([(r.randint(0, nv), r.choice([1, 1, 1, -1, 2, 0] + (["k%d" % (t % 2)] if symbolic else []))) for _ in range(r.randint(0, 3))])
                st.append(("con",) + tuple(row))
        out.append(Circ("random %d/%d" % (seed, t), *st))
    return out


def sat_circuits(n, seed=9):
    """pseudo-random satisfied circuits: each row's C side is a fresh variable holding A*B"""
    import random
    r = random.Random(seed)
    out = []
    for t in range(n):
        st, vals = [], [ONE]
        for i in range(r.randint(1, 3)):
            k = r.choice(["in", "aux"])
            v = r.choice([Poly.var(("w", i % 2)), ZERO, ONE, Poly.const(3)])
            st.append((k, v))
            vals.append(v)
        for i in range(r.randint(1, 3)):
            sides = []
            for side in range(2):
                sides.append([(r.randint(0, len(vals) - 1), r.choice([1, 1, -1, 2, 0, "k%d" % (t % 2)])) for _ in range(r.randint(1, 3))])
                if r.random() < .3:
                    q = r.randint(0, len(vals) - 1)
                    sides[-1] = sides[-1] + [(q, 1), (q, -1)]
            ev = [sum((vals[v] * topoly(c) for v, c in s), ZERO) for s in sides]
            pr = norm(ev[0] * ev[1])
            st.append((r.choice(["in", "aux", "aux"]), pr))
            vals.append(pr)
            st.append(("con", sides[0], sides[1], [(len(vals) - 1, 1)]))
        # every variable in some row
        for v in range(1, len(vals)):
            st.append(("con", [(v, 1)] if v % 2 else [(0, 1)], [(v, 1)] if not v % 2 else [(0, 1)], [(v, 1)]))
        out.append(Circ("satisfied random %d" % t, *st))
    return out


def big_circuit(rows, seed=5, p=1009):
    """a chain over constants: many rows, so that the work is split over threads; satisfied modulo p"""
    st = [("in", Poly.const(3)), ("aux", Poly.const(3)), ("con", [(1, 1)], [(0, 1)], [(2, 1)])]
    val = [1, 3, 3]
    for i in range(rows - 1):
        val.append(val[2 + i] * (val[2 + i // 2] + i % 3) % p)
        st += [("in" if i % 5 == 4 and p == 1009 else "aux", Poly.const(val[-1])), ("con", [(2 + i, 1)], [(2 + i // 2, 1), (0, i % 3)], [(3 + i, 1)])]
    return Circ("chain of %d rows" % rows, *st)


def wide_circuit(na, ni, drop=None, cancel=False):
    """few rows over many variables, satisfied; long combinations; optionally one variable in no row;
    cancel: a variable whose terms cancel in two long combinations"""
    st = [("in", Poly.const(i + 2)) for i in range(ni)]
    st += [("aux", Poly.const(3 * i + 1)) for i in range(na)]
    val = [1] + [i + 2 for i in range(ni)] + [3 * i + 1 for i in range(na)]
    nv = 1 + ni + na
    A = [(i, 1 + i % 3) for i in range(1, nv) if i % 3 != 1 and i != drop]
    B = [(i, 1) for i in range(nv - 1, 0, -1) if i % 2 and i != drop]
    a, b = sum(c * val[i] for i, c in A), sum(c * val[i] for i, c in B)
    st += [("aux", Poly.const(a * b)), ("con", A, B, [(nv, 1)])]
    if cancel:
        w = nv + 1
        A2 = [(w, 1)] + A + [(w, -1)]
        B2 = [(w, 2)] + B[:1] + [(w, 1)] + B[1:] + [(w, -3)]
        st += [("aux", Poly.const(5)), ("con", [(0, 1)], [(0, 5)], [(w, 1)]), ("con", A2, B2, [(nv, 1)])]
    if drop:
        val[drop] = 0
    d = 2 if drop != 2 else 1
    st += [("con", [(i, 1) for i in range(1, nv + 1) if i != drop] + [(d, 1)], [(0, 1)],
            [(0, sum(val[1:]) + a * b + val[d])])]
    return Circ("%d private, %d public variables in few rows%s%s" % (na, ni, ", cancelling terms" if cancel else "", "" if drop is None else ", variable %d unused" % drop), *st)


def sparse_circuit(rows, full=(0, 1, -2, -1)):
    """many rows, most of them empty; satisfied"""
    st = [("in", Poly.const(6)), ("aux", Poly.const(2)), ("aux", Poly.const(3)), ("aux", Poly.const(12))]
    full = {f % rows for f in full}
    for i in range(rows):
        a, b, c = ([(2, 1)], [(3, 1)], [(1, 1)]) if i % 2 else ([(1, 1)], [(2, 1)], [(4, 1)])
        st.append(("con", a, b, c) if i in full else ("con", [], [(0, 1)], []) if i % 3 == 0 else ("con", [], [], []))
    return Circ("%d rows, most of them empty" % rows, *st)


# ---------------------------------------------------------------- C16
def check_generate(rep, prog, circ, only=None, label="", secrets=None, p=BLS_R, **kw):
    key = "key of circuit '%s'%s%s" % (circ.name, ", " + label if label else "", "".join(", %s=%s" % x for x in sorted(kw.items())))
    R = SRun(prog, p=p, **kw)
    try:
        r = R.generate(circ, secrets)
    except Diverge:
        pn = R.real_panics()
        return rep.bad(key, "panics: %s" % (pn and pn[0][0]), pn and str(pn[0][2]))
    finally:
        rep.seen(R.I)
    if R.real_panics():
        return rep.bad(key, "may panic: %s" % R.real_panics()[0][0], str(R.real_panics()[0][2]))
    o = outcome(R.I, r)
    want = spec_key(R.env, circ, secrets=secrets)
    uncon = any(norm(c).is_zero() for e in want["l"] for c in [sum(e.t.values(), ZERO)])
    if uncon:
        good = len(o) == 1 and o[0][1:] == ("err", "UnconstrainedVariable")
        return rep.verdict(key, good, "an unconstrained variable must be refused, got %.200r" % (o[0][1:],), "groth16::generator::generate_parameters")
    if len(o) != 1 or o[0][1] != "ok":
        return rep.bad(key, "expected parameters, got %.200r" % (o[0][1:],), "groth16::generator::generate_parameters")
    d = compare_key(R, o[0][2], want, only)
    rep.verdict(key, d is None, d, "groth16::generator::generate_parameters")


# ---------------------------------------------------------------- proving
def used(circ, side, k):
    return any(k in r[side] and not norm(r[side][k]).is_zero() for r in circ.rows)


def occurs(circ, side, k):
    """the variable has a term with a non-zero coefficient in that side of some constraint"""
    v = circ.idx.index(k)
    for s in circ.steps:
        if s[0] == "con" and any(w == v and not topoly(c).is_zero() for w, c in s[1 + side]):
            return True
    return side == 0 and k[0] == "in"


def params_value(R, circ, sizes=None, ident=(), delta=(True, True)):
    """parameters with opaque bases; sizes overrides the number of elements of a query"""
    I = R.I
    m = size_for(len(circ.rows))
    n = {"h": m - 1, "l": circ.na, "a": circ.ni + sum(used(circ, 0, ("aux", i)) for i in range(circ.na))}
    n["b_g1"] = n["b_g2"] = sum(used(circ, 1, k) for k in circ.idx)
    n.update(sizes or {})
    b = lambda g, *k: GE.base(g, k) if k not in ident else GE(g, {})
    vkf = {"alpha_g1": b("G1", "alpha"), "beta_g1": b("G1", "beta"), "beta_g2": b("G2", "beta"), "gamma_g2": b("G2", "gamma"),
           "delta_g1": b("G1", "delta") if delta[0] else GE("G1", {}), "delta_g2": b("G2", "delta") if delta[1] else GE("G2", {}),
           "ic": Seq([b("G1", "ic", i) for i in range(circ.ni)])}
    vk = adt(R.prog, "groth16::VerifyingKey", vkf)
    q = {x: Ptr("Arc", I.cell(Seq([b("G2" if x == "b_g2" else "G1", x, i) for i in range(n[x])]))) for x in QS}
    q["vk"] = vk
    return adt(R.prog, "groth16::Parameters", q), n


def adt(prog, path, fields):
    fs = [f[0] for f in prog.adts[path]["variants"][0]["fields"]]
    if set(fs) != set(fields):
        raise Unsupported("fields of %s changed" % path)
    return Adt(path, 0, tuple(fields[f] for f in fs))


def spec_proof(env, circ, r, s):
    """-> (A, B, C) over opaque bases"""
    m = size_for(len(circ.rows))
    import poly
    ev = []
    for x in range(3):
        rows = [sum((c * circ.value(k) for k, c in row[x].items()), ZERO) for row in circ.rows]
        rows += [ZERO] * (m - len(rows))
        ev.append([norm(sum((rows[j] * poly.rootpow(env, m, 1, -i * j) for j in range(m)), ZERO).scale(Fraction(1, m))) for i in range(m)])
    d = [ZERO] * (2 * m)
    for i in range(m):
        for j in range(m):
            d[i + j] = d[i + j] + ev[0][i] * ev[1][j]
        d[i] = d[i] - ev[2][i]
    g = Poly.var("gen")
    zi = poly_inv(g ** m - ONE)
    h = [norm((norm(d[i]) + g ** m * norm(d[m + i])) * zi) for i in range(m)]
    b = lambda gr, *k: GE.base(gr, k)
    A0 = GE("G1", {})
    B1, B2, L, H = A0, GE("G2", {}), A0, A0
    na = nb = 0
    order = [("in", i) for i in range(circ.ni)] + [("aux", i) for i in range(circ.na)]
    for k in order:
        v = circ.value(k)
        if k[0] == "in" or used(circ, 0, k):
            A0 = A0 + b("G1", "a", na).mul(v)
            na += 1
        if used(circ, 1, k):
            B1 = B1 + b("G1", "b_g1", nb).mul(v)
            B2 = B2 + b("G2", "b_g2", nb).mul(v)
            nb += 1
        if k[0] == "aux":
            L = L + b("G1", "l", k[1]).mul(v)
    for i in range(m - 1):
        H = H + b("G1", "h", i).mul(h[i])
    A = b("G1", "alpha") + A0 + b("G1", "delta").mul(r)
    B = b("G2", "beta") + B2 + b("G2", "delta").mul(s)
    Bp = b("G1", "beta") + B1 + b("G1", "delta").mul(s)
    C = H + L + A.mul(s) + Bp.mul(r) - b("G1", "delta").mul(r * s)
    return A, B, C


def prove(R, circ, params, r="r", s="s", failalloc=None):
    R.env.circuit = circ.synth(True, failalloc)
    o = R.fn("groth16::prover::create_proof", Opq("circuit"), R.I.ref(params), topoly(r), topoly(s), P=("ref", False, PARAMS))
    R.env.settle()
    return o


def task_panics(R):
    return [e for e in R.I.log if e.k == "task-panic"]


def check_prove(rep, prog, circ, p=BLS_R, only=None, r="r", s="s", label="", **kw):
    key = "proof of circuit '%s'%s%s" % (circ.name, ", " + label if label else "", "".join(", %s=%s" % x for x in sorted(kw.items())))
    R = SRun(prog, p=p, **kw)
    params, n = params_value(R, circ)
    try:
        res = prove(R, circ, params, r, s)
    except Diverge:
        pn = R.real_panics()
        return rep.bad(key, "panics: %s" % (pn and pn[0][0]), pn and str(pn[0][2]))
    finally:
        rep.seen(R.I)
    pn = R.real_panics()
    if pn:
        return rep.bad(key, "may panic: %s" % (pn[0][0],), str(pn[0][2]))
    o = outcome(R.I, res)
    where = "groth16::prover::create_proof"
    if len(o) != 1 or o[0][1] != "ok":
        return rep.bad(key, "expected a proof, got %.200r" % (o[0][1:],), where)
    want = spec_proof(R.env, circ, topoly(r), topoly(s))
    for nme, w in zip(("a", "b", "c"), want):
        v = R.field(o[0][2], nme)
        if not isinstance(v, GE) or not isinstance(w, GE):
            return rep.bad(key, "element %s is %.200r" % (nme, v), where)
        diff = (v - w).nz()
        for kk, co in diff.items():
            if only and not only(nme, kk):
                continue
            return rep.bad(key, "element %s: coefficient of %r is %.200r, expected %.200r" % (nme, kk, v.t.get(kk, ZERO), w.t.get(kk, ZERO)), where)
    rep.ok(key)
