"""Environments: abstract meaning of the rigid (generic) parameters of the analysed code."""
from mir import *
from terms import *
from interp import *
import models as M

BLS_R = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
CSV = Opq("cs")


class FieldEnv(Env):
    """prime field of known modulus, generic elements"""
    def __init__(self, p=BLS_R):
        self.p = p
        self.modulus = p
        ring.mod, ring.conc = None, {}
        self.nbits = p.bit_length()
        self.twoadic = (p - 1 & -(p - 1)).bit_length() - 1
        self.repr = -(-self.nbits // 64) * 64
        self.bitmemo = {}
        self.alt = {}            # other prime fields: {type: modulus}

    def mod_of(self, t):
        return self.alt.get(t, self.p)

    def assoc_const(self, tr, n, t):
        if t in self.alt and n in ("NUM_BITS", "CAPACITY"):
            return self.alt[t].bit_length() - (n == "CAPACITY")
        if n == "ONE":
            return ONE
        if n == "ZERO":
            return ZERO
        if n == "NUM_BITS":
            return self.nbits
        if n == "CAPACITY":
            return self.nbits - 1
        if n == "S":
            return self.twoadic
        if n == "TWO_INV":
            return Poly.const(Fraction(1, 2))
        if n == "MULTIPLICATIVE_GENERATOR":
            return Poly.var("gen")
        if n == "ROOT_OF_UNITY":
            return Poly.var(("omega", self.twoadic))
        return None

    def default(self, t):
        if is_rigid(t):
            nm = M.gname(t)
            if nm in ("G1", "G2", "Gt"):
                return GE(nm, {})
            return ZERO
        return None

    def field_bits(self, p, t=None):
        """little-endian canonical bits of a field element (bdd nodes), padded to the representation size"""
        q = self.mod_of(t)
        nb = q.bit_length()
        rp = -(-nb // 64) * 64
        p = norm(p)
        c = p.cval()
        if c is not None:
            if isinstance(c, Fraction):
                c = c.numerator * pow(c.denominator, -1, self.p)
            c %= q
            return [(c >> i) & 1 for i in range(rp)]
        # a sum of distinct powers of two times bits below the capacity is its own bit pattern
        k = (p.key(), q)
        r = self.bitmemo.get(k)
        if r is None:
            r = self._packed(p) if q == self.p else None
            if r is None:
                # most significant bit first in the variable order: comparisons with constants stay small
                r = [bdd.atom(("fb", k, i)) for i in reversed(range(nb))][::-1]
            r = r + [FALSE] * (rp - nb)
            self.bitmemo[k] = r
        return r

    def _packed(self, p):
        if not all(ring.idem[v] for v in p.vars()):
            return None
        out = [FALSE] * self.nbits
        for m, c in p.t.items():
            if len(m) != 1 or not isinstance(c, int) or c <= 0 or c & (c - 1) or c.bit_length() > self.nbits - 1:
                return None
            i = c.bit_length() - 1
            if out[i] != FALSE:
                return None
            out[i] = bdd.mk(ring.keys[m[0][0]][1], FALSE, TRUE)
        return out

    def char_bits(self, t=None):
        q = self.mod_of(t)
        return [bool((q >> i) & 1) for i in range(-(-q.bit_length() // 64) * 64)]


class GadgetEnv(FieldEnv):
    """rigid constraint system: allocations and constraints are logged.
    mode: 'prove' (witness closures are evaluated) or 'setup' (they are not);
    fail: allocation number (or set of them) that returns an error"""
    def __init__(self, mode="prove", p=BLS_R, fail=(), annotations=False):
        super().__init__(p)
        self.mode = mode
        self.fail = fail
        self.ann = annotations
        self.wit = {}
        self.ctr = None
        self.nalloc = 0
        self.failed = FALSE
        self.natives = []
        self.failat = self.failtag = None

    def start(self, I):
        self.ctr = {"aux": I.cell(0), "input": I.cell(1)}
        self.cs = I.ref(CSV)

    over = None
    probe = None
    one = None      # the variable the constraint system calls one, if it overrides the trait's

    def override(self, f, args):
        if self.over:
            fn = self.I.prog.fns.get(f.key)
            if fn is not None and fn.path in self.over:
                return self.over[fn.path](self.I, args)
        return None

    def trait_call(self, f, args):
        if f.tr == "bellman::ConstraintSystem":
            return self.cs_call(f, args)
        return None

    def ann_val(self, clo):
        if not self.ann:
            return None
        return self.I.call_value(clo, [])

    def native(self, fn):
        """callable value implemented by the harness"""
        self.natives.append(fn)
        return Opq("native", len(self.natives) - 1)

    def call_opaque(self, f, args):
        if isinstance(f, Opq) and f.k[0] == "native":
            return self.natives[f.k[1]](*args)
        return None

    def cs_call(self, f, args):
        I = self.I
        n = f.n
        if n in ("alloc", "alloc_input"):
            kind = "aux" if n == "alloc" else "input"
            a = self.ann_val(args[1])
            cc = self.ctr[kind]
            k = M.usz(I, I.mem[cc])
            var = Adt("bellman::Variable", 0, (Adt("bellman::Index", 1 if kind == "aux" else 0, (k,)),))
            self.nalloc += 1
            if self.failat is not None and self.nalloc - 1 >= self.failat:
                if self.nalloc - 1 > self.failat:
                    return ERR(Opq("allocerr", "later"))
                return ERR(Opq("allocerr", self.failtag))
            if self.fail and (self.fail == "all" or self.nalloc - 1 in self.fail):
                at = batom(("allocfail", self.nalloc - 1))
                self.failed = bdd.or_(self.failed, bdd.and_(I.pc, at.n))
                return I.ite(at, lambda: ERR(Opq("allocerr", self.nalloc - 1)),
                             lambda: self.do_alloc(kind, k, cc, var, args[2], a))
            return self.do_alloc(kind, k, cc, var, args[2], a)
        if n == "enforce":
            a = self.ann_val(args[1])
            lcs = []
            for clo in args[2:5]:
                r = I.call_value(clo, [self.lc_zero()])
                lcs.append(self.lc(r))
            I.log.append(Event("enforce", (tuple(lcs[0]), tuple(lcs[1]), tuple(lcs[2])), I.pc, (I.site(), a)))
            return UNIT
        if n == "one":
            return self.one if f.a and isinstance(f.a[0], tuple) and f.a[0][0] in ("rigid", "param", "proj") else None
        if n == "get_root":
            r = args[0]
            return self.cs if self.I.strip(r) == CSV else None
        if n == "push_namespace":
            a = self.ann_val(args[1])
            I.log.append(Event("push", (), I.pc, (I.site(), a)))
            return UNIT
        if n == "pop_namespace":
            I.log.append(Event("pop", (), I.pc, (I.site(), None)))
            return UNIT
        return None

    def do_alloc(self, kind, k, cc, var, clo, a):
        I = self.I
        if self.mode == "setup":
            I.log.append(Event("alloc", (kind, k), I.pc, (I.site(), a)))
            I.mem[cc] = k + 1
            return OK(var)
        r = I.call_value(clo, [])

        def ok(v):
            I.log.append(Event("alloc", (kind, k), I.pc, (I.site(), a)))
            key = (kind, k)
            v = I.strip(v)
            if self.probe is not None:
                self.probe.append((key, "ok", v, I.pc))
            self.wit[key] = merge(I.pc, v, self.wit[key]) if key in self.wit else v
            I.mem[cc] = k + 1
            return OK(var)

        def err(e):
            if self.probe is None:
                return ERR(e)
            # a constraint system that goes on although the value could not be computed
            self.probe.append(((kind, k), "err", e, I.pc))
            I.mem[cc] = k + 1
            return OK(var)
        return M.rsplit(I, r, ok, err)

    def lc_zero(self):
        fn = self.I.prog.method("bellman::LinearCombination", "zero") if hasattr(self, "_z") else None
        return Adt("bellman::LinearCombination", 0, (Seq(()),))

    def lc(self, v):
        """LinearCombination value -> list of (varkey, Poly); terms present only under a condition carry it in
        their coefficient"""
        I = self.I
        out = []

        def go(g, v):
            for c, w in flat(g, v):
                if bdd.and_(c, I.pc) == FALSE:
                    continue
                if isinstance(w, (Ref, Ptr)):
                    go(c, I.rget(w))
                elif isinstance(w, Adt):
                    go(c, w.f[0])
                elif isinstance(w, Seq):
                    for t in w.i:
                        for d, t in flat(c, t):
                            if bdd.and_(d, I.pc) == FALSE:
                                continue
                            x, k = t.i
                            for e, key in self.varkeys(d, x):
                                for f, q in flat(e, k):
                                    if bdd.and_(f, I.pc) != FALSE:
                                        out.append((key, q if bdd.and_(I.pc, bdd.not_(f)) == FALSE else ind(f) * q))
                else:
                    s = self.as_seq(w)
                    if s is None:
                        raise Unsupported("not a linear combination: %r" % (w,))
                    go(c, s)
        go(TRUE, v)
        return out

    def varkeys(self, g, x):
        """[(cond, key)] of a variable"""
        I = self.I
        for c, x in flat(g, I.strip(x)):
            for d, i in flat(c, I.strip(I.strip(x).f[0])):
                i = I.strip(i)
                if isinstance(i.f[0], int):
                    yield d, ("input" if i.v == 0 else "aux", i.f[0])
                else:
                    for e, k in I.ivals(i.f[0]):
                        e = bdd.and_(e, d)
                        if bdd.and_(e, I.pc) != FALSE:
                            yield e, ("input" if i.v == 0 else "aux", k)

    def varkey(self, x):
        ks = list(self.varkeys(TRUE, x))
        if len(ks) != 1:
            raise Unsupported("variable depends on the witness")
        return ks[0][1]


def mkrun(prog, env, fuel=20000000):
    M.ZMOD[0] = getattr(env, "p", None)
    I = Interp(prog, env, fuel)
    if hasattr(env, "start"):
        env.start(I)
    return I


def genv(fn, **over):
    """environment for a function's generics: rigid names unless given"""
    out = []
    for g in fn.generics:
        nm = g if isinstance(g, str) else g[0]
        out.append(over.get(nm, ("rigid", nm)))
    return tuple(out)


def callp(I, fn, args, **over):
    return I.call_fn(fn, genv(fn, **over), args)
