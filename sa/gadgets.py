"""Harness for the gadget library: abstract runs of public gadget functions over a rigid constraint system."""
from envs import *
from r1cs import *
import models as M
from cases import const_atom

G = "bellman::gadgets::"
BIT = G + "boolean::AllocatedBit"
BOOL = G + "boolean::Boolean"
NUM = G + "num::AllocatedNum"
LNUM = G + "num::Num"
U32 = G + "uint32::UInt32"
MEQ = G + "multieq::MultiEq"
MEQT = ("adt", MEQ, (("rigid", "Scalar"), ("rigid", "CS")))


class MissingAnchor(Unsupported):
    pass


def anchor(prog, path):
    f = prog.fn(path)
    if f is None:
        seg = path.split("::")
        for n in (3, 2):
            suf = "::" + "::".join(seg[-n:])
            c = [k for k in prog.by_path if k.endswith(suf)]
            if len(c) == 1:
                return prog.by_path[c[0]][0]
        raise MissingAnchor("no function " + path)
    return f


def errname(I, e):
    """constructor name of an error value (allocation failures keep their number)"""
    e = I.strip(e)
    if isinstance(e, Opq):
        return e.k
    if isinstance(e, Adt):
        a = I.prog.adts.get(e.p)
        n = a["variants"][e.v]["name"] if a else str(e.v)
        if len(e.f) == 1:
            x = I.strip(e.f[0])
            if isinstance(x, Opq):
                return (n, x.k)
        return n
    return "?%r" % (e,)


def outcome(I, r, pc=TRUE):
    """Result value -> [(cond, 'ok', value)|(cond, 'err', name)]"""
    out = []
    r = I.strip(r)
    for c, v in flat(pc, r):
        if c == FALSE:
            continue
        v = I.strip(v)
        if isinstance(v, Adt) and v.p.endswith("Result"):
            if v.v == 0:
                out.append((c, "ok", v.f[0]))
            else:
                for d, e in flat(c, I.strip(v.f[0])):
                    out.append((d, "err", errname(I, e)))
        else:
            raise Unsupported("not a Result: %r" % (v,))
    return out


class Run:
    def __init__(self, prog, mode, p=BLS_R, ann=False, unknown=None):
        """unknown: in mode "missing", the operands whose values are unknown (None: all)"""
        self.prog, self.mode, self.unknown = prog, mode, unknown
        self.env = GadgetEnv("setup" if mode in ("setup", "setupk", "missing") else "prove", p, annotations=ann)
        self.I = mkrun(prog, self.env, 10 ** 9)
        self.cs = self.env.cs
        self.known = mode in ("setupk", "prove", "fail")
        if unknown is not None:
            self.env.mode, self.env.probe = "prove", []
        self.bitvars = {}        # variable key -> atom name
        self.numvars = {}
        self.n0 = 0

    def fn(self, path):
        return anchor(self.prog, path)

    def call(self, path, args, **over):
        return callp(self.I, self.fn(path), args, **over)

    def knows(self, name):
        return self.known or (self.unknown is not None and name not in self.unknown)

    def val(self, v, name=None):
        return SOME(v) if self.knows(name) else NONE

    def unwrap(self, r, what):
        r = self.I.strip(r)
        if isinstance(r, Adt) and r.p.endswith("Result") and r.v == 0:
            return r.f[0]
        raise Unsupported("operand allocation failed: %s: %r" % (what, r))

    # ---------------------------------------------------------- operands
    def bit(self, name, value=None):
        v = batom(name) if value is None else value
        b = self.unwrap(self.call(BIT + "::alloc", [self.cs, self.val(v, name)]), "bit")
        x = self.call(BIT + "::get_variable", [self.I.ref(b)])
        self.bitvars[self.env.varkey(x)] = name
        return b

    def boolean(self, kind, name, of=None):
        """kind: F T constants, I allocated, N negated"""
        if kind in "FT":
            return self.call(BOOL + "::constant", [kind == "T"])
        b = of if of is not None else self.bit(name)
        r = self.I.call_trait("core::convert::From", "from", ("adt", BOOL, ()), [b], (("adt", BIT, ()),))
        if kind == "N":
            r = self.call(BOOL + "::not", [self.I.ref(r)])
        return r

    def num(self, name, value=None):
        v = Poly.var(name) if value is None else value
        if self.knows(name):
            clo = self.env.native(lambda: OK(v))
        else:
            clo = self.env.native(lambda: ERR(self.missing()))
        a = self.unwrap(self.call(NUM + "::alloc", [self.cs, clo]), "num")
        x = self.call(NUM + "::get_variable", [self.I.ref(a)])
        self.numvars[self.env.varkey(x)] = name
        return a

    def missing(self):
        a = self.prog.adts["bellman::SynthesisError"]
        for i, v in enumerate(a["variants"]):
            if v["name"] == "AssignmentMissing":
                return Adt("bellman::SynthesisError", i, ())
        raise MissingAnchor("SynthesisError::AssignmentMissing")

    def word(self, kind, name, const=0):
        """32-bit word of operand kinds: c constant, a allocated, or a 32-letter Boolean pattern"""
        if kind == "c":
            return self.call(U32 + "::constant", [const])
        if kind == "a":
            w = wsym(32, name)
            r = self.unwrap(self.call(U32 + "::alloc", [self.cs, self.val(w, name)]), "word")
            for i in range(32):
                b = self.I.seq(self.call(U32 + "::into_bits", [M.clone(self.I, r)])).i[i]
                v = self.lc(b)
                self.bitvars[v[0][0]] = (name, i)
            return r
        bits = [self.boolean(kind[i % len(kind)], "%s%d" % (name, i)) for i in range(32)]
        return self.call(U32 + "::from_bits", [self.I.ref(Seq(bits))])

    # ---------------------------------------------------------- phases
    def begin(self):
        """operands are in place: what follows is the operation under analysis"""
        self.n0 = len(self.I.log)
        if self.mode == "missing":
            self.env.mode, self.env.probe = "prove", None
        if self.mode == "fail":
            self.env.fail = "all"
            self.env.nalloc = 0
        self.p0 = len(self.I.panics)
        return self

    def events(self):
        return self.I.log[self.n0:]

    def panics(self):
        return self.I.panics[self.p0:]

    # ---------------------------------------------------------- observation
    def lc(self, b, coeff=ONE):
        """linear combination of a Boolean, through its public interface"""
        one = Adt("bellman::Variable", 0, (Adt("bellman::Index", 0, (0,)),))
        r = self.call(BOOL + "::lc", [self.I.ref(b), one, coeff])
        return self.env.lc(r)

    def bvalue(self, b):
        """reported value: bdd node or None"""
        r = self.I.strip(self.call(BOOL + "::get_value", [self.I.ref(b)]))
        return self.opt(r)

    def opt(self, r):
        r = self.I.strip(r)
        if isinstance(r, Adt) and r.p.endswith("Option"):
            return self.I.strip(r.f[0]) if r.v == 1 else None
        if isinstance(r, U):
            alts = [(c, self.I.strip(v)) for c, v in r.a]
            if all(isinstance(v, Adt) and v.v == 1 for _, v in alts):
                x = alts[-1][1].f[0]
                for c, v in reversed(alts[:-1]):
                    x = merge(c, v.f[0], x)
                return self.I.strip(x)
        raise Unsupported("option %r" % (r,))

    def wit_node(self, lc):
        """boolean a witness gives to a linear combination (bdd) or None"""
        q = self.wit_poly(lc)
        if q is None or not all(ring.idem[x] for x in q.vars()):
            return None
        if q.cval() is not None:
            return {0: FALSE, 1: TRUE}.get(q.cval())
        z, o = poly_zero_bdd(q), poly_zero_bdd(q - ONE)
        if bdd.or_(z, o) != TRUE:
            return None
        return o

    def wit_poly(self, lc):
        q = ZERO
        for v, c in lc:
            if v == ONEV:
                q = q + c
            else:
                w = self.env.wit.get(v)
                if isinstance(w, U):
                    w = self.I.strip(w)
                if not isinstance(w, Poly):
                    return None
                q = q + c * w
        return q

    def solver(self, assume=True):
        return Solver(self.env.p).load(self.I.log, list(self.bitvars) if assume else ())


def shape(log, okc=TRUE):
    """witness-independent part of a log: events that happen when synthesis succeeds.
    -> (list of comparable events, list of events whose occurrence depends on the witness)"""
    out, dep = [], []
    for e in log:
        g = bdd.and_(e.g, okc)
        if g == FALSE:
            continue
        if g != okc and not all(const_atom(x) for x in bdd.support(g) - bdd.support(okc)):
            dep.append(e)
        if e.k == "enforce":
            out.append(("enforce",) + ((g,) if g != okc else ()) + tuple(tuple(sorted(((v, c.key()) for v, c in lcdict(x).items()), key=repr)) for x in e.a))
        elif e.k == "alloc":
            out.append(("alloc",) + e.a)
        else:
            out.append((e.k,))
    return out, dep


def ev_str(e):
    if e.k == "enforce":
        return "enforce(%s) at %s" % (" ; ".join(lcs(x) for x in e.a), e.site[0] if e.site else "?")
    return "%s%r at %s" % (e.k, e.a, e.site[0] if e.site else "?")


def lcs(lc):
    return " + ".join("(%s)%s%d" % (c, "i" if v[0] == "input" else "x", v[1]) for v, c in lc[:6]) + (" ..." if len(lc) > 6 else "") if lc else "0"


def diff_shape(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "event %d differs: %s / %s" % (i, x, y)
    if len(a) != len(b):
        return "%d events / %d events; first extra: %s" % (len(a), len(b), (a + b)[min(len(a), len(b))] if a[:len(b)] == b or b[:len(a)] == a else "?")
    return None


def balanced(log):
    """push/pop events balanced (guards must be equal pairwise)"""
    st = []
    for e in log:
        if e.k == "push":
            st.append(e)
        elif e.k == "pop":
            if not st or st[-1].g != e.g:
                return False
            st.pop()
    return not st
