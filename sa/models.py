"""Models of the standard library and of the ff/group/subtle/bitvec/rayon interfaces."""
import math
from mir import *
from terms import *
import interp as X
from fractions import Fraction
from interp import (Adt, Seq, Ref, Ptr, Clo, It, U, NONE, SOME, OK, ERR, TUP, UNIT, UNINIT, OPT, RES, CF,
                    Diverge, Unsupported, merge, union, flat, WIDTH, wrapi)

CACHE = {}
FUNCS = {}
TRAIT = {}


def fnm(*paths):
    def d(f):
        for p in paths:
            FUNCS[p] = f
        return f
    return d


def trm(tr, *names):
    def d(f):
        for n in names:
            TRAIT[(tr, n)] = f
        return f
    return d


def CONT(v):
    return Adt(CF, 0, (v,))


def BRK(v):
    return Adt(CF, 1, (v,))


def usz(I, v):
    """concrete usize or Unsupported"""
    if isinstance(v, int):
        return v
    iv = [(c, x) for c, x in I.ivals(v) if bdd.and_(c, I.pc) != FALSE]
    if len(iv) == 1:
        return iv[0][1]
    raise Unsupported("symbolic size")


def panic(I, what):
    I.panic(what, I.pc, I.frames[-1] if I.frames else None, None)
    raise Diverge()


STD_CONSTS = {}


def std_const(p):
    for t, w in WIDTH.items():
        if p == t + "::MAX" or p == "core::num::%s::MAX" % t:
            return (1 << w) - 1 if t[0] == "u" else (1 << (w - 1)) - 1
        if p == t + "::MIN" or p == "core::num::%s::MIN" % t:
            return 0 if t[0] == "u" else -(1 << (w - 1))
        if p == t + "::BITS":
            return w
    return STD_CONSTS.get(p)


# =============================================================== field polynomials
def pzero(I, p):
    """bool value: p == 0"""
    p = norm(p)
    c = p.cval()
    if c is not None:
        m = I.env.modulus if hasattr(I.env, "modulus") else None
        if m:
            return (c.numerator if hasattr(c, "numerator") else c) % m == 0
        return c == 0
    vs = p.vars()
    if all(ring.idem[v] for v in vs) and len(vs) <= 24:
        return tob(poly_zero_bdd(p))
    # canonical scaling
    lead = max(p.t)
    k = p.t[lead]
    q = p.scale((Fraction(1) / k) if k not in (1, -1) else k)
    r = I.env.zero_test(q) if hasattr(I.env, "zero_test") else None
    if r is not None:
        return r
    # a product of atoms is zero iff one of the atoms is
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if len(m) > 1 or any(e != 1 for _, e in m):
            n = FALSE
            for v, e in m:
                if ring.idem[v]:
                    n = bdd.or_(n, bdd.not_(bdd.mk(ring.keys[v][1], FALSE, TRUE)))
                elif e > 0:
                    n = bdd.or_(n, bn(pzero(I, Poly({((v, 1),): 1}))))
            return tob(n)
    return batom(("pz", q.key()))


ZMOD = [None]      # field modulus in force (set by mkrun)


def poly_zero_bdd(p):
    """BDD of (p == 0 in the field) for a polynomial over indicator variables (integer coefficients)"""
    memo = {}
    M = ZMOD[0]

    def go(q):
        lo = hi = 0
        for m, c in q.t.items():
            if m:
                if c < 0:
                    lo += c
                else:
                    hi += c
            else:
                lo += c
                hi += c
        if M:
            a = -(-lo // M) * M
            if a > hi:
                return FALSE
        elif lo > 0 or hi < 0:
            return FALSE
        c = q.cval()
        if c is not None:
            return TRUE if (c % M if M else c) == 0 else FALSE
        k = q.key()
        if k in memo:
            return memo[k]
        v = min(q.vars(), key=lambda x: ring.keys[x][1])
        q0, q1 = {}, {}
        for m, c in q.t.items():
            if any(x == v for x, _ in m):
                m2 = tuple(x for x in m if x[0] != v)
                q1[m2] = q1.get(m2, 0) + c
            else:
                q0[m] = q0.get(m, 0) + c
        hi = dict(q0)
        for m, c in q1.items():
            x = hi.get(m, 0) + c
            if x:
                hi[m] = x
            else:
                hi.pop(m, None)
        r = bdd.mk(ring.keys[v][1], go(Poly(q0)), go(Poly(hi)))
        memo[k] = r
        return r
    return go(p)


def peq(I, a, b):
    return pzero(I, a - b)


def geq_id(I, g):
    if g.is_id():
        return True
    r = I.env.group_zero_test(g) if hasattr(I.env, "group_zero_test") else None
    if r is not None:
        return r
    nz = g.nz()
    if len(nz) == 1:
        (k, c), = nz.items()
        z = pzero(I, c)
        if z is True:
            return True
        return tob(bdd.or_(bn(z), bdd.atom(("gz", g.g, k))))
    return batom(("gzl", g.key()))


def veq(I, a, b):
    """structural equality -> bool value"""
    a, b = I.strip(a), I.strip(b)
    if isinstance(a, U) or isinstance(b, U):
        n = FALSE
        for c, x in flat(TRUE, a):
            for d, y in flat(c, b):
                if bdd.and_(d, I.pc) != FALSE:
                    n = bdd.or_(n, bdd.and_(d, bn(veq(I, x, y))))
        return tob(n)
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return tob(bdd.iff(bn(a), bn(b)))
    if isinstance(a, (int, W)) and isinstance(b, (int, W)):
        return tob(weq(a, b))
    if isinstance(a, Poly) and isinstance(b, Poly):
        return peq(I, a, b)
    if isinstance(a, GE) and isinstance(b, GE):
        return geq_id(I, a - b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.i) != len(b.i):
            return False
        n = TRUE
        for x, y in zip(a.i, b.i):
            n = bdd.and_(n, bn(veq(I, x, y)))
        return tob(n)
    if isinstance(a, Adt) and isinstance(b, Adt) and a.p == b.p:
        for im in I.prog.trait_impls.get("core::cmp::PartialEq", []):
            if isinstance(im.self, tuple) and im.self[0] == "adt" and im.self[1] == a.p:
                fn = I.prog.fns[im.fns["eq"]]
                return I.call_fn(fn, tuple(None for _ in fn.generics), [I.ref(a), I.ref(b)])
        if a.v != b.v:
            return False
        n = TRUE
        for x, y in zip(a.f, b.f):
            n = bdd.and_(n, bn(veq(I, x, y)))
        return tob(n)
    if a == b:
        return True
    r = I.env.veq(a, b) if hasattr(I.env, "veq") else None
    if r is not None:
        return r
    raise Unsupported("equality of %r and %r" % (a, b))


@trm("core::cmp::PartialEq", "eq")
def _eq(I, f, a):
    return veq(I, a[0], a[1])


@trm("core::cmp::PartialEq", "ne")
def _ne(I, f, a):
    # a local impl of eq is used through veq
    return tob(bdd.not_(bn(veq(I, a[0], a[1]))))


@trm("core::cmp::PartialOrd", "lt", "le", "gt", "ge")
def _ord(I, f, a):
    x, y = I.strip(a[0]), I.strip(a[1])
    if isinstance(x, Seq) and len(x.i) == 1:
        x, y = x.i[0], y.i[0]
    return I.binop(f.n.capitalize(), x, y, f.a[0] if isinstance(f.a[0], str) else "usize")


@trm("core::cmp::Ord", "max", "min")
def _mm(I, f, a):
    x, y = a
    if isinstance(x, int) and isinstance(y, int):
        return max(x, y) if f.n == "max" else min(x, y)
    c = I.binop("Lt", x, y, "usize")
    return merge(bn(c), y, x) if f.n == "max" else merge(bn(c), x, y)


@fnm("core::cmp::max", "core::cmp::min")
def _mm2(I, f, a):
    g = type("F", (), {"n": f.p.split("::")[-1]})
    return _mm(I, g, a)


@trm("core::cmp::Ord", "cmp")
def _cmp(I, f, a):
    return I.binop("Cmp", I.strip(a[0]), I.strip(a[1]), "usize")


@trm("core::cmp::PartialOrd", "partial_cmp")
def _pcmp(I, f, a):
    return SOME(I.binop("Cmp", I.strip(a[0]), I.strip(a[1]), "usize"))


# =============================================================== operators
ARITH = {"Add": ("add", "Add"), "Sub": ("sub", "Sub"), "Mul": ("mul", "Mul"), "Div": ("div", "Div"), "Rem": ("rem", "Rem")}


def arith2(I, op, x, y, t="usize"):
    x, y = I.strip(x), I.strip(y)
    if isinstance(x, U) or isinstance(y, U):
        return I.lift2(lambda p, q: arith2(I, op, p, q, t), x, y)
    if isinstance(x, Poly) and isinstance(y, Poly):
        return x + y if op == "Add" else x - y if op == "Sub" else x * y
    if isinstance(x, GE) and isinstance(y, GE) and op in ("Add", "Sub"):
        return x + y if op == "Add" else x - y
    if isinstance(x, GE) and isinstance(y, Poly) and op == "Mul":
        return x.mul(y)
    if isinstance(x, (int, W)) and isinstance(y, (int, W)):
        r = I.arith_ov(op, x, y, t) if op in ("Add", "Sub", "Mul") else None
        if r is None:
            if isinstance(y, int) and y == 0:
                panic(I, "division by zero")
            return I.arith(op, x, y, WIDTH[t], t[0] == "i")
        if r.i[1] is not False:
            bad = bdd.and_(I.pc, bn(r.i[1]))
            if bad != FALSE:
                I.panic("overflow", bad, I.frames[-1] if I.frames else None)
        return r.i[0]
    if isinstance(x, float):
        return x + y if op == "Add" else x - y if op == "Sub" else x * y if op == "Mul" else x / y
    r = I.env.arith(op, x, y) if hasattr(I.env, "arith") else None
    if r is not None:
        return r
    # local operator impl on the left operand
    return None


def intt(t):
    while isinstance(t, tuple) and t[0] == "ref":
        t = t[2]
    return t if isinstance(t, str) and t in WIDTH else "usize"


def _mk_arith(op, m):
    @trm("core::ops::arith::" + op, m)
    def h(I, f, a):
        return arith2(I, op, a[0], a[1], intt(f.a[0]))

    @trm("core::ops::arith::%sAssign" % op, m + "_assign")
    def g(I, f, a):
        r = arith2(I, op, a[0], a[1], intt(f.a[0]))
        if r is None:
            return None
        I.rset(a[0], r)
        return UNIT


for _o, (_m, _) in ARITH.items():
    _mk_arith(_o, _m)


@trm("core::ops::arith::Neg", "neg")
def _neg(I, f, a):
    x = I.strip(a[0])
    if isinstance(x, (Poly, GE, int, float)) and not isinstance(x, bool):
        return -x
    if isinstance(x, U):
        return union([(c, -y) for c, y in x.a])
    r = I.env.neg(x) if hasattr(I.env, "neg") else None
    return r


def _mk_bit(tr, m, op):
    @trm("core::ops::bit::" + tr, m)
    def h(I, f, a):
        x, y = I.strip(a[0]), I.strip(a[1])
        return I.binop(op, x, y, intt(f.a[0]))

    @trm("core::ops::bit::%sAssign" % tr, m + "_assign")
    def g(I, f, a):
        x, y = I.strip(a[0]), I.strip(a[1])
        I.rset(a[0], I.binop(op, x, y, intt(f.a[0])))
        return UNIT


for _t, _m, _o in (("BitAnd", "bitand", "BitAnd"), ("BitOr", "bitor", "BitOr"), ("BitXor", "bitxor", "BitXor"),
                   ("Shl", "shl", "Shl"), ("Shr", "shr", "Shr")):
    _mk_bit(_t, _m, _o)


@trm("core::ops::bit::Not", "not")
def _not(I, f, a):
    x = I.strip(a[0])
    return I.unop("Not", x, intt(f.a[0]))


# =============================================================== ff / group
@trm("ff::Field", "square")
def _sq(I, f, a):
    x = I.strip(a[0])
    return x * x


@trm("ff::Field", "cube")
def _cube(I, f, a):
    x = I.strip(a[0])
    return x * x * x


@trm("ff::Field", "double")
def _dbl(I, f, a):
    return I.strip(a[0]).scale(2)


@trm("ff::Field", "is_zero", "is_zero_vartime")
def _isz(I, f, a):
    return pzero(I, I.strip(a[0]))


@trm("ff::Field", "invert")
def _inv(I, f, a):
    p = I.strip(a[0])
    z = pzero(I, p)
    if z is True:
        return Adt("subtle::CtOption", 0, (ZERO, False))
    return Adt("subtle::CtOption", 0, (poly_inv(p), tob(bdd.not_(bn(z)))))


@trm("ff::Field", "pow", "pow_vartime")
def _pow(I, f, a):
    p = I.strip(a[0])
    e = I.seq(a[1])
    n = 0
    for i, x in enumerate(e.i):
        n |= usz(I, x) << (64 * i)
    c = norm(p).cval()
    if c is not None and isinstance(c, int):
        return Poly.const(c ** n)
    if n > 1 << 16 and len(p.t) != 1:
        raise Unsupported("large power")
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if not any(ring.idem[v] for v, _ in m):
            return reduce_rules(Poly({tuple((v, x * n) for v, x in m) if n else (): k ** n if n else 1}))
    return p ** n


def reduce_rules(p):
    return norm(p)


@trm("ff::PrimeField", "is_odd", "is_even")
def _odd(I, f, a):
    n = I.env.field_bits(I.strip(a[0]))[0]
    return tob(n if f.n == "is_odd" else bdd.not_(n))


@trm("ff::PrimeField", "from_u128")
def _fu(I, f, a):
    return to_poly(I, a[0])


def to_poly(I, v):
    v = I.strip(v)
    if isinstance(v, bool):
        return ONE if v else ZERO
    if isinstance(v, B):
        return ind(v.n)
    if isinstance(v, int):
        return Poly.const(v)
    if isinstance(v, W):
        r = ZERO
        if v.lin is not None:
            w, c, ts = v.lin
            if X.wmax(v) < (1 << w) and c + sum(k * ((1 << a[1]) - 1) for a, k in ts) < (1 << w):
                r = Poly.const(c)
                for a, k in ts:
                    for i, b in enumerate(wbits(W(lin=(a[1], 0, frozenset({(a, 1)}))))):
                        r = r + ind(b).scale(k << i)
                return r
        for i, b in enumerate(wbits(v)):
            r = r + ind(b).scale(1 << i)
        return r
    raise Unsupported("to_poly %r" % (v,))


@trm("ff::PrimeFieldBits", "to_le_bits")
def _tlb(I, f, a):
    p = I.strip(a[0])
    return Seq([tob(b) for b in I.env.field_bits(p, f.a[0] if f.a else None)])


@trm("ff::PrimeFieldBits", "char_le_bits")
def _clb(I, f, a):
    return Seq(I.env.char_bits(f.a[0] if f.a else None))


@trm("group::Group", "identity")
def _gid(I, f, a):
    return GE(gname(f.a[0]), {})


@trm("group::prime::PrimeCurveAffine", "identity")
def _gid2(I, f, a):
    return GE(gname(f.a[0]), {})


@trm("group::Group", "generator")
def _ggen(I, f, a):
    return GE.base(gname(f.a[0]), "generator:" + gname(f.a[0]))


TRAIT[("group::prime::PrimeCurveAffine", "generator")] = _ggen


@trm("group::Group", "is_identity")
def _gisid(I, f, a):
    return geq_id(I, I.strip(a[0]))


TRAIT[("group::prime::PrimeCurveAffine", "is_identity")] = _gisid


@trm("group::Group", "double")
def _gdbl(I, f, a):
    return I.strip(a[0]).mul(Poly.const(2))


@trm("group::Curve", "to_affine")
def _toaff(I, f, a):
    return I.strip(a[0])


TRAIT[("group::prime::PrimeCurveAffine", "to_curve")] = _toaff


@trm("group::Curve", "batch_normalize")
def _bn(I, f, a):
    src = I.seq(a[0])
    dst = I.seq(a[1])
    if len(src.i) != len(dst.i):
        panic(I, "batch_normalize length mismatch")
    wslice(I, a[1], src.i)
    return UNIT


def gname(t):
    """canonical name of the group a type belongs to"""
    if isinstance(t, tuple):
        if t[0] == "proj":
            n = t[2]
            if n in ("Affine", "Curve"):
                return gname(t[3][0])
            if n in ("G1", "G1Affine"):
                return "G1"
            if n in ("G2", "G2Affine"):
                return "G2"
            if n in ("G2Prepared",):
                return "G2"
            if n in ("Gt", "Result"):
                return "Gt"
            return n
        if t[0] in ("rigid", "param"):
            return t[1]
        if t[0] == "ref":
            return gname(t[2])
    return "?"


@fnm("subtle::CtOption::is_some")
def _ctsome(I, f, a):
    return I.strip(a[0]).f[1]


@fnm("subtle::CtOption::is_none")
def _ctnone(I, f, a):
    return tob(bdd.not_(bn(I.strip(a[0]).f[1])))


def ct2opt(I, v):
    v = I.strip(v)
    return union([(bn(v.f[1]), SOME(v.f[0])), (bdd.not_(bn(v.f[1])), NONE)])


@fnm("subtle::CtOption::unwrap", "subtle::CtOption::expect")
def _ctunwrap(I, f, a):
    v = I.strip(a[0])
    need(I, v.f[1], "CtOption::unwrap on none")
    return v.f[0]


@fnm("subtle::CtOption::unwrap_or")
def _ctuo(I, f, a):
    v = I.strip(a[0])
    return merge(bn(v.f[1]), v.f[0], a[1])


@fnm("subtle::CtOption::map")
def _ctmap(I, f, a):
    v = I.strip(a[0])
    return Adt(v.p, 0, (I.call_value(a[1], [v.f[0]]), v.f[1]))


@fnm("subtle::CtOption::and_then")
def _ctat(I, f, a):
    v = I.strip(a[0])
    w = I.call_value(a[1], [v.f[0]])
    return Adt(v.p, 0, (w.f[0], tob(bdd.and_(bn(v.f[1]), bn(w.f[1])))))


@fnm("subtle::CtOption::into_option")
def _ctio(I, f, a):
    return ct2opt(I, a[0])


@fnm("subtle::Choice::unwrap_u8")
def _cu8(I, f, a):
    return I.cast("IntToInt", I.strip(a[0]), "u8", "bool")


@trm("subtle::ConditionallySelectable", "conditional_select")
def _csel(I, f, a):
    return merge(bn(I.strip(a[2])), I.strip(a[1]), I.strip(a[0]))


@trm("subtle::ConstantTimeEq", "ct_eq")
def _cteq(I, f, a):
    return veq(I, a[0], a[1])


def need(I, cond, what):
    n = bn(cond)
    bad = bdd.and_(I.pc, bdd.not_(n))
    if bad != FALSE:
        I.panic(what, bad, I.frames[-1] if I.frames else None)
    ok = bdd.and_(I.pc, n)
    if ok == FALSE:
        raise Diverge()
    I.pc = ok


# =============================================================== conversions
@trm("core::convert::From", "from")
def _from(I, f, a):
    return convert(I, a[0], f.a[0], f.a[1] if len(f.a) > 1 else None)


@trm("core::convert::Into", "into")
def _into(I, f, a):
    return convert(I, a[0], f.a[1], f.a[0])


def convert(I, v, to, frm):
    if to == frm and to is not None:
        return v
    r = I.prog.find_impl("core::convert::From", (to, frm))
    if r is not None:
        fn = I.prog.fns[r[0].fns["from"]]
        o = getattr(I.env, "over", None)
        if o and fn.path in o:
            return o[fn.path](I, [v])
        return I.call_fn(fn, r[1], [v])
    r = I.prog.find_impl("core::convert::Into", (frm, to))
    if r is not None:
        fn = I.prog.fns[r[0].fns["into"]]
        return I.call_fn(fn, r[1], [v])
    if isinstance(to, str):
        if to in WIDTH and isinstance(v, (int, W, B, bool)):
            if to == "bool":
                return v
            if isinstance(v, (bool, B)):
                return I.cast("IntToInt", v, to, "bool")
            return v
        return v
    if isinstance(to, tuple) and to[0] == "adt":
        if to[1] == "alloc::string::String":
            return v
        if to[1] == OPT:
            if isinstance(frm, tuple) and frm[0] == "adt" and frm[1] == "subtle::CtOption":
                return ct2opt(I, v)
            return SOME(v)
        if to[1] == "alloc::vec::Vec":
            return Seq(I.seq(v).i)
        if to[1] == "alloc::sync::Arc":
            return Ptr("Arc", I.cell(v))
        if to[1] == "alloc::boxed::Box":
            return Ptr("Box", I.cell(v))
        if to[1] == "subtle::Choice":
            return v if isinstance(v, (bool, B)) else I.binop("Ne", v, 0, "u8")
        if to[1] == RES and isinstance(v, Adt) and v.p == RES:
            return v
    if is_rigid(to):
        r = I.env.convert(v, to, frm) if hasattr(I.env, "convert") else None
        if r is not None:
            return r
        if isinstance(v, (Poly, GE)):
            return v
        if isinstance(v, (int, W, bool, B)):
            return to_poly(I, v)
    if isinstance(v, (bool, B, str)):
        return v
    r = I.env.convert(v, to, frm) if hasattr(I.env, "convert") else None
    if r is not None:
        return r
    raise Unsupported("conversion %s -> %s of %r" % (tstr(frm), tstr(to), v))


@trm("core::convert::TryFrom", "try_from")
def _tryfrom(I, f, a):
    return tryconv(I, a[0], f.a[0])


@trm("core::convert::TryInto", "try_into")
def _tryinto(I, f, a):
    return tryconv(I, a[0], f.a[1])


def tryconv(I, v, to):
    if isinstance(to, str) and to in WIDTH:
        w = WIDTH[to]
        mx = (1 << w) - 1 if to[0] == "u" else (1 << (w - 1)) - 1
        if isinstance(v, int):
            return OK(v) if 0 <= v <= mx else ERR(Opq("TryFromIntError"))
        c = wlt(v, mx + 1)
        return union([(c, OK(wtrunc(v, w))), (bdd.not_(c), ERR(Opq("TryFromIntError")))])
    t = to
    isref = isinstance(t, tuple) and t[0] == "ref"
    if isref:
        t = t[2]
    if isinstance(t, tuple) and t[0] == "array":
        n = t[2][1]
        s = I.seq(v)
        if len(s.i) != n:
            return ERR(Opq("TryFromSliceError") if isinstance(v, Ref) else v)
        return OK(v if isref else Seq(s.i))
    raise Unsupported("try_from to %s" % tstr(to))


@trm("core::convert::AsRef", "as_ref")
def _asref(I, f, a):
    v = a[0]
    # AsRef through Arc/Box/&: delegate to the pointee
    if isinstance(v, Ref):
        w = I.rget(v)
        if isinstance(w, (Ref, Ptr)):
            r = I.dyn_impl(f, [w])
            if r is not None:
                return r
            return _asref(I, f, [w if isinstance(w, Ref) else Ref(w.c)])
        if isinstance(w, Adt):
            r = I.dyn_impl(f, [v])
            if r is not None:
                return r
    return v


@trm("core::convert::AsMut", "as_mut")
def _asmut(I, f, a):
    v = a[0]
    if isinstance(v, Ref):
        w = I.rget(v)
        if isinstance(w, (Ref, Ptr)):
            return w if isinstance(w, Ref) else Ref(w.c)
    return v


TRAIT[("core::borrow::Borrow", "borrow")] = _asref
TRAIT[("core::borrow::BorrowMut", "borrow_mut")] = _asmut


@trm("core::default::Default", "default")
def _default(I, f, a):
    return default(I, f.a[0])


def default(I, t):
    if isinstance(t, str):
        if t == "bool":
            return False
        if t in WIDTH:
            return 0
        if t == "str":
            return ""
    if isinstance(t, tuple):
        if t[0] == "adt":
            if t[1] == "alloc::vec::Vec":
                return Seq(())
            if t[1] == OPT:
                return NONE
            if t[1] == "alloc::string::String":
                return ""
            r = I.prog.find_impl("core::default::Default", (t,))
            if r:
                return I.call_fn(I.prog.fns[r[0].fns["default"]], r[1], [])
            if t[1] == "core::marker::PhantomData":
                return Adt(t[1], 0, ())
        if t[0] == "tuple":
            return Seq([default(I, x) for x in t[1]])
        if t[0] == "array":
            return Seq([default(I, t[1])] * t[2][1])
    r = I.env.default(t) if hasattr(I.env, "default") else None
    if r is not None:
        return r
    raise Unsupported("default of %s" % tstr(t))


# =============================================================== clone / copy
def clone(I, v):
    if isinstance(v, (Poly, GE, int, bool, B, W, str, Ref, Opq, It, X.FnDef)):
        return v
    if isinstance(v, Seq):
        return Seq([clone(I, x) for x in v.i])
    if isinstance(v, Adt):
        if v.p in I.prog.adts and I.prog.adts[v.p]["local"]:
            for im in I.prog.trait_impls.get("core::clone::Clone", []):
                if isinstance(im.self, tuple) and im.self[0] == "adt" and im.self[1] == v.p:
                    fn = I.prog.fns[im.fns["clone"]]
                    return I.call_fn(fn, tuple(None for _ in fn.generics), [I.ref(v)])
        return Adt(v.p, v.v, tuple(clone(I, x) for x in v.f))
    if isinstance(v, Ptr):
        if v.k == "Arc":
            return v
        return Ptr(v.k, I.cell(clone(I, I.load(v.c, ()))))
    if isinstance(v, U):
        return union([(c, clone(I, x)) for c, x in v.a if bdd.and_(c, I.pc) != FALSE])
    if isinstance(v, Clo):
        return Clo(v.key, v.env, tuple(clone(I, x) for x in v.f))
    return v


@trm("core::clone::Clone", "clone")
def _clone(I, f, a):
    return clone(I, I.rget(a[0]))


@trm("core::clone::Clone", "clone_from")
def _clonef(I, f, a):
    I.rset(a[0], clone(I, I.rget(a[1])))
    return UNIT


@trm("alloc::borrow::ToOwned", "to_owned")
def _to_owned(I, f, a):
    v = I.strip(a[0])
    return clone(I, v)


@trm("core::ops::deref::Deref", "deref")
def _deref(I, f, a):
    v = a[0]
    if isinstance(v, Ref):
        w = I.rget(v)
        if isinstance(w, Ptr):
            return Ref(w.c)
        if isinstance(w, Ref) or isinstance(w, U) and all(isinstance(x, Ref) for _, x in w.a):
            return w          # <&T>::deref, and a bitvec BitRef stands for a reference to its bit
        if isinstance(w, U) and all(isinstance(x, Ptr) for _, x in w.a):
            return U([(c, Ref(x.c)) for c, x in w.a])
        r = I.env.deref_trait(w) if hasattr(I.env, "deref_trait") else None
        if r is not None:
            return r
    return v


TRAIT[("core::ops::deref::DerefMut", "deref_mut")] = _deref


# =============================================================== Option / Result
def osplit(I, v, some, none):
    return I.split(v, lambda o: some(o.f[0]) if o.v == 1 else none())


def rsplit(I, v, ok, err):
    return I.split(v, lambda o: ok(o.f[0]) if o.v == 0 else err(o.f[0]))


def callf(I, f, *args):
    return I.call_value(f, list(args))


O = OPT + "::"
R = RES + "::"


def isv(v, k):
    """bool: enum value has variant k"""
    n = FALSE
    for c, x in flat(TRUE, v):
        if x.v == k:
            n = bdd.or_(n, c)
    return tob(n) if isinstance(v, U) else v.v == k


def vbool(I, v, k):
    v = I.strip(v)
    if not isinstance(v, U):
        return v.v == k
    n = FALSE
    for c, x in v.a:
        if x.v == k:
            n = bdd.or_(n, c)
    # canonical under pc
    if bdd.and_(I.pc, n) == FALSE:
        return False
    if bdd.and_(I.pc, bdd.not_(n)) == FALSE:
        return True
    return tob(n)


@fnm(O + "is_some")
def _is_some(I, f, a):
    return vbool(I, a[0], 1)


@fnm(O + "is_none")
def _is_none(I, f, a):
    return vbool(I, a[0], 0)


@fnm(R + "is_ok")
def _is_ok(I, f, a):
    return vbool(I, a[0], 0)


@fnm(R + "is_err")
def _is_err(I, f, a):
    return vbool(I, a[0], 1)


@fnm(O + "is_some_and")
def _isa(I, f, a):
    return osplit(I, a[0], lambda v: callf(I, a[1], v), lambda: False)


@fnm(O + "is_none_or")
def _ino(I, f, a):
    return osplit(I, a[0], lambda v: callf(I, a[1], v), lambda: True)


@fnm(R + "is_ok_and")
def _roka(I, f, a):
    return rsplit(I, a[0], lambda v: callf(I, a[1], v), lambda e: False)


@fnm(O + "as_deref", O + "as_deref_mut")
def _oderef(I, f, a):
    v = _oref(I, f, a)
    return I.split(v, lambda o: NONE if o.v == 0 else SOME(_deref(I, f, [o.f[0]])))


@fnm(R + "as_deref", R + "as_deref_mut")
def _rderef(I, f, a):
    v = _rref(I, f, a)
    return I.split(v, lambda o: o if o.v == 1 else Adt(RES, 0, (_deref(I, f, [o.f[0]]),)))


@fnm(O + "as_ref", O + "as_mut")
def _oref(I, f, a):
    r = a[0]
    v = I.rget(r)
    return I.split(v, lambda o: NONE if o.v == 0 else SOME(Ref(*(lambda c, p: (c, p + (("v", 1), 0)))(*I.deref(r)))))


@fnm(R + "as_ref", R + "as_mut")
def _rref(I, f, a):
    r = a[0]
    v = I.rget(r)
    return I.split(v, lambda o: Adt(RES, o.v, (Ref(*(lambda c, p: (c, p + (("v", o.v), 0)))(*I.deref(r))),)))


@fnm(O + "unwrap", O + "expect")
def _ounwrap(I, f, a):
    def none():
        I.panic("Option::%s on None" % f.p.split("::")[-1], I.pc, I.frames[-1] if I.frames else None)
        raise Diverge()
    return osplit(I, a[0], lambda v: v, none)


@fnm(R + "unwrap", R + "expect")
def _runwrap(I, f, a):
    def bad(e):
        I.panic("Result::%s on Err" % f.p.split("::")[-1], I.pc, I.frames[-1] if I.frames else None)
        raise Diverge()
    return rsplit(I, a[0], lambda v: v, bad)


@fnm(R + "unwrap_err", R + "expect_err")
def _runwrape(I, f, a):
    def bad(e):
        panic(I, "Result::unwrap_err on Ok")
    return rsplit(I, a[0], bad, lambda e: e)


@fnm(O + "unwrap_or")
def _ouo(I, f, a):
    return osplit(I, a[0], lambda v: v, lambda: a[1])


@fnm(R + "unwrap_or")
def _ruo(I, f, a):
    return rsplit(I, a[0], lambda v: v, lambda e: a[1])


@fnm(O + "unwrap_or_else")
def _ouoe(I, f, a):
    return osplit(I, a[0], lambda v: v, lambda: callf(I, a[1]))


@fnm(R + "unwrap_or_else")
def _ruoe(I, f, a):
    return rsplit(I, a[0], lambda v: v, lambda e: callf(I, a[1], e))


@fnm(O + "unwrap_or_default")
def _ouod(I, f, a):
    return osplit(I, a[0], lambda v: v, lambda: default(I, f.a[0]))


@fnm(R + "unwrap_or_default")
def _ruod(I, f, a):
    return rsplit(I, a[0], lambda v: v, lambda e: default(I, f.a[0]))


@fnm(O + "map")
def _omap(I, f, a):
    return osplit(I, a[0], lambda v: SOME(callf(I, a[1], v)), lambda: NONE)


@fnm(R + "map")
def _rmap(I, f, a):
    return rsplit(I, a[0], lambda v: OK(callf(I, a[1], v)), lambda e: ERR(e))


@fnm(R + "map_err")
def _rmape(I, f, a):
    return rsplit(I, a[0], lambda v: OK(v), lambda e: ERR(callf(I, a[1], e)))


@fnm(O + "map_or")
def _omo(I, f, a):
    return osplit(I, a[0], lambda v: callf(I, a[2], v), lambda: a[1])


@fnm(R + "map_or")
def _rmo(I, f, a):
    return rsplit(I, a[0], lambda v: callf(I, a[2], v), lambda e: a[1])


@fnm(O + "map_or_else")
def _omoe(I, f, a):
    return osplit(I, a[0], lambda v: callf(I, a[2], v), lambda: callf(I, a[1]))


@fnm(R + "map_or_else")
def _rmoe(I, f, a):
    return rsplit(I, a[0], lambda v: callf(I, a[2], v), lambda e: callf(I, a[1], e))


@fnm(O + "and_then")
def _oat(I, f, a):
    return osplit(I, a[0], lambda v: callf(I, a[1], v), lambda: NONE)


@fnm(R + "and_then")
def _rat(I, f, a):
    return rsplit(I, a[0], lambda v: callf(I, a[1], v), lambda e: ERR(e))


@fnm(O + "and")
def _oand(I, f, a):
    return osplit(I, a[0], lambda v: a[1], lambda: NONE)


@fnm(R + "and")
def _rand(I, f, a):
    return rsplit(I, a[0], lambda v: a[1], lambda e: ERR(e))


@fnm(O + "or")
def _oor(I, f, a):
    return osplit(I, a[0], lambda v: SOME(v), lambda: a[1])


@fnm(O + "or_else")
def _ooe(I, f, a):
    return osplit(I, a[0], lambda v: SOME(v), lambda: callf(I, a[1]))


@fnm(R + "or_else")
def _roe(I, f, a):
    return rsplit(I, a[0], lambda v: OK(v), lambda e: callf(I, a[1], e))


@fnm(O + "xor")
def _oxor(I, f, a):
    return osplit(I, a[0], lambda v: osplit(I, a[1], lambda w: NONE, lambda: SOME(v)), lambda: a[1])


@fnm(O + "ok_or")
def _ooo(I, f, a):
    return osplit(I, a[0], lambda v: OK(v), lambda: ERR(a[1]))


@fnm(O + "ok_or_else")
def _oooe(I, f, a):
    return osplit(I, a[0], lambda v: OK(v), lambda: ERR(callf(I, a[1])))


@fnm(R + "ok")
def _rok(I, f, a):
    return rsplit(I, a[0], lambda v: SOME(v), lambda e: NONE)


@fnm(R + "err")
def _rerr(I, f, a):
    return rsplit(I, a[0], lambda v: NONE, lambda e: SOME(e))


@fnm(O + "filter")
def _ofilter(I, f, a):
    return osplit(I, a[0], lambda v: I.ite(callf(I, a[1], I.ref(v)), lambda: SOME(v), lambda: NONE), lambda: NONE)


@fnm(O + "take")
def _otake(I, f, a):
    v = I.rget(a[0])
    I.rset(a[0], NONE)
    return v


@fnm(O + "replace")
def _orep(I, f, a):
    v = I.rget(a[0])
    I.rset(a[0], SOME(a[1]))
    return v


@fnm(O + "insert")
def _oins(I, f, a):
    I.rset(a[0], SOME(a[1]))
    c, p = I.deref(a[0])
    return Ref(c, p + (("v", 1), 0))


@fnm(O + "get_or_insert_with")
def _ogiw(I, f, a):
    c, p = I.deref(a[0])
    I.split(I.rget(a[0]), lambda o: None if o.v == 1 else I.rset(a[0], SOME(callf(I, a[1]))))
    return Ref(c, p + (("v", 1), 0))


@fnm(O + "cloned", O + "copied")
def _ocloned(I, f, a):
    return osplit(I, a[0], lambda v: SOME(clone(I, I.rget(v))), lambda: NONE)


@fnm(R + "cloned", R + "copied")
def _rcloned(I, f, a):
    return rsplit(I, a[0], lambda v: OK(clone(I, I.rget(v))), lambda e: ERR(e))


@fnm(O + "zip")
def _ozip(I, f, a):
    return osplit(I, a[0], lambda v: osplit(I, a[1], lambda w: SOME(TUP(v, w)), lambda: NONE), lambda: NONE)


@fnm(O + "transpose")
def _otr(I, f, a):
    return osplit(I, a[0], lambda r: rsplit(I, r, lambda v: OK(SOME(v)), lambda e: ERR(e)), lambda: OK(NONE))


@fnm(R + "transpose")
def _rtr(I, f, a):
    return rsplit(I, a[0], lambda o: osplit(I, o, lambda v: SOME(OK(v)), lambda: NONE), lambda e: SOME(ERR(e)))


@fnm(O + "flatten")
def _ofl(I, f, a):
    return osplit(I, a[0], lambda v: v, lambda: NONE)


@fnm(O + "iter", O + "iter_mut")
def _oiter(I, f, a):
    return I.split(_oref(I, f, a), lambda o: It("vals", Seq(o.f), 0, len(o.f)))


@fnm(R + "iter", R + "iter_mut")
def _riter(I, f, a):
    raise Unsupported("Result::iter")


@fnm(O + "inspect", R + "inspect", R + "inspect_err")
def _oinsp(I, f, a):
    return a[0]


@trm("core::ops::try_trait::Try", "branch")
def _branch(I, f, a):
    def go(o):
        if o.p == RES:
            return CONT(o.f[0]) if o.v == 0 else BRK(o)
        if o.p == OPT:
            return CONT(o.f[0]) if o.v == 1 else BRK(o)
        if o.p == CF:
            return o
        raise Unsupported("? on %r" % (o,))
    v = a[0]
    if isinstance(v, U):
        return union([(c, go(x)) for c, x in v.a if bdd.and_(c, I.pc) != FALSE])
    return go(v)


@trm("core::ops::try_trait::FromResidual", "from_residual")
def _fromres(I, f, a):
    def go(o):
        if o.p == RES:
            e = o.f[0]
            st, rt = f.a[0], f.a[1]
            F = st[2][1] if isinstance(st, tuple) and st[0] == "adt" and st[1] == RES else None
            E = rt[2][1] if isinstance(rt, tuple) and rt[0] == "adt" and rt[1] == RES else None
            F, E = I.prog.norm(F), I.prog.norm(E)
            if F is None or E is None or F == E:
                return ERR(e)
            return ERR(convert(I, e, F, E))
        return o
    return I.split(a[0], go)


@trm("core::ops::try_trait::Try", "from_output")
def _fromout(I, f, a):
    t = f.a[0]
    if isinstance(t, tuple) and t[0] == "adt":
        return OK(a[0]) if t[1] == RES else SOME(a[0]) if t[1] == OPT else CONT(a[0])
    raise Unsupported("from_output")


# =============================================================== slices / Vec
def sref(I, r):
    """reference to a sequence -> (cell, path, start, len) with Ref/Ptr chains followed"""
    while True:
        if isinstance(r, Ptr):
            r = Ref(r.c)
        if isinstance(r, U):
            raise Unsupported("gated slice reference")
        if not isinstance(r, Ref):
            s = I.env.as_slice(r) if hasattr(I.env, "as_slice") else None
            if s is not None:
                r = s
                continue
            raise Unsupported("not a slice reference: %r" % (r,))
        v = I.rget(r)
        if isinstance(v, (Ref, Ptr)):
            r = v
            continue
        if isinstance(v, Seq):
            return r.c, r.p, len(v.i)
        s = I.env.as_slice(r) if hasattr(I.env, "as_slice") else None
        if s is not None:
            r = s
            continue
        if isinstance(v, U):
            raise Unsupported("gated sequence")
        raise Unsupported("not a slice: %r" % (v,))


def gsp(I, r, fn):
    """apply fn to a slice reference, splitting gated references"""
    while isinstance(r, (Ref, Ptr)):
        v = I.rget(r)
        if isinstance(v, (Ref, Ptr)):
            r = v
        elif isinstance(v, U) and any(isinstance(x, (Ref, Ptr)) for _, x in v.a):
            return I.split(v, lambda x: gsp(I, x, fn))
        elif isinstance(v, U) and any(isinstance(x, Seq) for _, x in v.a):
            # gated contents of different length: split on alternatives by restricting pc
            return I.cases([(c, (lambda: fn(r))) for c, x in v.a])
        else:
            break
    if isinstance(r, U):
        return I.split(r, lambda x: gsp(I, x, fn))
    return fn(r)


def view(I, r):
    """the sequence behind r (gated unions restricted by pc)"""
    c, p, n = sref(I, r)
    return c, p, n


def wslice(I, r, items):
    c, p, n = sref(I, r)
    I.store(c, p, Seq(items))


def bounds(I, ok, what):
    if not ok:
        panic(I, what)


@fnm("alloc::vec::Vec::new", "alloc::string::String::new")
def _vnew(I, f, a):
    if "String" in f.p:
        return ""
    return Seq(())


@fnm("alloc::vec::Vec::with_capacity")
def _vwc(I, f, a):
    I.env.alloc_hint(I, a[0]) if hasattr(I.env, "alloc_hint") else None
    return Seq(())


@fnm("alloc::vec::Vec::reserve", "alloc::vec::Vec::reserve_exact", "alloc::vec::Vec::try_reserve",
     "alloc::vec::Vec::try_reserve_exact")
def _vres(I, f, a):
    I.env.alloc_hint(I, a[1]) if hasattr(I.env, "alloc_hint") else None
    return OK(UNIT) if "try" in f.p else UNIT


@fnm("alloc::vec::Vec::shrink_to_fit")
def _vstf(I, f, a):
    return UNIT


@fnm("alloc::vec::Vec::capacity")
def _vcap(I, f, a):
    return len(I.seq(a[0]).i)


@fnm("alloc::vec::from_elem")
def _fe(I, f, a):
    n = a[1]
    if hasattr(I.env, "alloc_hint"):
        I.env.alloc_hint(I, n)
    n = usz(I, n)
    if n > 1 << 20:
        raise Unsupported("huge vec![_; %d]" % n)
    return Seq([a[0]] * n)


@fnm("alloc::vec::Vec::push", "bitvec::vec::BitVec::push")
def _push(I, f, a):
    def go(r):
        c, p, n = sref(I, r)
        I.store(c, p, Seq(I.load(c, p).i + (a[1],)))
        return UNIT
    return gsp(I, a[0], go)


@fnm("alloc::vec::Vec::pop", "bitvec::vec::BitVec::pop")
def _pop(I, f, a):
    def go(r):
        c, p, n = sref(I, r)
        v = I.load(c, p)
        if not n:
            return NONE
        I.store(c, p, Seq(v.i[:-1]))
        return SOME(v.i[-1])
    return gsp(I, a[0], go)


@fnm("alloc::vec::Vec::len", "slice::len", "bitvec::vec::BitVec::len", "bitvec::slice::BitSlice::len", "array::len")
def _len(I, f, a):
    s = I.strip(a[0])
    if isinstance(s, U):
        return union([(c, len(x.i)) for c, x in s.a if bdd.and_(c, I.pc) != FALSE])
    if isinstance(s, Seq):
        return len(s.i)
    return len(I.seq(s).i)


@fnm("alloc::vec::Vec::is_empty", "slice::is_empty", "bitvec::vec::BitVec::is_empty", "bitvec::slice::BitSlice::is_empty")
def _isempty(I, f, a):
    n = _len(I, f, a)
    return n == 0 if isinstance(n, int) else tob(weq(n, 0))


@fnm("alloc::vec::Vec::clear")
def _clear(I, f, a):
    wslice(I, a[0], ())
    return UNIT


@fnm("alloc::vec::Vec::truncate")
def _trunc(I, f, a):
    n = usz(I, a[1])
    c, p, _ = sref(I, a[0])
    I.store(c, p, Seq(I.load(c, p).i[:n]))
    return UNIT


@fnm("alloc::vec::Vec::resize", "bitvec::vec::BitVec::resize")
def _resize(I, f, a):
    n = usz(I, a[1])
    if hasattr(I.env, "alloc_hint"):
        I.env.alloc_hint(I, n)
    if n > 1 << 20:
        raise Unsupported("huge resize")
    c, p, _ = sref(I, a[0])
    v = I.load(c, p)
    I.store(c, p, Seq(v.i[:n] + (a[2],) * (n - len(v.i))))
    return UNIT


@fnm("alloc::vec::Vec::resize_with")
def _resizew(I, f, a):
    n = usz(I, a[1])
    c, p, _ = sref(I, a[0])
    v = list(I.load(c, p).i[:n])
    while len(v) < n:
        v.append(callf(I, a[2]))
    I.store(c, p, Seq(v))
    return UNIT


@fnm("alloc::vec::Vec::extend_from_slice")
def _efs(I, f, a):
    s = I.seq(a[1])
    c, p, _ = sref(I, a[0])
    I.store(c, p, Seq(I.load(c, p).i + tuple(clone(I, x) for x in s.i)))
    return UNIT


@fnm("alloc::vec::Vec::append")
def _append(I, f, a):
    s = I.seq(a[1])
    c, p, _ = sref(I, a[0])
    I.store(c, p, Seq(I.load(c, p).i + s.i))
    wslice(I, a[1], ())
    return UNIT


@fnm("alloc::vec::Vec::insert")
def _vins(I, f, a):
    k = usz(I, a[1])
    c, p, _ = sref(I, a[0])
    v = I.load(c, p).i
    bounds(I, k <= len(v), "Vec::insert out of bounds")
    I.store(c, p, Seq(v[:k] + (a[2],) + v[k:]))
    return UNIT


@fnm("alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove")
def _vrem(I, f, a):
    k = usz(I, a[1])
    c, p, _ = sref(I, a[0])
    v = I.load(c, p).i
    bounds(I, k < len(v), "Vec::remove out of bounds")
    if "swap" in f.p:
        w = list(v)
        w[k] = w[-1]
        I.store(c, p, Seq(w[:-1]))
    else:
        I.store(c, p, Seq(v[:k] + v[k + 1:]))
    return v[k]


@fnm("alloc::vec::Vec::split_off")
def _so(I, f, a):
    k = usz(I, a[1])
    c, p, _ = sref(I, a[0])
    v = I.load(c, p).i
    bounds(I, k <= len(v), "split_off out of bounds")
    I.store(c, p, Seq(v[:k]))
    return Seq(v[k:])


@fnm("alloc::vec::Vec::drain")
def _drain(I, f, a):
    c, p, n = sref(I, a[0])
    lo, hi = rng(I, a[1], n)
    v = I.load(c, p).i
    bounds(I, lo <= hi <= n, "drain out of bounds")
    I.store(c, p, Seq(v[:lo] + v[hi:]))
    return It("vals", Seq(v[lo:hi]), 0, hi - lo)


@fnm("alloc::vec::Vec::into_boxed_slice", "slice::into_vec", "slice::to_vec", "alloc::slice::into_vec",
     "alloc::slice::to_vec", "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice", "array::as_slice",
     "slice::as_slice", "bitvec::vec::BitVec::as_bitslice")
def _tv(I, f, a):
    if f.p.endswith("as_slice") or f.p.endswith("as_mut_slice") or f.p.endswith("as_bitslice"):
        return a[0]
    s = I.seq(a[0])
    if f.p.endswith("into_boxed_slice"):
        return Ptr("Box", I.cell(s))
    return Seq([clone(I, x) for x in s.i]) if f.p.endswith("to_vec") else s


def rng(I, r, n):
    """range value -> (lo, hi) over a sequence of length n"""
    if isinstance(r, It) and r.k == "range":
        return usz(I, r.f[0]), usz(I, r.f[1])
    if isinstance(r, Adt):
        k = r.p.split("::")[-1]
        if k == "Range":
            return usz(I, r.f[0]), usz(I, r.f[1])
        if k == "RangeTo":
            return 0, usz(I, r.f[0])
        if k == "RangeFrom":
            return usz(I, r.f[0]), n
        if k == "RangeFull":
            return 0, n
        if k == "RangeInclusive":
            return usz(I, r.f[0]), usz(I, r.f[1]) + 1
        if k == "RangeToInclusive":
            return 0, usz(I, r.f[0]) + 1
    raise Unsupported("range %r" % (r,))


def index(I, base, i):
    if isinstance(i, (int, W, U)) and not isinstance(i, bool):
        def go(b):
            c, p, n = sref(I, b)
            if isinstance(i, int):
                bounds(I, 0 <= i < n, "index out of bounds")
                return Ref(c, I.idx(p, i))
            alts = []
            oob = FALSE
            for d, x in I.ivals(i):
                if bdd.and_(d, I.pc) == FALSE:
                    continue
                if x < n:
                    alts.append((d, Ref(c, I.idx(p, x))))
                else:
                    oob = bdd.or_(oob, d)
            if bdd.and_(I.pc, oob) != FALSE:
                need(I, tob(bdd.not_(oob)), "index out of bounds")
            return U(alts) if len(alts) > 1 else alts[0][1]
        return gsp(I, base, go)
    if isinstance(i, (Adt, It)):
        def go(b):
            c, p, n = sref(I, b)
            lo, hi = rng(I, i, n)
            bounds(I, lo <= hi <= n, "slice index out of range")
            return Ref(c, I.sl(p, lo, hi))
        return gsp(I, base, go)
    return None


@trm("core::ops::index::Index", "index")
def _index(I, f, a):
    return index(I, a[0], a[1])


@trm("core::ops::index::IndexMut", "index_mut")
def _indexm(I, f, a):
    return index(I, a[0], a[1])


@fnm("slice::get", "slice::get_mut", "alloc::vec::Vec::get", "bitvec::slice::BitSlice::get")
def _get(I, f, a):
    i = a[1]
    def go(b):
        c, p, n = sref(I, b)
        if isinstance(i, int):
            return SOME(Ref(c, I.idx(p, i))) if i < n else NONE
        if isinstance(i, (Adt, It)):
            lo, hi = rng(I, i, n)
            return SOME(Ref(c, I.sl(p, lo, hi))) if lo <= hi <= n else NONE
        return union([(d, SOME(Ref(c, I.idx(p, x))) if x < n else NONE) for d, x in I.ivals(i)])
    return gsp(I, a[0], go)


@fnm("bitvec::slice::BitSlice::set")
def _bset(I, f, a):
    I.rset(index(I, a[0], a[1]), a[2])
    return UNIT


@fnm("bitvec::slice::BitSlice::count_ones")
def _cones(I, f, a):
    r = 0
    for b in I.seq(a[0]).i:
        r = wadd(r, int(b) if isinstance(b, bool) else wmk([b.n]), 64)
    return r


@fnm("bitvec::slice::BitSlice::count_zeros")
def _czeros(I, f, a):
    return wsub(len(I.seq(a[0]).i), _cones(I, f, a), 64)


@fnm("bitvec::vec::BitVec::new", "bitvec::vec::BitVec::with_capacity", "bitvec::vec::BitVec::repeat")
def _bvnew(I, f, a):
    if f.p.endswith("repeat"):
        return Seq([a[0]] * usz(I, a[1]))
    return Seq(())


@fnm("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def _first(I, f, a):
    def go(r):
        c, p, n = sref(I, r)
        if n == 0:
            return NONE
        return SOME(Ref(c, I.idx(p, 0 if "first" in f.p else n - 1)))
    return gsp(I, a[0], go)


@fnm("slice::split_at", "slice::split_at_mut")
def _splitat(I, f, a):
    k = usz(I, a[1])
    def go(r):
        c, p, n = sref(I, r)
        bounds(I, k <= n, "split_at out of range")
        return TUP(Ref(c, I.sl(p, 0, k)), Ref(c, I.sl(p, k, n)))
    return gsp(I, a[0], go)


@fnm("slice::split_first", "slice::split_first_mut", "slice::split_last", "slice::split_last_mut")
def _splitf(I, f, a):
    def go(r):
        c, p, n = sref(I, r)
        if n == 0:
            return NONE
        if "first" in f.p:
            return SOME(TUP(Ref(c, I.idx(p, 0)), Ref(c, I.sl(p, 1, n))))
        return SOME(TUP(Ref(c, I.idx(p, n - 1)), Ref(c, I.sl(p, 0, n - 1))))
    return gsp(I, a[0], go)


@fnm("slice::reverse")
def _reverse(I, f, a):
    wslice(I, a[0], tuple(reversed(I.seq(a[0]).i)))
    return UNIT


@fnm("slice::swap")
def _sswap(I, f, a):
    i, j = usz(I, a[1]), usz(I, a[2])
    v = list(I.seq(a[0]).i)
    bounds(I, i < len(v) and j < len(v), "swap out of bounds")
    v[i], v[j] = v[j], v[i]
    wslice(I, a[0], v)
    return UNIT


@fnm("slice::fill")
def _fill(I, f, a):
    wslice(I, a[0], [a[1]] * len(I.seq(a[0]).i))
    return UNIT


@fnm("slice::rotate_left", "slice::rotate_right")
def _srot(I, f, a):
    v = I.seq(a[0]).i
    k = usz(I, a[1])
    bounds(I, k <= len(v), "rotate out of range")
    if "right" in f.p:
        k = len(v) - k
    wslice(I, a[0], v[k:] + v[:k])
    return UNIT


@fnm("slice::copy_from_slice", "slice::clone_from_slice")
def _cfs(I, f, a):
    s = I.seq(a[1])
    bounds(I, len(s.i) == len(I.seq(a[0]).i), "copy_from_slice length mismatch")
    wslice(I, a[0], s.i)
    return UNIT


@fnm("slice::concat", "alloc::slice::concat")
def _concat(I, f, a):
    out = []
    for x in I.seq(a[0]).i:
        out += list(I.seq(x).i)
    return Seq(out)


@fnm("slice::contains")
def _contains(I, f, a):
    n = FALSE
    for x in I.seq(a[0]).i:
        n = bdd.or_(n, bn(veq(I, x, a[1])))
    return tob(n)


@fnm("slice::starts_with", "slice::ends_with")
def _sw(I, f, a):
    s, t = I.seq(a[0]).i, I.seq(a[1]).i
    if len(t) > len(s):
        return False
    s = s[:len(t)] if "starts" in f.p else s[len(s) - len(t):]
    return veq(I, Seq(s), Seq(t))


# =============================================================== mem / Box / Arc / fmt
@fnm("core::mem::drop")
def _mdrop(I, f, a):
    I.drop_value(a[0], I.prog.norm(f.a[0]) if f.a else None)
    return UNIT


@fnm("core::mem::forget")
def _forget(I, f, a):
    return UNIT


@fnm("core::mem::replace")
def _mrep(I, f, a):
    v = I.rget(a[0])
    I.rset(a[0], a[1])
    return v


@fnm("core::mem::take")
def _mtake(I, f, a):
    v = I.rget(a[0])
    I.rset(a[0], default(I, I.prog.norm(f.a[0])))
    return v


@fnm("core::mem::swap")
def _mswap(I, f, a):
    x, y = I.rget(a[0]), I.rget(a[1])
    I.rset(a[0], y)
    I.rset(a[1], x)
    return UNIT


@fnm("alloc::boxed::Box::new", "alloc::boxed::Box::pin")
def _boxnew(I, f, a):
    return Ptr("Box", I.cell(a[0]))


@fnm("alloc::boxed::Box::new_uninit")
def _boxun(I, f, a):
    return Ptr("Box", I.cell(Adt("core::mem::maybe_uninit::MaybeUninit", 0, (
        UNINIT, Adt("core::mem::manually_drop::ManuallyDrop", 0, (UNINIT,))))))


@fnm("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::Box::assume_init")
def _boxai(I, f, a):
    v = I.load(a[0].c, ())
    while isinstance(v, Adt) and v.p.startswith("core::mem::m"):
        v = v.f[-1]
    return v if "vec" in f.p else a[0]


@fnm("alloc::rcs::arc::Arc::new", "alloc::sync::Arc::new", "alloc::rc::Rc::new", "alloc::rcs::rc::Rc::new")
def _arcnew(I, f, a):
    return Ptr("Arc", I.cell(a[0]))


@fnm("alloc::rcs::arc::Arc::try_unwrap", "alloc::sync::Arc::try_unwrap")
def _arctu(I, f, a):
    raise Unsupported("Arc::try_unwrap")


@fnm("alloc::rcs::arc::Arc::clone", "alloc::sync::Arc::clone")
def _arcclone(I, f, a):
    return I.rget(a[0])


@fnm("core::hint::must_use", "core::hint::black_box", "core::convert::identity")
def _mu(I, f, a):
    return a[0]


@fnm("core::fmt::Arguments::new", "core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const",
     "core::fmt::Arguments::new_v1")
def _fargs(I, f, a):
    return Opq("fmt")


@fnm("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug",
     "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_upper_hex")
def _farg(I, f, a):
    return Opq("fmtarg")


@fnm("alloc::fmt::format")
def _fformat(I, f, a):
    return "<fmt>"


@trm("alloc::string::ToString", "to_string")
def _tos(I, f, a):
    v = I.strip(a[0])
    return v if isinstance(v, str) else "<fmt>"


@fnm("str::chars")
def _chars(I, f, a):
    s = I.strip(a[0])
    return It("vals", Seq(tuple(ord(c) for c in s)), 0, len(s))


@fnm("str::len", "alloc::string::String::len")
def _strlen(I, f, a):
    return len(I.strip(a[0]).encode())


@fnm("str::as_bytes", "str::into_bytes", "alloc::string::String::into_bytes", "alloc::string::String::as_bytes")
def _strb(I, f, a):
    s = Seq(tuple(I.strip(a[0]).encode()))
    return I.gref(s) if f.p.endswith("as_bytes") else s


@fnm("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_display",
     "core::panicking::assert_failed", "core::panicking::panic_explicit", "core::panicking::unreachable_display",
     "std::rt::begin_panic", "std::panicking::begin_panic", "core::panicking::panic_const",
     "core::option::expect_failed", "core::option::unwrap_failed", "core::panicking::assert_failed_inner",
     "core::slice::index::slice_end_index_len_fail", "core::panicking::unreachable",
     "core::panicking::panic_bounds_check", "core::panicking::assert_matches_failed",
     "std::process::abort", "std::process::exit", "core::panicking::panic_nounwind", "core::panicking::panic_str_2015")
def _panic(I, f, a):
    what = a[0] if a and isinstance(a[0], str) else f.p.split("::")[-1]
    I.panic(what, I.pc, I.frames[-1] if I.frames else None)
    raise Diverge()


@fnm("log::max_level")
def _lml(I, f, a):
    return Adt("log::LevelFilter", 0, ())


@fnm("log::__private_api_log", "log::__private_api::log")
def _log(I, f, a):
    return UNIT


# =============================================================== integers
def _intm(name):
    return ["%s::%s" % (t, name) for t in WIDTH] + ["core::num::%s::%s" % (t, name) for t in WIDTH]


def ity(f):
    for t in f.p.split("::"):
        if t in WIDTH:
            return t
    return "usize"


@fnm(*_intm("max_value"))
def _maxv(I, f, a):
    t = ity(f)
    return (1 << WIDTH[t]) - 1 if t[0] == "u" else (1 << (WIDTH[t] - 1)) - 1


@fnm(*_intm("min_value"))
def _minv(I, f, a):
    t = ity(f)
    return 0 if t[0] == "u" else -(1 << (WIDTH[t] - 1))


@fnm(*(_intm("rotate_right") + _intm("rotate_left")))
def _rot(I, f, a):
    w = WIDTH[ity(f)]
    k = usz(I, a[1]) % w
    if "left" in f.p:
        k = (w - k) % w
    x = wbits(a[0])
    x = x + (0,) * (w - len(x))
    return wmk(x[k:] + x[:k])


@fnm(*(_intm("wrapping_add") + _intm("wrapping_sub") + _intm("wrapping_mul") + _intm("overflowing_add") +
       _intm("overflowing_sub") + _intm("checked_add") + _intm("checked_sub") + _intm("checked_mul") +
       _intm("saturating_add") + _intm("saturating_sub") + _intm("saturating_mul")))
def _warith(I, f, a):
    t = ity(f)
    kind, op = f.p.split("::")[-1].split("_")
    r = I.arith_ov(op.capitalize(), a[0], a[1], t)
    if kind == "wrapping":
        return r.i[0]
    if kind == "overflowing":
        return r
    if kind == "checked":
        return union([(bn(r.i[1]), NONE), (bdd.not_(bn(r.i[1])), SOME(r.i[0]))])
    sat = 0 if op == "sub" else (1 << WIDTH[t]) - 1
    return merge(bn(r.i[1]), sat, r.i[0])


@fnm(*(_intm("wrapping_shl") + _intm("wrapping_shr") + _intm("checked_shl") + _intm("checked_shr")))
def _wshift(I, f, a):
    t = ity(f)
    kind, op = f.p.split("::")[-1].split("_")
    k = usz(I, a[1])
    if kind == "checked" and k >= WIDTH[t]:
        return NONE
    r = I.binop("Shl" if op == "shl" else "Shr", a[0], k % WIDTH[t], t)
    return SOME(r) if kind == "checked" else r


@fnm(*(_intm("checked_div") + _intm("checked_rem") + _intm("div_euclid") + _intm("rem_euclid") + _intm("div_ceil") +
       _intm("next_multiple_of")))
def _cdiv(I, f, a):
    n = f.p.split("::")[-1]
    x, y = a
    if n.startswith("checked"):
        if isinstance(y, int) and y == 0:
            return NONE
        return SOME(I.arith("Div" if n.endswith("div") else "Rem", x, y, WIDTH[ity(f)], False))
    x, y = usz(I, x), usz(I, y)
    if y == 0:
        panic(I, "division by zero")
    return {"div_euclid": x // y, "rem_euclid": x % y, "div_ceil": -(-x // y), "next_multiple_of": -(-x // y) * y}[n]


@fnm(*(_intm("count_ones") + _intm("leading_zeros") + _intm("trailing_zeros") + _intm("is_power_of_two") +
       _intm("next_power_of_two") + _intm("ilog2") + _intm("checked_next_power_of_two") + _intm("swap_bytes") +
       _intm("reverse_bits") + _intm("abs") + _intm("checked_ilog2") + _intm("count_zeros")))
def _intfn(I, f, a):
    n = f.p.split("::")[-1]
    t = ity(f)
    w = WIDTH[t]
    if n in ("swap_bytes", "reverse_bits"):
        x = wbits(a[0])
        x = x + (0,) * (w - len(x))
        if n == "reverse_bits":
            return wmk(x[::-1])
        return wmk(sum((x[i:i + 8] for i in range(w - 8, -1, -8)), ()))
    x = a[0]
    if not isinstance(x, int):
        if n == "count_ones":
            r = 0
            for b in wbits(x):
                r = wadd(r, wmk([b]), 32)
            return r
        x = usz(I, x)
    if n == "count_ones":
        return bin(x).count("1")
    if n == "count_zeros":
        return w - bin(x).count("1")
    if n == "leading_zeros":
        return w - x.bit_length()
    if n == "trailing_zeros":
        return w if x == 0 else (x & -x).bit_length() - 1
    if n == "is_power_of_two":
        return x > 0 and x & (x - 1) == 0
    if n in ("next_power_of_two", "checked_next_power_of_two"):
        r = 1 if x <= 1 else 1 << (x - 1).bit_length()
        if n[0] == "c":
            return SOME(r) if r < 1 << w else NONE
        bounds(I, r < 1 << w, "next_power_of_two overflow")
        return r
    if n == "ilog2":
        bounds(I, x > 0, "ilog2 of zero")
        return x.bit_length() - 1
    if n == "checked_ilog2":
        return SOME(x.bit_length() - 1) if x > 0 else NONE
    if n == "abs":
        return abs(x)
    return None


@fnm(*(_intm("pow") + _intm("checked_pow") + _intm("wrapping_pow")))
def _ipow(I, f, a):
    x, y = usz(I, a[0]), usz(I, a[1])
    r = x ** y
    if f.p.endswith("checked_pow"):
        return SOME(r) if r < 1 << WIDTH[ity(f)] else NONE
    if f.p.endswith("::pow"):
        bounds(I, r < 1 << WIDTH[ity(f)], "pow overflow")
    return r % (1 << WIDTH[ity(f)])


def _bytes(v, w):
    x = wbits(v)
    x = x + (0,) * (w - len(x))
    return [wmk(x[i:i + 8]) for i in range(0, w, 8)]


@fnm(*(_intm("to_le_bytes") + _intm("to_be_bytes") + _intm("to_ne_bytes")))
def _tob(I, f, a):
    b = _bytes(a[0], WIDTH[ity(f)])
    return Seq(b[::-1] if "be" in f.p.split("::")[-1] else b)


def from_bytes(items):
    bits = ()
    for x in items:
        y = wbits(x)
        bits += y + (0,) * (8 - len(y))
    return wmk(bits)


@fnm(*(_intm("from_le_bytes") + _intm("from_be_bytes") + _intm("from_ne_bytes")))
def _fromb(I, f, a):
    r = I.env.int_from_bytes(I, a[0], f.p.split("::")[-1]) if hasattr(I.env, "int_from_bytes") else None
    if r is not None:
        return r
    b = I.seq(a[0]).i
    return from_bytes(b[::-1] if "be" in f.p.split("::")[-1] else b)


@fnm(*(_intm("from_be") + _intm("to_be")))
def _frombe(I, f, a):
    return from_bytes(_bytes(a[0], WIDTH[ity(f)])[::-1])


@fnm(*(_intm("from_le") + _intm("to_le")))
def _fromle(I, f, a):
    return a[0]


@fnm("f64::ceil", "f32::ceil", "std::f64::ceil", "core::f64::ceil", "core::f32::ceil", "std::f32::ceil")
def _ceil(I, f, a):
    return float(math.ceil(a[0]))


@fnm("f64::ln", "f32::ln", "std::f64::ln", "std::f32::ln", "f64::log2", "f32::log2", "f64::floor", "f32::floor",
     "f64::sqrt")
def _ln(I, f, a):
    n = f.p.split("::")[-1]
    if n == "floor":
        return float(math.floor(a[0]))
    if n == "sqrt":
        return math.sqrt(a[0])
    if a[0] <= 0:
        return float("-inf")
    return math.log(a[0]) if n == "ln" else math.log2(a[0])


@fnm("bool::then")
def _bthen(I, f, a):
    return I.ite(a[0], lambda: SOME(callf(I, a[1])), lambda: NONE)


@fnm("bool::then_some")
def _bthens(I, f, a):
    return I.ite(a[0], lambda: SOME(a[1]), lambda: NONE)


def _byteorder(I, f, a):
    return None


@fnm("byteorder::ByteOrder::write_u64")
def _bwu64(I, f, a):
    return None


@trm("byteorder::ByteOrder", "write_u64", "write_u32", "write_u16", "write_u128")
def _bowr(I, f, a):
    w = {"write_u16": 16, "write_u32": 32, "write_u64": 64, "write_u128": 128}[f.n]
    be = "BigEndian" in tstr(f.a[0])
    b = _bytes(a[1], w)
    if be:
        b = b[::-1]
    s = list(I.seq(a[0]).i)
    bounds(I, len(s) >= len(b), "byteorder write out of bounds")
    s[:len(b)] = b
    wslice(I, a[0], s)
    return UNIT


@trm("byteorder::ByteOrder", "read_u64", "read_u32", "read_u16", "read_u128")
def _bord(I, f, a):
    w = {"read_u16": 16, "read_u32": 32, "read_u64": 64, "read_u128": 128}[f.n]
    be = "BigEndian" in tstr(f.a[0])
    s = I.seq(a[0]).i
    bounds(I, len(s) >= w // 8, "byteorder read out of bounds")
    b = s[:w // 8]
    r = I.env.int_from_bytes(I, Seq(b), "from_be_bytes" if be else "from_le_bytes") \
        if hasattr(I.env, "int_from_bytes") else None
    if r is not None:
        return r
    return from_bytes(b[::-1] if be else b)


import models_iter  # noqa: E402,F401
import models_map  # noqa: E402,F401
