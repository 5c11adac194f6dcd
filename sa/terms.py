"""Canonical value domains: BDDs for conditions, polynomials for field elements, linear forms for
group elements and pairing products, and bit/word values for integers."""
from fractions import Fraction

# ------------------------------------------------------------------ BDDs
FALSE, TRUE = 0, 1


class Bdd:
    def __init__(self):
        self.node = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
        self.uniq = {}
        self.memo = {}
        self.atoms = {}
        self.names = []

    def atom(self, key):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.names)
            self.atoms[key] = i
            self.names.append(key)
        return self.mk(i, FALSE, TRUE)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.node)
            self.node.append(k)
            self.uniq[k] = r
        return r

    def ite(self, f, g, h):
        if f == TRUE:
            return g
        if f == FALSE:
            return h
        if g == h:
            return g
        if g == TRUE and h == FALSE:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        nd = self.node
        vf, vg, vh = nd[f][0], nd[g][0], nd[h][0]
        v = vf if vf < vg else vg
        if vh < v:
            v = vh
        f0, f1 = (nd[f][1], nd[f][2]) if vf == v else (f, f)
        g0, g1 = (nd[g][1], nd[g][2]) if vg == v else (g, g)
        h0, h1 = (nd[h][1], nd[h][2]) if vh == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def and_(self, a, b):
        return self.ite(a, b, FALSE)

    def or_(self, a, b):
        return self.ite(a, TRUE, b)

    def not_(self, a):
        return self.ite(a, FALSE, TRUE)

    def xor(self, a, b):
        return self.ite(a, self.not_(b), b)

    def iff(self, a, b):
        return self.ite(a, b, self.not_(b))

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            x = st.pop()
            if x in seen or x < 2:
                continue
            seen.add(x)
            v, lo, hi = self.node[x]
            out.add(v)
            st += [lo, hi]
        return out

    def cofactor(self, f, v, val):
        """restrict atom index v := val"""
        memo = {}

        def go(x):
            if x < 2:
                return x
            r = memo.get(x)
            if r is None:
                w, lo, hi = self.node[x]
                if w > v:
                    r = x
                elif w == v:
                    r = hi if val else lo
                else:
                    r = self.mk(w, go(lo), go(hi))
                memo[x] = r
            return r
        return go(f)

    def restrict(self, f, c):
        """a (usually smaller) function that agrees with f where c holds"""
        if c == TRUE or f < 2:
            return f
        if c == FALSE:
            return f
        k = (f, c, "restrict")
        r = self.memo.get(k)
        if r is None:
            nd = self.node
            vf, vc = nd[f][0], nd[c][0]
            if vc < vf:
                r = self.restrict(f, self.or_(nd[c][1], nd[c][2]))
            else:
                c0, c1 = (nd[c][1], nd[c][2]) if vc == vf else (c, c)
                if c0 == FALSE:
                    r = self.restrict(nd[f][2], c1)
                elif c1 == FALSE:
                    r = self.restrict(nd[f][1], c0)
                else:
                    r = self.mk(vf, self.restrict(nd[f][1], c0), self.restrict(nd[f][2], c1))
            self.memo[k] = r
        return r

    def choose(self, p, q):
        """a small condition that holds on p and not on q (disjoint)"""
        c = self.or_(p, q)
        if c == TRUE:
            return p
        a, b = self.restrict(p, c), self.not_(self.restrict(q, c))
        return a if len(self.support(a)) <= len(self.support(b)) else b

    def pick(self, f):
        """one satisfying assignment {atom key: bool}"""
        out = {}
        if f == FALSE:
            return None
        while f != TRUE:
            v, lo, hi = self.node[f]
            if hi != FALSE:
                out[self.names[v]] = True
                f = hi
            else:
                out[self.names[v]] = False
                f = lo
        return out

    def show(self, f):
        if f == TRUE:
            return "true"
        if f == FALSE:
            return "false"
        p = self.pick(f)
        return "e.g. " + ", ".join("%s%s" % ("" if b else "!", short(k)) for k, b in list(p.items())[:8])


def short(k):
    t = repr(k) if not isinstance(k, str) else k
    return t if len(t) < 90 else t[:87] + "..."


bdd = Bdd()


class B:
    """symbolic bool"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, B) and o.n == self.n

    def __hash__(self):
        return hash(("B", self.n))

    def __repr__(self):
        return "B<%s>" % bdd.show(self.n)


def tob(n):
    return True if n == TRUE else False if n == FALSE else B(n)


def bn(v):
    """bool value -> bdd node"""
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, B):
        return v.n
    raise TypeError("not a bool: %r" % (v,))


def batom(key):
    return B(bdd.atom(key))


# ------------------------------------------------------------------ polynomials
class PolyRing:
    def __init__(self):
        self.ids = {}
        self.keys = []
        self.idem = []
        self.rules = []      # (lead monomial tuple, Poly)  lead -> poly
        self.roots = {}      # variable -> N: a primitive N-th root of unity (N a power of two)
        self.mod = None      # with a modulus, coefficients are residues and the field's constants are numbers
        self.conc = {}       # then: value of named constants

    def var(self, key):
        i = self.ids.get(key)
        if i is None:
            i = len(self.keys)
            self.ids[key] = i
            self.keys.append(key)
            self.idem.append(isinstance(key, tuple) and key and key[0] == "ind")
        return i


ring = PolyRing()


def residue(c):
    if isinstance(c, Fraction):
        return c.numerator * pow(c.denominator, -1, ring.mod) % ring.mod
    return c % ring.mod


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        if v in d:
            if ring.idem[v]:
                continue
            n = d[v] + e
            if n == 0:
                del d[v]
            else:
                d[v] = n
        else:
            d[v] = e
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        if ring.mod:
            c = residue(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def var(key):
        if ring.conc and key in ring.conc:
            return Poly.const(ring.conc[key])
        return Poly({((ring.var(key), 1),): 1})

    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        q = ring.mod
        for m, c in b.items():
            x = r.get(m, 0) + c
            if q:
                x %= q
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        if ring.mod:
            return Poly({m: -c % ring.mod for m, c in self.t.items()})
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Poly({})
        if ring.mod:
            k, q = residue(k), ring.mod
            return Poly({m: c * k % q for m, c in self.t.items()} if k else {})
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        if len(self.t) == 1 and () in self.t:
            return o.scale(self.t[()])
        if len(o.t) == 1 and () in o.t:
            return self.scale(o.t[()])
        r = {}
        mod = ring.mod
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = _mmul(m, n)
                x = r.get(k, 0) + c * d
                if mod:
                    x %= mod
                if x:
                    r[k] = x
                else:
                    r.pop(k, None)
        return reduce_rules(Poly(r))

    def __pow__(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def key(self):
        return frozenset(self.t.items())

    def __eq__(self, o):
        if not isinstance(o, Poly):
            return NotImplemented
        if self.t == o.t:
            return True
        if ring.rules or ring.roots:
            return norm(self).t == norm(o).t
        return False

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def is_zero(self):
        return not self.t or ((ring.rules or ring.roots) and not norm(self).t)

    def cval(self):
        """constant value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def vars(self):
        return {v for m in self.t for v, _ in m}

    def subst(self, mp):
        """mp: var id -> Poly"""
        if not any(v in mp for v in self.vars()):
            return self
        r = Poly({})
        for m, c in self.t.items():
            p = Poly.const(c)
            rest = []
            for v, e in m:
                if v in mp and e > 0:
                    p = p * (mp[v] ** e)
                else:
                    rest.append((v, e))
            if rest:
                p = p * Poly({tuple(rest): 1})
            r = r + p
        return r

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0]))[:12]:
            f = "*".join(short(ring.keys[v]) + ("" if e == 1 else "^%d" % e) for v, e in m)
            out.append(("%s*%s" % (c, f) if c != 1 else f) if f else str(c))
        return " + ".join(out) + (" + ..." if len(self.t) > 12 else "")


def _mdiv(m, lead):
    """m / lead if lead divides m (positive exps)"""
    d = dict(m)
    for v, e in lead:
        if d.get(v, 0) < e:
            return None
    for v, e in lead:
        d[v] -= e
        if d[v] == 0:
            del d[v]
    return tuple(sorted(d.items()))


def reduce_rules(p):
    if not ring.rules and not ring.roots:
        return p
    return norm(p)


def fold_roots(p):
    """exponents of roots of unity into [0, N/2)"""
    rt = ring.roots
    if not any(v in rt and not 0 <= e < rt[v] >> 1 for m in p.t for v, e in m):
        return p
    r = {}
    for m, c in p.t.items():
        if any(v in rt and not 0 <= e < rt[v] >> 1 for v, e in m):
            q = []
            for v, e in m:
                n = rt.get(v)
                if n:
                    e %= n
                    if e >= n >> 1:
                        e -= n >> 1
                        c = -c
                if e:
                    q.append((v, e))
            m = tuple(q)
        x = r.get(m, 0) + c
        if ring.mod:
            x %= ring.mod
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return Poly(r)


def norm(p):
    if ring.roots:
        p = fold_roots(p)
    if not ring.rules:
        return p
    lim = 200000
    while True:
        pend = []
        out = {}
        for m, c in p.t.items():
            for lead, rhs in ring.rules:
                q = _mdiv(m, lead)
                if q is not None:
                    pend.append((q, c, rhs))
                    break
            else:
                out[m] = c
        if not pend:
            return p
        for q, c, rhs in pend:
            for n, d in rhs.t.items():
                k = _mmul(q, n)
                x = out.get(k, 0) + c * d
                if ring.mod:
                    x = residue(x)
                if x:
                    out[k] = x
                else:
                    out.pop(k, None)
        lim -= len(pend)
        if lim < 0:
            raise RuntimeError("normalisation does not terminate")
        p = Poly(out)
        if ring.roots:
            p = fold_roots(p)


def add_rule(lead_poly, rhs):
    """lead_poly: monomial Poly with coefficient 1"""
    (m, c), = lead_poly.t.items()
    assert c == 1
    ring.rules.append((m, rhs))


ZERO = Poly({})
ONE = Poly({(): 1})


def ind(n):
    """indicator polynomial of a BDD node (1 when true)"""
    memo = {FALSE: ZERO, TRUE: ONE}

    def go(x):
        r = memo.get(x)
        if r is None:
            v, lo, hi = bdd.node[x]
            b = Poly({((ring.var(("ind", v)), 1),): 1})
            l, h = go(lo), go(hi)
            r = l + b * (h - l)
            memo[x] = r
        return r
    return go(n)


def pite(c, a, b):
    if a is b or a == b:
        return a
    return b + ind(c) * (a - b)


def poly_inv(p):
    """multiplicative inverse of a polynomial assumed non-zero"""
    p = norm(p)
    c = p.cval()
    if c is not None:
        return Poly.const(Fraction(1, 1) / c if not isinstance(c, Fraction) else 1 / c) if c not in (1, -1) else Poly.const(c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not any(ring.idem[v] for v, _ in m):
            return Poly({tuple((v, -e) for v, e in m): (c if c in (1, -1) else Fraction(1) / c)})
    # new atom Z standing for p (up to leading coefficient), leading monomial rewritten
    def mkey(m):
        return (sum(abs(e) for v, e in m), m)
    cand = [m for m in p.t if m and all(e > 0 for _, e in m) and not any(ring.idem[v] for v, _ in m)]
    if not cand:
        return Poly.var(("inv", p.key()))
    lead = max(cand, key=mkey)
    c = p.t[lead]
    z = ("unit", p.key())
    if z in ring.ids and any(r[0] == lead for r in ring.rules):
        return Poly({((ring.ids[z], -1),): 1})
    zi = ring.var(z)
    rest = Poly({m: k for m, k in p.t.items() if m != lead})
    # p = c*lead + rest = Z  =>  lead = (Z - rest)/c
    rhs = (Poly({((zi, 1),): 1}) - rest).scale(Fraction(1) / c if c not in (1, -1) else c)
    ring.rules.append((lead, rhs))
    return Poly({((zi, -1),): 1})


def cnorm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


# ------------------------------------------------------------------ linear forms (groups)
class GE:
    """group element: linear form over base atoms with polynomial coefficients"""
    __slots__ = ("g", "t")

    def __init__(self, g, t):
        self.g = g
        self.t = t

    @staticmethod
    def base(g, key):
        return GE(g, {key: ONE})

    def __add__(self, o):
        r = dict(self.t)
        for k, c in o.t.items():
            x = r[k] + c if k in r else c
            if x.is_zero():
                r.pop(k, None)
            else:
                r[k] = x
        return GE(self.g, r)

    def __neg__(self):
        return GE(self.g, {k: -c for k, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def mul(self, p):
        r = {}
        for k, c in self.t.items():
            x = c * p
            if not x.is_zero():
                r[k] = x
        return GE(self.g, r)

    def nz(self):
        r = {}
        for k, c in self.t.items():
            c = norm(c)
            if c.t:
                r[k] = Poly({m: cnorm(x) for m, x in c.t.items()})
        return r

    def is_id(self):
        return not self.nz()

    def key(self):
        return (self.g, frozenset((k, c.key()) for k, c in self.nz().items()))

    def __eq__(self, o):
        return isinstance(o, GE) and self.g == o.g and (self.t == o.t or (self - o).is_id())

    def __hash__(self):
        return hash((self.g, len(self.t)))

    def __repr__(self):
        return "%s[%s]" % (self.g, "; ".join("(%s)*%s" % (c, short(k)) for k, c in list(self.t.items())[:8]) or "0")


class Opq:
    """opaque uninterpreted value"""
    __slots__ = ("k",)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Opq) and o.k == self.k

    def __hash__(self):
        return hash(("Opq", self.k))

    def __repr__(self):
        return "<%s>" % short(self.k)


# ------------------------------------------------------------------ integers
class W:
    """symbolic unsigned integer.  bits: tuple of bdd nodes (little endian, no leading FALSE), or a
    linear form `lin` (width, const, frozenset{(atom, coef)}) modulo 2^width; atom = ('w', width, key)"""
    __slots__ = ("b", "lin")

    def __init__(self, b=None, lin=None):
        self.b = b
        self.lin = lin

    def __eq__(self, o):
        return isinstance(o, W) and o.b == self.b and o.lin == self.lin

    def __hash__(self):
        return hash((self.b, self.lin))

    def __repr__(self):
        if self.b is not None:
            return "W<%s>" % ",".join("01"[x] if x < 2 else "b%d" % x for x in self.b)
        return "W<lin %s>" % short(self.lin)


def wsym(width, key):
    """fresh symbolic word"""
    return W(lin=(width, 0, frozenset({(("w", width, key), 1)})))


def wbits(v):
    """list of bdd nodes (little endian)"""
    if isinstance(v, bool):
        return (int(v),)
    if isinstance(v, int):
        if v < 0:
            raise ValueError("negative")
        return tuple((v >> i) & 1 for i in range(v.bit_length()))
    if isinstance(v, B):
        return (v.n,)
    if v.b is not None:
        return v.b
    w, c, terms = v.lin
    if c == 0 and len(terms) == 1:
        (a, k), = terms
        if k == 1:
            if isinstance(a[2], tuple) and a[2] and a[2][0] == "bits":
                return a[2][1][:w]
            if isinstance(a[2], tuple) and a[2] and a[2][0] == "lin":
                return tuple(bdd.atom(("wb", a[2][1], i)) for i in range(min(w, a[1])))
            return tuple(bdd.atom(("wb", (a[1], 0, frozenset({(a, 1)})), i)) for i in range(min(w, a[1])))
    return lin_bits(v.lin)


LBITS = {}


def lin_bits(lin):
    """binary digits of a sum; the low word is that of the sum modulo 2^32"""
    r = LBITS.get(lin)
    if r is None:
        w, c, ts = lin
        nb = min(w, (c + sum(k * ((1 << a[1]) - 1) for a, k in ts)).bit_length())
        lo = ()
        if w > 32:
            lo = wbits(wlin(32, dict(ts), c))
            lo = tuple(lo) + (FALSE,) * (32 - len(lo))
        r = lo + tuple(bdd.atom(("wb", lin, i)) for i in range(len(lo), nb))
        LBITS[lin] = r
        LBACK[r] = lin
    return r


LBACK = {}


def wmk(bits):
    bits = list(bits)
    while bits and bits[-1] == FALSE:
        bits.pop()
    if all(x < 2 for x in bits):
        return sum(x << i for i, x in enumerate(bits))
    # collapse to a word?
    lin = LBACK.get(tuple(bits))
    if lin is not None:
        return W(lin=lin)
    n0 = bdd.node[bits[0]]
    if n0[1:] == (FALSE, TRUE):
        k = bdd.names[n0[0]]
        if isinstance(k, tuple) and k[0] == "wb" and k[2] == 0 and k[1][0] == len(bits):
            lin = k[1]
            if all(bdd.node[x][1:] == (FALSE, TRUE) and bdd.names[bdd.node[x][0]] == ("wb", lin, i)
                   for i, x in enumerate(bits)):
                return W(lin=lin)
    return W(b=tuple(bits))


def watom(v, width):
    """dict atom->coef, const for v as an addend at `width`"""
    if isinstance(v, int):
        return {}, v
    if v.lin is not None:
        w, c, terms = v.lin
        if w == width:
            return dict(terms), c
        if len(terms) == 1 and c == 0 and next(iter(terms))[1] == 1 and w >= next(iter(terms))[0][1]:
            return dict(terms), 0
        if w > width:
            return dict(terms), c
        return {("w", w, ("lin", v.lin)): 1}, 0
    b = v.b
    return {("w", len(b), ("bits", b)): 1}, 0


def wlin(width, terms, c):
    m = 1 << width
    out = {}

    def put(a, k):
        x = (out.get(a, 0) + k) % m
        if x:
            out[a] = x
        else:
            out.pop(a, None)
    todo = list(terms.items())
    while todo:
        a, k = todo.pop()
        if isinstance(a[2], tuple) and a[2] and a[2][0] == "lin" and a[2][1][0] >= width:
            # ((lin mod 2^w') with w' >= width): flatten
            c += a[2][1][1] * k
            for a2, k2 in a[2][1][2]:
                todo.append((a2, k * k2))
        else:
            put(a, k)
    c %= m
    if not out:
        return c
    if c == 0 and len(out) == 1:
        (a, k), = out.items()
        if k == 1 and isinstance(a[2], tuple) and a[2] and a[2][0] == "bits" and len(a[2][1]) <= width:
            return wmk(a[2][1])
        if k == 1 and a[1] < width and isinstance(a[2], tuple) and a[2] and a[2][0] == "lin":
            return W(lin=a[2][1])
        if k == 1 and a[1] < width:
            return W(lin=(a[1], 0, frozenset({(a, 1)})))
    return W(lin=(width, c, frozenset(out.items())))


def wadd(a, b, width):
    """modular addition at width"""
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) % (1 << width)
    if isinstance(a, int) and a == 0:
        return wtrunc(b, width)
    if isinstance(b, int) and b == 0:
        return wtrunc(a, width)
    if (isinstance(a, int) or a.b is not None) and (isinstance(b, int) or b.b is not None):
        x, y = wbits(a), wbits(b)
        # disjoint bits: plain or
        if all(bdd.and_(p, q) == FALSE for p, q in zip(x, y)):
            n = max(len(x), len(y))
            x = x + (0,) * (n - len(x))
            y = y + (0,) * (n - len(y))
            return wmk([bdd.or_(p, q) for p, q in zip(x, y)][:width])
        sup = set()
        for n in x + y:
            sup |= bdd.support(n)
        if len(sup) <= 12:
            return _ripple(x, y, width)
    ta, ca = watom(a, width)
    tb, cb = watom(b, width)
    for k, v in tb.items():
        ta[k] = ta.get(k, 0) + v
    return wlin(width, ta, ca + cb)


def _ripple(x, y, width, cin=FALSE):
    out = []
    c = cin
    for i in range(min(width, max(len(x), len(y)) + 1)):
        p = x[i] if i < len(x) else FALSE
        q = y[i] if i < len(y) else FALSE
        s = bdd.xor(bdd.xor(p, q), c)
        c = bdd.or_(bdd.and_(p, q), bdd.and_(c, bdd.xor(p, q)))
        out.append(s)
    return wmk(out)


def wsub(a, b, width):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) % (1 << width)
    ba = isinstance(a, int) or a.b is not None
    bb = isinstance(b, int) or b.b is not None
    if ba and bb:
        x, y = wbits(a), wbits(b)
        y = tuple(bdd.not_(y[i]) if i < len(y) else TRUE for i in range(width))
        x = x + (0,) * (width - len(x))
        out, c = [], TRUE
        for p, q in zip(x, y):
            out.append(bdd.xor(bdd.xor(p, q), c))
            c = bdd.or_(bdd.and_(p, q), bdd.and_(c, bdd.xor(p, q)))
        return wmk(out)
    ta, ca = watom(a, width)
    tb, cb = watom(b, width)
    for k, v in tb.items():
        ta[k] = ta.get(k, 0) - v
    return wlin(width, ta, ca - cb)


def wmul(a, b, width):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) % (1 << width)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b & (b - 1) == 0:
            return wshl(a, b.bit_length() - 1, width)
        t, c = watom(a, width)
        return wlin(width, {k: v * b for k, v in t.items()}, c * b)
    return None


def wtrunc(v, width):
    if isinstance(v, int):
        return v % (1 << width)
    if v.lin is not None:
        if v.lin[0] <= width:
            return v
        return wlin(width, dict(v.lin[2]), v.lin[1])
    return v if len(v.b) <= width else wmk(v.b[:width])


def wshl(v, k, width):
    if isinstance(v, int):
        return (v << k) % (1 << width)
    if k == 0:
        return wtrunc(v, width)
    return wmk(((0,) * k + wbits(v))[:width])


def wshr(v, k):
    if isinstance(v, int):
        return v >> k
    if k == 0:
        return v
    return wmk(wbits(v)[k:])


def wbitop(op, a, b, width):
    x, y = wbits(a), wbits(b)
    n = max(len(x), len(y))
    x = x + (0,) * (n - len(x))
    y = y + (0,) * (n - len(y))
    f = {"and": bdd.and_, "or": bdd.or_, "xor": bdd.xor}[op]
    return wmk([f(p, q) for p, q in zip(x, y)])


def wnot(a, width):
    x = wbits(a)
    x = x + (0,) * (width - len(x))
    return wmk([bdd.not_(p) for p in x])


def weq(a, b):
    """bdd node of a == b"""
    if isinstance(a, int) and isinstance(b, int):
        return TRUE if a == b else FALSE
    if a == b:
        return TRUE
    x, y = wbits(a), wbits(b)
    n = max(len(x), len(y))
    r = TRUE
    for i in range(n - 1, -1, -1):
        p = x[i] if i < len(x) else FALSE
        q = y[i] if i < len(y) else FALSE
        r = bdd.and_(r, bdd.iff(p, q))
        if r == FALSE:
            break
    return r


def wlt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return TRUE if a < b else FALSE
    x, y = wbits(a), wbits(b)
    n = max(len(x), len(y))
    r = FALSE
    for i in range(n):
        p = x[i] if i < len(x) else FALSE
        q = y[i] if i < len(y) else FALSE
        r = bdd.ite(bdd.iff(p, q), r, bdd.and_(bdd.not_(p), q))
    return r


def wite(c, a, b):
    if a == b:
        return a
    x, y = wbits(a), wbits(b)
    n = max(len(x), len(y))
    x = x + (0,) * (n - len(x))
    y = y + (0,) * (n - len(y))
    return wmk([bdd.ite(c, p, q) for p, q in zip(x, y)])
