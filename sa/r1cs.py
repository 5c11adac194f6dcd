"""Meaning of a rank-1 constraint system emitted by a gadget: every variable is expressed, in canonical
form, by the free variables (triangular elimination); what cannot be eliminated stays as a relation."""
import hashlib
from terms import *
from models import poly_zero_bdd
from terms import wbits, W

ONEV = ("input", 0)


def compose(f, mp):
    """substitute BDD nodes for atoms: mp {atom index: node}"""
    memo = {}

    def go(x):
        if x < 2:
            return x
        r = memo.get(x)
        if r is None:
            v, lo, hi = bdd.node[x]
            l, h = go(lo), go(hi)
            g = mp.get(v)
            if g is None:
                g = bdd.mk(v, FALSE, TRUE)
            r = bdd.ite(g, h, l)
            memo[x] = r
        return r
    return go(f)


class Constraint:
    __slots__ = ("A", "B", "C", "site", "vars", "order", "lin", "i", "prev", "shift", "cols", "const", "tv", "guard")

    def __init__(self, A, B, C, site=None):
        self.A, self.B, self.C, self.site = A, B, C, site
        self.vars = {v for lc in (A, B, C) for v in lc if v != ONEV}
        self.lin = None
        self.prev = self.cols = None   # parts of a packed equality: the part below, this part's columns


def lcdict(lc):
    """[(var, Poly)] -> {var: Poly} without zero coefficients"""
    d = {}
    for v, c in lc:
        d[v] = d[v] + c if v in d else c
    return {v: c for v, c in d.items() if not c.is_zero()}


def intc(c, p):
    """Poly constant -> integer in (-p/2, p/2) or None"""
    c = norm(c).cval() if c.t else 0
    if c is None:
        return None
    if isinstance(c, Fraction):
        c = c.numerator * pow(c.denominator, -1, p)
    c %= p
    return c - p if c > p // 2 else c


def constraints(log):
    out = []
    for e in log:
        if e.k == "enforce":
            c = Constraint(*[lcdict(x) for x in e.a], site=e.site)
            c.guard = e.g
            c.i = len(out)
            out.append(c)
    return out


def alloc_order(log):
    o = {ONEV: 0}
    for e in log:
        if e.k == "alloc":
            o[e.a] = len(o)
    return o


def multiples(lo, hi, m):
    """number of multiples of m in [lo, hi] and one of them"""
    a = -(-lo // m) * m
    return (max(0, (hi - a) // m + 1), a) if a <= hi else (0, None)


NAFS = {}


def naf(c):
    """positions of the non-zero digits of the signed-digit form"""
    r = NAFS.get(c)
    if r is None:
        x, e, r = abs(c), 0, []
        while x:
            if x & 1:
                r.append(e)
                x += -1 if x & 3 == 1 else 1
            x >>= 1
            e += 1
        NAFS[c] = r = tuple(r)
    return r


def share(c, s):
    """c = low + high * 2^s with the fewest signed digits"""
    l = c & ((1 << s) - 1)
    a, b = (l, c >> s), (l - (1 << s), (c >> s) + 1) if l else (0, c >> s)
    ka, kb = [len(naf(x[0])) + len(naf(x[1])) for x in (a, b)]
    return a if (ka, abs(a[0])) <= (kb, abs(b[0])) else b


def split_linear(terms, c0, p):
    """sum terms + c0 == 0 in the field with 0/1 variables.  -> list of integer equalities
    [(terms, const, shift from the part below)] equivalent to it, or None when the sum can wrap around the modulus"""
    lo = c0 + sum(c for c in terms.values() if c < 0)
    hi = c0 + sum(c for c in terms.values() if c > 0)
    n, v = multiples(lo, hi, p)
    if n == 0:
        return [({}, 1, 0)]
    if n > 1 or v != 0:
        return None
    parts = []
    shift = 0
    cur = dict(terms)
    while cur:
        vals = sorted({(c & -c).bit_length() - 1 for c in map(abs, cur.values())})
        done = False
        for s in vals[1:]:
            low = {v: c for v, c in cur.items() if abs(c) & ((1 << s) - 1)}
            if any((abs(c) >> s) for c in low.values()):
                continue
            l = sum(c for c in low.values() if c < 0)
            h = sum(c for c in low.values() if c > 0)
            # values w of the low sum with w == -c0 (mod 2^s)
            n, w = multiples(l + c0, h + c0, 1 << s)
            if n == 0:
                return [({}, 1, 0)]
            if n == 1:
                parts.append((low, c0 - w, shift))
                shift = s
                c0 = w >> s
                cur = {v: c >> s for v, c in cur.items() if v not in low}
                done = True
                break
        if not done:
            break
    if cur:
        parts.append((cur, c0, shift))
    elif c0:
        parts.append(({}, 1, 0))
    out = []
    inner = 0
    for t, c, s in parts:
        s -= inner
        sub = split_shared(t, c, s) if any(len(naf(k)) > 1 for k in t.values()) else [(t, c, s)]
        inner = sum(x[2] for x in sub[1:])
        out += sub
    return out


def split_shared(cur, c0, shift):
    """integer equality in which a variable may occur on both sides of a cut"""
    parts = []
    done = True
    while done:
        done = False
        for s in sorted({e for c in cur.values() for e in naf(c)})[1:]:
            low, high = {}, {}
            for v, c in cur.items():
                l, h = share(c, s)
                if l:
                    low[v] = l
                if h:
                    high[v] = h
            if not high:
                break
            n, w = multiples(c0 + sum(c for c in low.values() if c < 0), c0 + sum(c for c in low.values() if c > 0), 1 << s)
            if n == 0:
                return [({}, 1, 0)]
            if n == 1:
                parts.append((low, c0 - w, shift))
                shift = s
                c0 = w >> s
                cur = high
                done = True
                break
    parts.append((cur, c0, shift))
    return parts


class ColSum:
    """integer sums of weighted bits: columns {weight exponent: {node: multiplicity}} + constant.
    Digit i of a sum is named by the part of the sum that determines it (columns up to i), so sums that
    agree modulo a power of two share their low digits."""
    def __init__(self):
        self.pids = {}        # (parent pid, const bit, column) -> pid
        self.info = [None]    # pid -> (parent, const bit, column, position, max value of the prefix)
        self.pid_of = {}      # bdd atom index -> pid
        self.kids = {}

    # ---------------------------------------------------------- digits
    def pid(self, parent, bit, col):
        k = (parent, bit, col)
        r = self.pids.get(k)
        if r is None:
            r = len(self.info)
            self.pids[k] = r
            pos, mx = (0, 0) if parent == 0 else (self.info[parent][3] + 1, self.info[parent][4])
            self.info.append((parent, bit, col, pos, mx + ((bit + sum(n for _, n in col)) << pos)))
            self.pid_of[bdd.node[bdd.atom(("sd", r))][0]] = r
        return r

    def digit(self, n):
        """pid of a digit atom or None"""
        if n < 2:
            return None
        v, lo, hi = bdd.node[n]
        return self.pid_of.get(v) if (lo, hi) == (FALSE, TRUE) else None

    def prefix(self, p):
        """(const, columns) that digit p is the top digit of"""
        c, cols = 0, {}
        while p:
            par, b, col, pos, _ = self.info[p]
            c |= b << pos
            if col:
                cols[pos] = col
            p = par
        return c, cols

    # ---------------------------------------------------------- normal form modulo 2^width
    def chain(self, cols, w, p):
        """longest run of digits of one sum, from its lowest digit p at weight w"""
        out = [p]
        while True:
            nx = None
            for n in cols.get(w + len(out), ()):
                q = self.digit(n)
                if q is not None and self.info[q][0] == out[-1]:
                    nx = q
                    break
            if nx is None:
                return out
            out.append(nx)

    def node(self, p):
        return bdd.atom(("sd", p))

    def norm_cols(self, cols, const, width):
        cols = {w: dict(m) for w, m in cols.items() if w < width}
        changed = True
        while changed:
            changed = False
            for w in list(cols):
                m = cols[w]
                for n in list(m):
                    if n == TRUE:
                        const += m.pop(n) << w
                    elif n == FALSE:
                        m.pop(n)
                if not m:
                    del cols[w]
            const += self.polar(cols, width)
            # digits of an earlier sum: replace them by that sum
            for w in sorted(cols):
                for n in list(cols.get(w, ())):
                    p = self.digit(n)
                    if p is None or self.info[p][3] != 0 or n not in cols.get(w, ()):
                        continue
                    ch = self.chain(cols, w, p)[:width - w]
                    k = len(ch)
                    while k and not (w + k >= width or self.info[ch[k - 1]][4] < 1 << k):
                        k -= 1
                    if not k:
                        continue
                    t = min(cols[w + i][self.node(q)] for i, q in enumerate(ch[:k]))
                    for i, q in enumerate(ch[:k]):
                        m = cols[w + i]
                        z = self.node(q)
                        m[z] -= t
                        if not m[z]:
                            del m[z]
                            if not m:
                                del cols[w + i]
                    kc, kk = self.prefix(ch[k - 1])
                    const += (kc * t) << w
                    for w2, m2 in kk.items():
                        if w + w2 < width:
                            d = cols.setdefault(w + w2, {})
                            for n2, c2 in m2:
                                d[n2] = d.get(n2, 0) + c2 * t
                    changed = True
        const += self.polar(cols, width)
        const %= 1 << width
        return const, {w: tuple(sorted(m.items())) for w, m in sorted(cols.items()) if m and w < width}

    def polar(self, cols, width):
        """one form for every multiple of a bit: c*x by the binary digits of |c|, or by signed digits when that is
        shorter (-2^e*x = 2^e*!x - 2^e); returns the change of the constant"""
        occ = {}
        for w, m in cols.items():
            for n, k in m.items():
                o = bdd.not_(n)
                if n < o:
                    occ.setdefault(n, []).append((w, n, k, 1))
                else:
                    occ.setdefault(o, []).append((w, n, k, -1))
        const = 0
        for x, l in occ.items():
            if len(l) == 1 and l[0][2] == 1:
                continue
            c = 0
            for w, n, k, s in l:
                c += s * k << w
                if s < 0:
                    const += k << w
                m = cols[w]
                del m[n]
                if not m:
                    del cols[w]
            a = abs(c)
            ds = naf(c)
            if bin(a).count("1") <= len(ds):
                ds = [(e, 1 if c > 0 else -1) for e in range(a.bit_length()) if a >> e & 1]
            else:
                # signs of the digits, from the top
                out, rest = [], c
                for e in reversed(ds):
                    s = 1 if rest > 0 else -1
                    out.append((e, s))
                    rest -= s << e
                ds = out
            for e, s in ds:
                if s < 0:
                    const -= 1 << e
                if e < width:
                    d = cols.setdefault(e, {})
                    n = x if s > 0 else bdd.not_(x)
                    d[n] = d.get(n, 0) + 1
        return const

    # ---------------------------------------------------------- sums
    def sum(self, cols, const, nbits):
        """nbits binary digits of the sum"""
        sup = set()
        for w, m in cols.items():
            for n in m:
                if len(sup) <= 10:
                    sup |= bdd.support(n)
        if len(sup) <= 10:
            return self.exact(const % (1 << nbits), cols, nbits)
        # moduli at which earlier sums wrap: digits below are determined there
        wd = {nbits}
        for w in cols:
            for n in cols[w]:
                p = self.digit(n)
                if p is not None and self.info[p][3] == 0:
                    ch = self.chain(cols, w, p)
                    if self.info[ch[-1]][4] >= 1 << len(ch) and w + len(ch) < nbits:
                        wd.add(w + len(ch))
        out = []
        for width in sorted(wd):
            out += self._sum(cols, const, width)[len(out):]
        return out

    def _sum(self, cols, const, width):
        c, cc = self.norm_cols(cols, const, width)
        out = []
        seg, hi = [], 0
        for s in range(width):
            bit = (c >> s) & 1
            col = cc.get(s, ())
            seg.append((bit, col))
            hi += (bit + sum(k for _, k in col)) << len(seg) - 1
            if hi < 1 << len(seg):
                # no carry leaves this segment
                out += self.segment(seg)
                seg, hi = [], 0
        return out + self.segment(seg)

    def segment(self, seg):
        if not seg:
            return []
        if len(seg) == 1 and seg[0][0] + sum(k for _, k in seg[0][1]) <= 1:
            return [seg[0][1][0][0] if seg[0][1] else seg[0][0]]
        sup = set()
        for _, col in seg:
            for n, _ in col:
                if len(sup) <= 10:
                    sup |= bdd.support(n)
        if len(sup) <= 10:
            return self.exact(sum(b << i for i, (b, _) in enumerate(seg)), {i: dict(col) for i, (_, col) in enumerate(seg)}, len(seg))
        out, cur = [], 0
        for bit, col in seg:
            cur = self.pid(cur, bit, col)
            out.append(self.node(cur))
        return out

    def expand(self, n, limit=26):
        """replace digits of small sums by their exact value"""
        for _ in range(20):
            mp = {}
            for i in bdd.support(n):
                k = bdd.names[i]
                if isinstance(k, tuple) and k[0] == "sd":
                    x = self.expanded(k[1], limit)
                    if x is not None:
                        mp[i] = x
            if not mp:
                return n
            n = compose(n, mp)
        return n

    def expanded(self, p, limit):
        memo = self.__dict__.setdefault("xmemo", {})
        if p not in memo:
            c, cols = self.prefix(p)
            sup = set()
            for m in cols.values():
                for n, _ in m:
                    sup |= bdd.support(n)
            memo[p] = self.exact(c, {w: dict(m) for w, m in cols.items()}, self.info[p][3] + 1)[-1] if len(sup) <= limit else None
        return memo[p]

    def exact(self, c, cols, nbits):
        acc = [(c >> i) & 1 for i in range(nbits)]
        for w, m in cols.items():
            for n, k in m.items():
                for _ in range(k):
                    carry = n
                    for i in range(w, nbits):
                        acc[i], carry = bdd.xor(acc[i], carry), bdd.and_(acc[i], carry)
        return acc


class Solver:
    def __init__(self, p, assume=TRUE):
        self.p = p
        self.val = {ONEV: ("p", ONE)}
        self.rel = TRUE
        self.res = []          # residual polynomial relations
        self.unknown = []      # constraints that could not be used
        self.free = []
        self.cs = ColSum()
        self.wraps = []
        self.nproc = 0

    # ------------------------------------------------------------ input
    def load(self, log, bits=()):
        """bits: variables assumed to be 0/1 (operands)"""
        self.order = alloc_order(log)
        nosplit = set()
        cs0 = self.cs
        while True:
            self.split = []
            for v in bits:
                self.mkbit(v)
            self.solve(constraints(log), nosplit)
            # splitting an equality into ranges is valid only when all its variables are bits
            badly = {c.i for c in self.split if not all(self.isbit(v) for v in c.vars)} - nosplit
            if not badly:
                return self
            nosplit |= badly
            self.__init__(self.p)
            self.cs = cs0
            self.order = alloc_order(log)

    def ph(self, v):
        i = bdd.node[bdd.atom(("R", v))][0]
        return Poly.var(("ind", i))

    def phi(self, v):
        return bdd.node[bdd.atom(("R", v))][0]

    def solve(self, cs, nosplit=()):
        work = []
        for c in cs:
            lin = self.as_linear(c)
            if lin is not None and len(lin[0]) > 8 and c.i in nosplit:
                c.lin = lin
                c.order = max((self.order[v] for v in c.vars), default=0)
                work.append(c)
                continue
            if lin is not None and len(lin[0]) > 8:
                parts = split_linear(lin[0], lin[1], self.p)
                self.split.append(c)
                if parts is None:
                    self.wraps.append(c)
                    c.lin = lin
                    c.order = max((self.order[v] for v in c.vars), default=0)
                    work.append(c)
                    continue
                prev = None
                for t, k, s in parts:
                    d = Constraint({}, {}, {}, c.site)
                    d.prev, d.shift = prev, s
                    prev = d
                    d.lin = (t, k)
                    d.i = c.i
                    d.vars = set(t)
                    d.order = max((self.order[v] for v in t), default=0)
                    work.append(d)
            else:
                c.order = max((self.order[v] for v in c.vars), default=0)
                work.append(c)
        work.sort(key=lambda c: c.order)
        # within one variable: boolean constraints (fewest variables) first
        i = 0
        while i < len(work):
            j = i
            while j < len(work) and work[j].order == work[i].order:
                j += 1
            for c in sorted(work[i:j], key=lambda c: (len(c.vars), c.i)):
                self.process(c)
                self.nproc += 1
            i = j
        return self

    def as_linear(self, c):
        """constraint with a constant side -> ({var: int}, const) or None"""
        def const(lc):
            if all(v == ONEV for v in lc):
                return intc(lc.get(ONEV, ZERO), self.p)
            return None
        a, b = const(c.A), const(c.B)
        if a is None and b is None:
            return None
        k, lc = (a, c.B) if a is not None else (b, c.A)
        t, c0 = {}, 0
        for l, s in ((lc, k), (c.C, -1)):
            for v, co in l.items():
                x = intc(co, self.p)
                if x is None:
                    return None
                x *= s
                if v == ONEV:
                    c0 += x
                else:
                    t[v] = t.get(v, 0) + x
        h = self.p // 2
        def red(x):
            x %= self.p
            return x - self.p if x > h else x
        t = {v: red(x) for v, x in t.items()}
        return {v: x for v, x in t.items() if x}, red(c0)

    # ------------------------------------------------------------ elimination
    def isbit(self, v):
        return v in self.val and self.val[v][0] == "b"

    def mkfree(self, v):
        self.val[v] = ("p", Poly.var(("V", v)))
        self.free.append(v)

    def mkbit(self, v):
        self.val[v] = ("b", bdd.atom(("bit", v)))

    def poly_of(self, lc):
        """LC -> (Poly over placeholders)"""
        r = ZERO
        for v, c in lc.items():
            if v == ONEV:
                r = r + c
            elif self.isbit(v):
                r = r + c * self.ph(v)
            elif v in self.val:
                r = r + c * self.val[v][1]
            else:
                r = r + c * Poly.var(("V", v))
        return r

    def modp(self, q):
        out = {}
        h = self.p // 2
        for m, c in q.t.items():
            if isinstance(c, Fraction):
                c = c.numerator * pow(c.denominator, -1, self.p)
            c %= self.p
            if c > h:
                c -= self.p
            if c:
                out[m] = c
        return Poly(out)

    def zero(self, q, bits):
        """bdd (composed with the values of the bits) of q == 0"""
        n = poly_zero_bdd(q)
        return compose(n, {self.phi(v): self.val[v][1] for v in bits})

    def process(self, c):
        if c.lin is not None:
            return self.linear(c)
        un = sorted((v for v in c.vars if v not in self.val), key=lambda v: self.order[v])
        bits = [v for v in c.vars if self.isbit(v)]
        polys = [v for v in c.vars if v in self.val and not self.isbit(v)]
        if not un:
            P = self.modp(self.poly_of(c.A) * self.poly_of(c.B) - self.poly_of(c.C))
            return self.relation(P, bits, c)
        for v in un[:-1]:
            self.mkfree(v)
        z = un[-1]
        zi = ring.var(("V", z))
        A, B, C = self.modp(self.poly_of(c.A)), self.modp(self.poly_of(c.B)), self.modp(self.poly_of(c.C))
        P = self.modp(A * B - C)
        lin1, lin0, hi = {}, {}, False
        for m, k in P.t.items():
            d = dict(m)
            e = d.pop(zi, 0)
            if e == 0:
                lin0[m] = k
            elif e == 1:
                lin1[tuple(sorted(d.items()))] = k
            else:
                hi = True
        if not hi and lin1:
            c1 = Poly(lin1).cval()
            if c1 is not None:
                inv = pow(c1, -1, self.p)
                val = self.modp(Poly(lin0).scale(-inv))
                if all(ring.idem[x] for x in val.vars()) and len(val.vars()) <= 14:
                    is0 = self.zero(val, bits)
                    is1 = self.zero(self.modp(val - ONE), bits)
                    if bdd.and_(self.rel, bdd.not_(bdd.or_(is0, is1))) == FALSE:
                        self.val[z] = ("b", is1)
                        return
                self.val[z] = ("p", self.back(val))
                return
        # z in {0,1} forced for every value of the other variables?
        if self.roots01(A, B, C, zi, P):
            self.mkbit(z)
            return self.relation(self.modp(self.poly_of(c.A) * self.poly_of(c.B) - self.poly_of(c.C)), bits + [z], c)
        self.mkfree(z)
        P = self.modp(self.poly_of(c.A) * self.poly_of(c.B) - self.poly_of(c.C))
        self.relation(P, bits, c)

    def back(self, q):
        """placeholders -> values"""
        mp = {}
        for x in q.vars():
            if ring.idem[x]:
                k = bdd.names[ring.keys[x][1]]
                if isinstance(k, tuple) and k[0] == "R":
                    mp[x] = ind(self.val[k[1]][1])
        return self.modp(q.subst(mp)) if mp else q

    def roots01(self, A, B, C, zi, P):
        """is every solution z of A*B == C in {0,1}, for all values of the (bit) variables?"""
        others = (P.vars() | A.vars() | B.vars()) - {zi}
        if not all(ring.idem[x] for x in others) or len(others) > 6:
            return False
        others = sorted(others)

        def at(q, asg):
            return self.modp(q.subst({x: (ONE if v else ZERO) for x, v in asg.items()}))
        for k in range(1 << len(others)):
            asg = {x: (k >> i) & 1 for i, x in enumerate(others)}
            q = at(P, asg)
            if q.cval() is not None:
                if q.cval() == 0:
                    return False           # z unconstrained
                continue                   # infeasible
            co = {0: 0, 1: 0, 2: 0}
            for m, c in q.t.items():
                e = dict(m).get(zi, 0)
                if e > 2:
                    return False
                co[e] = c
            # roots exactly within {0,1}: q = c2 z^2 + c1 z + c0
            f0 = co[0] % self.p == 0
            f1 = (co[0] + co[1] + co[2]) % self.p == 0
            if co[2] % self.p == 0:
                if not (f0 or f1):
                    return False
            else:
                # product of the roots c0/c2, sum -c1/c2
                if f0 and f1:
                    continue
                s = -co[1] * pow(co[2], -1, self.p) % self.p
                if f0:
                    if s != 0:
                        return False
                elif f1:
                    if s != 2 % self.p:
                        return False
                else:
                    return False
        return True

    def relation(self, P, bits, c):
        if P.is_zero():
            return
        if all(ring.idem[x] for x in P.vars()):
            if len(P.vars()) <= 24:
                self.rel = bdd.and_(self.rel, self.zero(P, bits))
            else:
                self.unknown.append(c)
            return
        self.res.append((self.back(P), c))

    # ------------------------------------------------------------ packed sums of bits
    def linear(self, c):
        terms, c0 = c.lin
        un = [v for v in terms if v not in self.val]
        if un:
            un.sort(key=lambda v: self.order[v])
            if len(un) == 1 and abs(terms[un[0]]) in (1,) or len(un) == 1:
                z = un[0]
                inv = pow(terms[z], -1, self.p)
                q = Poly.const(c0)
                for v, k in terms.items():
                    if v != z:
                        q = q + (self.ph(v) if self.isbit(v) else self.val[v][1]).scale(k)
                self.val[z] = ("p", self.back(self.modp(q.scale(-inv))))
                return
            for v in un:
                self.mkfree(v)
        if not all(self.isbit(v) for v in terms):
            # a linear relation with field elements
            q = Poly.const(c0)
            for v, k in terms.items():
                q = q + (ind(self.val[v][1]) if self.isbit(v) else self.val[v][1]).scale(k)
            q = self.modp(q)
            if not q.is_zero():
                self.res.append((q, c))
            return
        if not terms:
            if c0:
                self.rel = FALSE
            return
        if c in self.wraps:
            self.unknown.append(c)
            return
        T = self.result_bits(terms)
        if T is None:
            q = Poly.const(c0)
            for v, k in terms.items():
                q = q + self.ph(v).scale(k)
            if len(terms) <= 18:
                self.rel = bdd.and_(self.rel, self.zero(q, list(terms)))
            else:
                self.unknown.append(c)
            return
        sign, base, tv = T
        cols, const = {}, sign * c0
        for v, k in terms.items():
            if v in tv:
                continue
            k *= sign
            n = self.val[v][1]
            if k < 0:
                # k*x = k + |k|*(1-x)
                const += k
                k = -k
                n = bdd.not_(n)
            w = 0
            while k:
                if k & 1:
                    d = cols.setdefault(w, {})
                    d[n] = d.get(n, 0) + 1
                k >>= 1
                w += 1
        if base:
            # every term is a multiple of 2^base (split_linear leaves the low bits out)
            if any(w < base for w in cols) or const % (1 << base):
                self.unknown.append(c)
                return
            cols = {w - base: m for w, m in cols.items()}
            const >>= base
        k = len(tv)
        c.cols, c.const, c.tv = cols, const, tv
        hi = const + sum(n << w for w, m in cols.items() for n in m.values())
        if hi >= (1 << k) or const < 0:
            # the sum may not fit: the equality restricts the operands
            self.partial = True
            self.unknown.append(c)
            return
        low, d = 0, c
        while d.prev is not None and d.prev.cols is not None and d.shift == len(d.prev.tv) and self.continues(d):
            # digits of an earlier sum run across the cut: name the digits by the joint sum
            s, d = d.shift, d.prev
            j = {w: dict(m) for w, m in d.cols.items()}
            for w, m in cols.items():
                for n, q in m.items():
                    e = j.setdefault(w + s, {})
                    e[n] = e.get(n, 0) + q
            cols, const = j, d.const + (const << s)
            low += s
        bits = self.cs.sum(cols, const, low + k)[low:]
        for i, v in enumerate(tv):
            self.val[v] = ("b", bits[i])

    def continues(self, c):
        """does a digit in this part continue a run of digits in the part below?"""
        for w, m in c.cols.items():
            for n in m:
                q = self.cs.digit(n)
                par = self.cs.info[q][0] if q is not None else 0
                if par and self.cs.node(par) in c.prev.cols.get(w - 1 + c.shift, ()):
                    return True
        return False

    def result_bits(self, terms):
        """variables that hold the binary digits of the rest: (sign, base exponent, [var by weight])"""
        vs = sorted(terms, key=lambda v: -self.order[v])
        for sign in (-1, 1):
            got = {}
            for v in vs:
                k = terms[v] * sign
                if k <= 0 or k & (k - 1) or self.val[v] != ("b", bdd.atom(("bit", v))):
                    break
                e = k.bit_length() - 1
                if e in got:
                    break
                got[e] = v
            while got:
                b = min(got)
                if sorted(got) == list(range(b, b + len(got))) and b == 0:
                    return -sign, 0, [got[e] for e in sorted(got)]
                # drop the oldest variable and retry
                old = min(got, key=lambda e: self.order[got[e]])
                del got[old]
        return None


# ------------------------------------------------------------------ honest witness
def fold_words(P):
    """linear polynomial over bits: replace the weighted digits of a sum of words by the sum of the words' digits"""
    for _ in range(50):
        lin = {}
        for m, c in P.t.items():
            if len(m) == 1 and ring.idem[m[0][0]]:
                k = bdd.names[ring.keys[m[0][0]][1]]
                if isinstance(k, tuple) and k[0] == "wb" and (len(k[1][2]) > 1 or k[1][1]):
                    lin.setdefault(k[1], {})[k[2]] = (m, c)
        todo = None
        for L in sorted(lin, key=lambda l: -l[0]):
            bits = wbits(W(lin=L))
            w, c0, ts = L
            if c0 + sum(k * ((1 << a[1]) - 1) for a, k in ts) >= 1 << w:
                continue
            n0 = poly_lit(bits[0])
            c = P.t.get(n0, 0) if n0 is not None else 0
            if not c:
                continue
            if all(poly_lit(b) is not None and P.t.get(poly_lit(b), 0) == c << i for i, b in enumerate(bits)):
                todo = (L, bits, c)
                break
        if not todo:
            return P
        (w, c0, ts), bits, c = todo
        r = dict(P.t)
        for b in bits:
            r.pop(poly_lit(b))
        Q = Poly(r) + Poly.const(c0 * c)
        for a, k in ts:
            x = W(lin=(a[1], 0, frozenset({(a, 1)})))
            for i, b in enumerate(wbits(x)):
                Q = Q + ind(b).scale(c * k << i)
        P = Q
    return P


def poly_lit(n):
    """monomial of a BDD variable node"""
    v, lo, hi = bdd.node[n]
    return ((ring.var(("ind", v)), 1),) if (lo, hi) == (FALSE, TRUE) else None


def satisfied(log, wit, p, assume=TRUE, cs=None):
    """list of (constraint, condition) violated by the witness (bits as BDD nodes, numbers as Poly)"""
    bad = []
    unk = []
    for c in constraints(log):
        pl, mp = {}, {}

        def val(v):
            if v == ONEV:
                return ONE
            x = wit.get(v)
            if isinstance(x, Poly):
                if all(ring.idem[y] for y in x.vars()) and len(x.vars()) > 4:
                    n0 = poly_zero_bdd(x)
                    n1 = poly_zero_bdd(x - ONE)
                    if bdd.or_(n0, n1) == TRUE:
                        i = bdd.node[bdd.atom(("R", v))][0]
                        mp[i] = n1
                        return Poly.var(("ind", i))
                return x
            raise KeyError(v)
        try:
            def lc(l):
                r = ZERO
                for v, k in l.items():
                    r = r + k * val(v)
                return r
            P = lc(c.A) * lc(c.B) - lc(c.C)
        except KeyError as e:
            unk.append((c, "no witness for %s" % (e.args[0],)))
            continue
        q = {}
        for m, k in P.t.items():
            if isinstance(k, Fraction):
                k = k.numerator * pow(k.denominator, -1, p)
            k %= p
            if k > p // 2:
                k -= p
            if k:
                q[m] = k
        P = norm(Poly(q))
        if len(P.t) > 30:
            P = fold_words(P)
        if P.is_zero():
            continue
        if all(ring.idem[x] for x in P.vars()):
            if len(P.vars()) > 30:
                unk.append((c, "large"))
                continue
            n = compose(poly_zero_bdd(P), mp)
            v = bdd.and_(bdd.and_(assume, c.guard), bdd.not_(n))
            if v != FALSE:
                bad.append((c, v))
        else:
            bad.append((c, P))
    return bad, unk


# ------------------------------------------------------------------ observing results
def lc_node(S, lc):
    """boolean meaning of a linear combination [(var, Poly)]: (bdd is-one, bdd is-zero) or None"""
    d = lcdict(lc)
    bits = [v for v in d if S.isbit(v)]
    if len(bits) == 1 and len([v for v in d if v != ONEV]) == 1:
        v = bits[0]
        k, c = d[v].cval(), (d[ONEV].cval() if ONEV in d else 0)
        n = S.val[v][1]
        if (k, c) == (1, 0):
            return n, bdd.not_(n)
        if (k, c) == (-1, 1):
            return bdd.not_(n), n
    q = S.modp(S.poly_of(d))
    if not all(ring.idem[x] for x in q.vars()):
        return None
    return S.zero(S.modp(q - ONE), bits), S.zero(q, bits)


def lc_poly(S, lc):
    """field meaning of a linear combination"""
    return S.back(S.modp(S.poly_of(lcdict(lc))))


class Falsifier:
    """evaluates the whole constraint system on one assignment of the free variables"""
    def __init__(self, S, log):
        self.S, self.log = S, log
        self.p = S.p
        self.found = None

    def node(self, n, asg):
        nd = bdd.node
        while n > 1:
            v, lo, hi = nd[n]
            n = hi if self.atom(v, asg) else lo
        return n

    def atom(self, i, asg):
        k = bdd.names[i]
        if k in asg:
            return asg[k]
        if isinstance(k, tuple) and k[0] == "sd":
            r = (self.colval(k[1], asg) >> self.S.cs.info[k[1]][3]) & 1
        else:
            r = hashlib.blake2b(("%r|%d" % (k, getattr(asg, "t", 0))).encode(), digest_size=1).digest()[0] & 1
        asg[k] = r
        return r

    def colval(self, p, asg):
        m = asg.setdefault(("pv",), {})
        if p == 0:
            return 0
        t = m.get(p)
        if t is None:
            st = []
            q = p
            while q and q not in m:
                st.append(q)
                q = self.S.cs.info[q][0]
            t = m[q] if q else 0
            for q in reversed(st):
                par, b, col, pos, _ = self.S.cs.info[q]
                t += (b + sum(k for n, k in col if self.node(n, asg))) << pos
                m[q] = t
        return t

    def poly(self, q, asg, fld):
        t = 0
        for m, c in q.t.items():
            if isinstance(c, Fraction):
                c = c.numerator * pow(c.denominator, -1, self.p)
            for x, e in m:
                if ring.idem[x]:
                    b = self.atom(ring.keys[x][1], asg)
                    if not b:
                        c = 0
                        break
                else:
                    v = fld.setdefault(ring.keys[x], (sum(map(ord, repr(ring.keys[x]))) * 2654435761 + 12345) % self.p)
                    c = c * pow(v, e, self.p) % self.p
            t += c
        return t % self.p

    def run(self, cond):
        """does some assignment satisfying `cond` (bdd over free bits) satisfy every constraint?
        -> assignment or None"""
        derived = [k for k in (bdd.names[i] for i in bdd.support(cond)) if isinstance(k, tuple) and k[0] == "sd"]
        if not derived and not self.S.unknown:
            asg0 = bdd.pick(cond)
            return None if asg0 is None else self.check({k: int(v) for k, v in asg0.items()}, {})
        # digits of sums are functions of the free bits, constraints that were not reduced relate them: sample those
        for asg, w in self.models():
            if self.node(cond, asg):
                return w
        return None

    def models(self):
        """sampled assignments that satisfy every constraint"""
        if self.found is None:
            self.found = []
            open_ = [c for c in self.S.unknown if c.lin is not None]
            for t in range(80):
                asg = Sample(t)
                if all(self.fill(c, asg) for c in open_):
                    w = self.check(asg, {})
                    if w is not None:
                        self.found.append((asg, w))
        return self.found

    def fill(self, c, asg):
        """complete the assignment so that the linear equality over bits holds: digit by digit, the free bit allocated
        last at each digit is the one that is forced"""
        terms, c0 = c.lin
        if not all(self.S.isbit(v) for v in terms):
            return False
        level = {}
        for v, k in terms.items():
            level.setdefault((k & -k).bit_length() - 1, []).append(v)
        tot = c0
        for w in range(max(level) + 1):
            last = None
            for v in sorted(level.get(w, ()), key=lambda v: self.S.order[v]):
                n = self.S.val[v][1]
                nd = bdd.node[n]
                if n > 1 and nd[1] == FALSE and nd[2] == TRUE and bdd.names[nd[0]] not in asg:
                    if last is not None:
                        tot += terms[last[0]] * self.atom(last[1], asg)
                    last = (v, nd[0])
                else:
                    tot += terms[v] * self.node(n, asg)
            if last is not None:
                b = (tot >> w) & 1
                asg[bdd.names[last[1]]] = b
                tot += terms[last[0]] * b
            if tot & ((2 << w) - 1):
                return False
        return tot == 0

    def check(self, asg, fld):
        vals = {ONEV: 1}
        for v in self.S.order:
            if v == ONEV:
                continue
            x = self.S.val.get(v)
            if x is None:
                vals[v] = fld.setdefault(("V", v), 3)
            elif x[0] == "b":
                vals[v] = self.node(x[1], asg)
            else:
                vals[v] = self.poly(x[1], asg, fld)
        for e in self.log:
            if e.k != "enforce":
                continue
            t = []
            for lc in e.a:
                s = 0
                for v, c in lc:
                    s += vals[v] * self.poly(c, asg, fld)
                t.append(s % self.p)
            if (t[0] * t[1] - t[2]) % self.p:
                return None
        return asg, {v: x for v, x in vals.items() if v in self.S.free or x in (0, 1)}


class Sample(dict):
    """deterministic pseudo-random assignment of free atoms"""
    def __init__(self, t):
        super().__init__()
        self.t = t
