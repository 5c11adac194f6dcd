"""Multi-exponentiation and base sources (C26, C27, misuse part of C33)."""
from pool import *
from gadgets import anchor, outcome, MissingAnchor
import models as M

X_ = "bellman::multiexp::"
GT = ("rigid", "G")
GS = ("proj", "group::Group", "Scalar", (GT,))
GA = ("proj", "group::prime::PrimeCurve", "Affine", (GT,))
VEC = lambda t: ("adt", "alloc::vec::Vec", (t, ("adt", "alloc::alloc::Global", ())))
ARC = lambda t: ("adt", "alloc::rcs::arc::Arc", (t, ("adt", "alloc::alloc::Global", ())))
EXPT = ("adt", X_ + "Exponent", (GS,))
FULL = ("adt", X_ + "FullDensity", ())
TRACK = ("adt", X_ + "DensityTracker", ())
SRC = ("tuple", (ARC(VEC(GA)), ("usize")))


class MexpEnv(PoolEnv):
    """which bases are the identity is fixed by the scenario"""
    ident = ()

    def zero_test(self, q):
        """exponents named ("g", i) are neither 0 nor 1"""
        q = norm(q)
        ks = {ring.keys[v] for v in q.vars()}
        if len(ks) == 1 and isinstance(next(iter(ks)), tuple) and next(iter(ks))[0] == "g":
            if len(q.t) == 1 or (len(q.t) == 2 and sorted(abs(c) for c in q.t.values()) == [1, 1]
                                 and set(len(m) for m in q.t) == {0, 1} and q.t.get((), 0) * [c for m, c in q.t.items() if m][0] < 0):
                return False
        return None

    def group_zero_test(self, g):
        nz = g.nz()
        if not nz:
            return True
        if len(nz) == 1:
            (k, c), = nz.items()
            if k in self.ident:
                return True
            if c.cval() is not None:
                return False
        return None


class MRun:
    def __init__(self, prog, p, ident=(), **kw):
        ring.rules.clear()
        self.prog = prog
        self.env = MexpEnv(p, **kw)
        self.env.ident = set(ident)
        self.I = mkrun(prog, self.env, 10 ** 9)
        self.worker = self.I.ref(self.I.call_fn(anchor(prog, "bellman::multicore::Worker::new"), (), []))

    def arc(self, v):
        return Ptr("Arc", self.I.cell(v))

    def exponent(self, v, byref=True):
        if byref:
            return self.I.call_trait("core::convert::From", "from", EXPT, [self.I.ref(v)], (("ref", False, GS),))
        return self.I.call_trait("core::convert::From", "from", EXPT, [v], (GS,))

    def density(self, pat):
        """pat: None (full) or a string of 0/1 flags"""
        if pat is None:
            return Adt(X_ + "FullDensity", 0, ()), (FULL, FULL)
        I = self.I
        d = I.ref(I.call_fn(anchor(self.prog, X_ + "DensityTracker::new"), (), []))
        for ch in pat:
            I.call_fn(anchor(self.prog, X_ + "DensityTracker::add_element"), (), [d])
        for i, ch in enumerate(pat):
            if ch == "1":
                I.call_fn(anchor(self.prog, X_ + "DensityTracker::inc"), (), [d, i])
            elif ch == "2":
                for _ in range(2):
                    I.call_fn(anchor(self.prog, X_ + "DensityTracker::inc"), (), [d, i])
        return d, (TRACK, ARC(TRACK))

    def run(self, exps, nbases, off=0, pat=None):
        I = self.I
        ex = self.arc(Seq([self.exponent(v, i % 2 == 0) for i, v in enumerate(exps)]))
        src = Seq([self.arc(Seq([GE.base("G", ("b", i)) for i in range(nbases)])), off])
        d, (Q, D) = self.density(pat)
        if pat is not None:
            tot = I.call_fn(anchor(self.prog, X_ + "DensityTracker::get_total_density"), (), [d])
            self.total = I.strip(tot)
            d = self.arc(I.rget(d))
        fn = anchor(self.prog, X_ + "multiexp")
        w = I.call_fn(fn, (Q, D, GT, SRC), [self.worker, src, d, ex])
        wf = anchor(self.prog, "bellman::multicore::Waiter::wait")
        r = I.call_fn(wf, genv(wf), [w])
        self.env.settle()
        return I.strip(r)

    def weight(self, v):
        """exponent as a polynomial in its bits"""
        c = v.cval()
        if c is not None:
            return Poly.const(c)
        I = self.I
        z = M.pzero(I, v)
        o = M.pzero(I, v - ONE)
        s = ZERO
        for i, b in enumerate(self.env.field_bits(v, GS)):
            s = s + ind(b).scale(1 << i)
        return pite(bn(z), ZERO, pite(bn(o), ONE, s))


def values(kinds, p):
    out = []
    for i, k in enumerate(kinds):
        if k == "s":
            out.append(Poly.var("e%d" % i))
        elif k == "g":
            out.append(Poly.var(("g", i)))
        elif k == "m":
            out.append(Poly.const((p - 1 - i) % p))
        elif k == "r":
            out.append(Poly.const(pow(7, i + 3, p)))
        else:
            out.append(Poly.const(int(k)))
    return out


def check_multiexp(rep, prog, kinds, pat, off, p, label, spare=0, short=0, ident=(), build="mt", **kw):
    """kinds: one letter per exponent (0, 1, m: -1 - i, r: a constant, g: any other value, s: any value); pat: density; off: where the source starts; spare/short: bases left over / missing;
    ident: selected positions whose base is the identity"""
    n = len(kinds)
    sel = [i for i in range(n) if pat is None or pat[i] != "0"]
    nb = off + len(sel) + spare - short
    key = "%d exponents (%s), density %s, source offset %d%s%s%s, %s%s" % (
        n, kinds if n < 24 else kinds[:8] + "..", "full" if pat is None else (pat if n < 24 else pat[:8] + ".."), off,
        ", %d spare bases" % spare if spare else "", ", %d bases missing" % short if short else "",
        ", identity at %s" % (ident,) if ident else "", label + ", %s build" % build, "".join(", %s=%s" % x for x in sorted(kw.items())))
    R = MRun(prog, p, ident=[("b", off + j) for j in ident], **kw)
    vals = values(kinds, p)
    try:
        r = R.run(vals, nb, off, pat)
    except Diverge:
        pn = [x for x in R.I.panics if x[1] != FALSE]
        return rep.bad(key, "panics: %s" % (pn and pn[0][0]), pn and pn[0][2])
    rep.seen(R.I)
    pn = [x for x in R.I.panics if x[1] != FALSE]
    if pn:
        return rep.bad(key, "may panic: %s" % (pn[0][0],), pn[0][2])
    if pat is not None and R.total != len(sel):
        return rep.bad(key, "total density is %r, expected %d" % (R.total, len(sel)), X_ + "DensityTracker::get_total_density")
    # expected result: walk the selected positions
    want = []
    pc = TRUE
    acc = GE("G", {})
    I = R.I
    for j, i in enumerate(sel):
        z = bn(M.pzero(I, vals[i]))
        if off + j >= nb:
            want.append((pc, "err", ("IoError", ("ioerr", "UnexpectedEof"))))
            pc = FALSE
            break
        if j in ident:
            need = bdd.and_(pc, bdd.not_(z))
            if need != FALSE:
                want.append((need, "err", "UnexpectedIdentity"))
            pc = bdd.and_(pc, z)
            continue
        acc = acc + GE.base("G", ("b", off + j)).mul(R.weight(vals[i]))
    if pc != FALSE:
        want.append((pc, "ok", acc))
    got = outcome(I, r)
    # the bits of an exponent agree with its tests against 0 and 1
    real = TRUE
    for v in set(vals):
        if v.cval() is not None:
            continue
        bits = list(I.env.field_bits(v, GS))
        for what, t in ((0, bn(M.pzero(I, v))), (1, bn(M.pzero(I, v - ONE)))):
            e = TRUE
            for i, b in enumerate(bits):
                e = bdd.and_(e, b if i == 0 and what else bdd.not_(b))
            real = bdd.and_(real, bdd.iff(e, t))
    want = [(bdd.and_(c, real), k, v) for c, k, v in want]
    for c, k, v in want:
        for d, k2, v2 in got:
            g = bdd.and_(c, d)
            if g == FALSE:
                continue
            if k != k2:
                return rep.bad(key, "%s %r where %s %r is expected" % (k2, v2, k, v), X_ + "multiexp")
            if k == "err" and v != v2:
                # an earlier failure of another base may be reported by a different region
                if v2 in [w[2] for w in want if w[1] == "err"] and len(want) > 1:
                    continue
                return rep.bad(key, "error %r where %r is expected" % (v2, v), X_ + "multiexp")
            if k == "ok":
                diff = I.strip(v2) - v
                for kk, co in diff.nz().items():
                    if not M_zero_under(g, co):
                        return rep.bad(key, "coefficient of base %r is wrong by %.200r" % (kk, co), X_ + "multiexp")
    rep.ok(key)


def M_zero_under(g, co):
    """polynomial over indicators vanishes on all assignments of g"""
    if co.is_zero():
        return True
    x = norm(co * ind(g)) if g != TRUE else norm(co)
    return x.is_zero()


def check_sources(rep, prog, sizes=range(0, 5)):
    """next / skip on (bases, cursor)"""
    nx = anchor(prog, "<tuple as bellman::multiexp::Source>::next")
    sk = anchor(prog, "<tuple as bellman::multiexp::Source>::skip")
    bd = anchor(prog, "<tuple as bellman::multiexp::SourceBuilder>::build")
    for n in sizes:
        for cur in range(0, 7):
            for idp in ((), (0,), (1,), (0, 1, 2, 3)):
                for seq in ("n", "nn", "nnn", "s1", "s2n", "ns1n", "s0n", "s1s1n", "s3", "bn"):
                    key = "%d bases, cursor %d, identities %s, calls %s" % (n, cur, idp, seq)
                    R = MRun(prog, BLS_R, ident=[("b", i) for i in idp])
                    I = R.I
                    src = I.ref(Seq([R.arc(Seq([GE.base("G", ("b", i)) for i in range(n)])), cur]))
                    c = cur
                    ok = None
                    k = 0
                    try:
                        while k < len(seq) and ok is None:
                            ch = seq[k]
                            k += 1
                            if ch == "b":
                                src = I.ref(I.call_fn(bd, (GA,), [M.clone(I, I.rget(src))]))
                                continue
                            if ch == "n":
                                o = outcome(I, I.call_fn(nx, (GA,), [src]))
                                if c >= n:
                                    w = ("err", ("IoError", ("ioerr", "UnexpectedEof")))
                                elif c in idp:
                                    w = ("err", "UnexpectedIdentity")
                                else:
                                    w = ("ok", GE.base("G", ("b", c)))
                                    c += 1
                            else:
                                amt = int(seq[k])
                                k += 1
                                o = outcome(I, I.call_fn(sk, (GA,), [src, amt]))
                                if c >= n and amt:
                                    w = ("err", ("IoError", ("ioerr", "UnexpectedEof")))
                                elif c >= n:
                                    continue
                                else:
                                    w = ("ok", None)
                                    c += amt
                            if len(o) != 1 or o[0][1] != w[0]:
                                ok = "%r instead of %r" % (o, w)
                            elif w[0] == "err" and o[0][2] != w[1]:
                                ok = "error %r instead of %r" % (o[0][2], w[1])
                            elif w[0] == "ok" and w[1] is not None and not (I.strip(o[0][2]) - w[1]).is_id():
                                ok = "yielded %r instead of %r" % (I.strip(o[0][2]), w[1])
                            else:
                                now = I.strip(I.rget(src).i[1])
                                if now != c and not (w[0] == "err" and c > n):
                                    ok = "cursor is %r, expected %d" % (now, c)
                            if w[0] == "err":
                                break
                    except Diverge:
                        ok = "panics: %s" % I.panics[0][0]
                    rep.seen(I)
                    if I.panics and ok is None and any(x[1] != FALSE for x in I.panics):
                        ok = "may panic: %s" % I.panics[0][0]
                    rep.verdict(key, ok is None, ok, nx.path)


def check_density_misuse(rep, prog, build):
    for n, m in ((3, 2), (2, 3), (0, 1), (1, 0), (33, 32), (32, 33)):
        key = "density of %d flags for %d exponents is refused, %s build" % (n, m, build)
        R = MRun(prog, BLS_R)
        try:
            R.run(values("1" * m, BLS_R), max(n, m), 0, "1" * n)
            rep.bad(key, "accepted", X_ + "multiexp")
        except Diverge:
            rep.ok(key)
        rep.seen(R.I)
