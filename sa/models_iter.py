"""Iterators: IntoIterator / Iterator / rayon parallel iterators (analysed in index order)."""
from mir import *
from terms import *
from interp import (Adt, Seq, Ref, Ptr, Clo, It, U, NONE, SOME, OK, ERR, TUP, UNIT, UNINIT, OPT, RES, CF,
                    Diverge, Unsupported, merge, union, flat, WIDTH)
import models as M
from models import fnm, trm, FUNCS, TRAIT, usz, panic, sref, gsp, clone, callf, veq, CONT, BRK

ITER = "core::iter::traits::iterator::Iterator"
DE = "core::iter::traits::double_ended::DoubleEndedIterator"
ESI = "core::iter::traits::exact_size::ExactSizeIterator"
INTO = "core::iter::traits::collect::IntoIterator"
EXT = "core::iter::traits::collect::Extend"
FROMIT = "core::iter::traits::collect::FromIterator"
RANGES = {"core::ops::range::Range", "core::ops::range::RangeInclusive", "core::ops::range::RangeFrom"}


def SL(I, r):
    c, p, n = sref(I, r)
    return It("slice", Ref(c, p), 0, n)


def VALS(items):
    items = tuple(items)
    return It("vals", Seq(items), 0, len(items))


def hold(I, f):
    """closures owned by an adaptor live in a cell so that captured state persists"""
    if isinstance(f, Ref):
        return f
    return I.ref(f)


def to_it(I, v):
    """IntoIterator::into_iter on a value"""
    if isinstance(v, It):
        return v
    if isinstance(v, Seq):
        return VALS(v.i)
    if isinstance(v, U):
        if all(isinstance(w, (Seq, It)) for _, w in v.a):
            return I.split(v, lambda w: to_it(I, w))
        return I.split(v, lambda w: to_it(I, w))
    if isinstance(v, Adt):
        if v.p == OPT:
            return VALS(v.f)
        if v.p == RES:
            return VALS(v.f if v.v == 0 else ())
        if v.p in ("BTreeMap", "HashMap"):
            import models_map
            return models_map.map_iter(I, v)
        return v
    if isinstance(v, (Ref, Ptr)):
        w = v
        while isinstance(w, (Ref, Ptr)):
            r = w
            w = I.rget(w)
        if isinstance(r, Ptr):
            r = Ref(r.c)
        if isinstance(w, Seq):
            return VALS(w.i) if isinstance(v, Ptr) and v.k == "Box" else SL(I, r)
        if isinstance(w, Adt) and w.p in ("BTreeMap", "HashMap"):
            import models_map
            return models_map.map_iter(I, v)
        if isinstance(w, Adt) and w.p == OPT:
            return VALS((Ref(r.c, r.p + (("v", 1), 0)),) if w.v == 1 else ())
        if isinstance(w, U) and all(isinstance(x, Seq) for _, x in w.a):
            return I.cases([(c, (lambda: to_it(I, r))) for c, x in w.a])
        if isinstance(w, U) and all(isinstance(x, Adt) and x.p == OPT for _, x in w.a):
            return union([(c, VALS((Ref(r.c, r.p + (("v", 1), 0)),) if x.v == 1 else ())) for c, x in w.a])
        return r            # &mut iterator
    r = I.env.to_it(v) if hasattr(I.env, "to_it") else None
    if r is not None:
        return r
    raise Unsupported("into_iter of %r" % (v,))


# ----------------------------------------------------------------- next
def nxt(I, it, back=False):
    """-> (option value, iterator')"""
    if isinstance(it, U):
        r = I.split(it, lambda x: Seq(nxt(I, x, back)))
        return r.i
    if isinstance(it, Ref):
        w = I.rget(it)
        if isinstance(w, (It, Adt, U, Ref)):
            o, w2 = nxt(I, w, back)
            I.rset(it, w2)
            return o, it
        raise Unsupported("next on %r" % (w,))
    if isinstance(it, Adt):
        if it.p in RANGES:
            return _range_next(I, it, back)
        c = I.ref(it)
        o = I.call_trait(DE if back else ITER, "next_back" if back else "next", None, [c])
        return o, I.rget(c)
    if isinstance(it, It):
        h = (NXTB if back else NXT).get(it.k)
        if h is None:
            raise Unsupported("iterator %s%s" % (it.k, " (backwards)" if back else ""))
        return h(I, it)
    if isinstance(it, Ptr):
        return nxt(I, Ref(it.c), back)
    r = I.env.nxt(it, back) if hasattr(I.env, "nxt") else None
    if r is not None:
        return r
    raise Unsupported("next on %r" % (it,))


def _range_next(I, it, back):
    k = it.p.split("::")[-1]
    if k == "RangeFrom":
        return SOME(it.f[0]), Adt(it.p, 0, (I.binop("Add", it.f[0], 1, "u64"),))
    lo, hi = it.f[0], it.f[1]
    if k == "RangeInclusive":
        ex = it.f[2] if len(it.f) > 2 else False
        if ex is True:
            return NONE, it
        if isinstance(lo, int) and isinstance(hi, int):
            if lo > hi:
                return NONE, it
            if lo == hi:
                return SOME(lo), Adt(it.p, 0, (lo, hi, True))
            if back:
                return SOME(hi), Adt(it.p, 0, (lo, hi - 1, False))
            return SOME(lo), Adt(it.p, 0, (lo + 1, hi, False))
        raise Unsupported("symbolic inclusive range")
    c = I.binop("Lt", lo, hi, "u64")

    def some():
        if back:
            h = I.binop("Sub", hi, 1, "u64")
            return Seq((SOME(h), Adt(it.p, 0, (lo, h))))
        return Seq((SOME(lo), Adt(it.p, 0, (I.binop("Add", lo, 1, "u64"), hi))))
    return I.ite(c, some, lambda: Seq((NONE, it))).i


NXT, NXTB = {}, {}


def itk(k, back=False):
    def d(f):
        (NXTB if back else NXT)[k] = f
        return f
    return d


@itk("slice")
def _(I, it):
    r, s, e = it.f
    if s >= e:
        return NONE, it
    return SOME(Ref(r.c, I.idx(r.p, s))), It("slice", r, s + 1, e)


@itk("slice", True)
def _(I, it):
    r, s, e = it.f
    if s >= e:
        return NONE, it
    return SOME(Ref(r.c, I.idx(r.p, e - 1))), It("slice", r, s, e - 1)


@itk("vals")
def _(I, it):
    q, s, e = it.f
    if s >= e:
        return NONE, it
    return SOME(q.i[s]), It("vals", q, s + 1, e)


@itk("vals", True)
def _(I, it):
    q, s, e = it.f
    if s >= e:
        return NONE, it
    return SOME(q.i[e - 1]), It("vals", q, s, e - 1)


def _mapn(back):
    def h(I, it):
        o, b = nxt(I, it.f[0], back)
        it2 = It("map", b, it.f[1])
        return I.split(o, lambda x: NONE if x.v == 0 else SOME(callf(I, it.f[1], x.f[0]))), it2
    return h


NXT["map"], NXTB["map"] = _mapn(False), _mapn(True)


def _cln(back):
    def h(I, it):
        o, b = nxt(I, it.f[0], back)
        return I.split(o, lambda x: NONE if x.v == 0 else SOME(clone(I, I.rget(x.f[0])))), It("cloned", b)
    return h


NXT["cloned"], NXTB["cloned"] = _cln(False), _cln(True)


def _insp(back):
    def h(I, it):
        o, b = nxt(I, it.f[0], back)

        def go(x):
            if x.v:
                callf(I, it.f[1], I.ref(x.f[0]))
            return x
        return I.split(o, go), It("inspect", b, it.f[1])
    return h


NXT["inspect"], NXTB["inspect"] = _insp(False), _insp(True)


def _filt(back):
    def h(I, it):
        o, b = nxt(I, it.f[0], back)
        it2 = It("filter", b, it.f[1])

        def go(x):
            if x.v == 0:
                return Seq((NONE, it2))
            v = x.f[0]
            return I.ite(callf(I, it.f[1], I.ref(v)), lambda: Seq((SOME(v), it2)), lambda: Seq(nxt(I, it2, back)))
        return I.split(o, go).i
    return h


NXT["filter"], NXTB["filter"] = _filt(False), _filt(True)


def _fmap(back):
    def h(I, it):
        o, b = nxt(I, it.f[0], back)
        it2 = It("filter_map", b, it.f[1])

        def go(x):
            if x.v == 0:
                return Seq((NONE, it2))
            return I.split(callf(I, it.f[1], x.f[0]),
                           lambda y: Seq((y, it2)) if y.v else Seq(nxt(I, it2, back)))
        return I.split(o, go).i
    return h


NXT["filter_map"], NXTB["filter_map"] = _fmap(False), _fmap(True)


@itk("enum")
def _(I, it):
    o, b = nxt(I, it.f[0])
    k = it.f[1]
    return I.split(o, lambda x: NONE if x.v == 0 else SOME(TUP(k, x.f[0]))), It("enum", b, I.binop("Add", k, 1, "u64"))


@itk("enum", True)
def _(I, it):
    n = length(I, it.f[0])
    o, b = nxt(I, it.f[0], True)
    return I.split(o, lambda x: NONE if x.v == 0 else SOME(TUP(it.f[1] + n - 1, x.f[0]))), It("enum", b, it.f[1])


@itk("zip")
def _(I, it):
    a, b = it.f
    o, a2 = nxt(I, a)

    def go(x):
        if x.v == 0:
            return Seq((NONE, It("zip", a2, b)))
        p, b2 = nxt(I, b)
        return Seq((I.split(p, lambda y: NONE if y.v == 0 else SOME(TUP(x.f[0], y.f[0]))), It("zip", a2, b2)))
    return I.split(o, go).i


@itk("zip", True)
def _(I, it):
    a, b = it.f
    la, lb = length(I, a), length(I, b)
    while la > lb:
        _, a = nxt(I, a, True)
        la -= 1
    while lb > la:
        _, b = nxt(I, b, True)
        lb -= 1
    o, a2 = nxt(I, a, True)
    p, b2 = nxt(I, b, True)
    if la == 0:
        return NONE, It("zip", a2, b2)
    return SOME(TUP(o.f[0], p.f[0])), It("zip", a2, b2)


@itk("rev")
def _(I, it):
    o, b = nxt(I, it.f[0], True)
    return o, It("rev", b)


@itk("rev", True)
def _(I, it):
    o, b = nxt(I, it.f[0])
    return o, It("rev", b)


@itk("chain")
def _(I, it):
    a, b = it.f
    if a is None:
        o, b2 = nxt(I, b)
        return o, It("chain", None, b2)
    o, a2 = nxt(I, a)

    def go(x):
        if x.v:
            return Seq((x, It("chain", a2, b)))
        p, b2 = nxt(I, b)
        return Seq((p, It("chain", None, b2)))
    return I.split(o, go).i


@itk("chain", True)
def _(I, it):
    a, b = it.f
    if b is not None:
        o, b2 = nxt(I, b, True)
        if not (isinstance(o, Adt) and o.v == 0) or a is None:
            return o, It("chain", a, b2)
        b = b2
    o, a2 = nxt(I, a, True)
    return o, It("chain", a2, b)


@itk("skip")
def _(I, it):
    b, n = it.f
    for _ in range(n):
        o, b = nxt(I, b)
        if isinstance(o, Adt) and o.v == 0:
            return NONE, It("skip", b, 0)
        if not isinstance(o, Adt):
            raise Unsupported("skip over a gated iterator")
    o, b = nxt(I, b)
    return o, It("skip", b, 0)


@itk("skip", True)
def _(I, it):
    b, n = it.f
    if length(I, b) <= n:
        return NONE, it
    o, b = nxt(I, b, True)
    return o, It("skip", b, n)


@itk("take")
def _(I, it):
    b, n = it.f
    if n == 0:
        return NONE, it
    o, b2 = nxt(I, b)
    return o, It("take", b2, n - 1)


@itk("take", True)
def _(I, it):
    b, n = it.f
    m = length(I, b)
    while m > n:
        _, b = nxt(I, b, True)
        m -= 1
    o, b = nxt(I, b, True)
    return o, It("take", b, max(0, m - 1))


@itk("step")
def _(I, it):
    b, n, first = it.f
    if not first:
        for _ in range(n - 1):
            o, b = nxt(I, b)
            if isinstance(o, Adt) and o.v == 0:
                return NONE, It("step", b, n, False)
    o, b = nxt(I, b)
    return o, It("step", b, n, False)


@itk("step", True)
def _(I, it):
    b, n, first = it.f
    items = list(drain(I, It("step", b, n, first)))
    v = VALS(items)
    if not items:
        return NONE, v
    return SOME(items[-1]), VALS(items[:-1])


@itk("take_while")
def _(I, it):
    b, f, done = it.f
    if done:
        return NONE, it
    o, b2 = nxt(I, b)

    def go(x):
        if x.v == 0:
            return Seq((NONE, It("take_while", b2, f, True)))
        return I.ite(callf(I, f, I.ref(x.f[0])), lambda: Seq((x, It("take_while", b2, f, False))),
                     lambda: Seq((NONE, It("take_while", b2, f, True))))
    return I.split(o, go).i


@itk("map_while")
def _(I, it):
    b, f = it.f
    o, b2 = nxt(I, b)
    return I.split(o, lambda x: NONE if x.v == 0 else callf(I, f, x.f[0])), It("map_while", b2, f)


@itk("skip_while")
def _(I, it):
    b, f, done = it.f
    if done:
        o, b2 = nxt(I, b)
        return o, It("skip_while", b2, f, True)
    o, b2 = nxt(I, b)

    def go(x):
        if x.v == 0:
            return Seq((NONE, It("skip_while", b2, f, True)))
        return I.ite(callf(I, f, I.ref(x.f[0])), lambda: Seq(nxt(I, It("skip_while", b2, f, False))),
                     lambda: Seq((x, It("skip_while", b2, f, True))))
    return I.split(o, go).i


@itk("scan")
def _(I, it):
    b, st, f = it.f
    o, b2 = nxt(I, b)
    return I.split(o, lambda x: NONE if x.v == 0 else callf(I, f, st, x.f[0])), It("scan", b2, st, f)


@itk("peek")
def _(I, it):
    b, pk = it.f
    if pk is not None:
        return pk, It("peek", b, None)
    o, b2 = nxt(I, b)
    return o, It("peek", b2, None)


@itk("cycle")
def _(I, it):
    orig, cur = it.f
    o, c2 = nxt(I, cur)

    def go(x):
        if x.v:
            return Seq((x, It("cycle", orig, c2)))
        p, c3 = nxt(I, orig)
        return Seq((p, It("cycle", orig, c3)))
    return I.split(o, go).i


@itk("flat")
def _(I, it):
    outer, cur = it.f
    while True:
        if cur is not None:
            o, c2 = nxt(I, cur)
            if isinstance(o, Adt):
                if o.v:
                    return o, It("flat", outer, c2)
                cur = None
            else:
                return I.split(o, lambda x: Seq((x, It("flat", outer, c2))) if x.v else
                               Seq(nxt(I, It("flat", outer, None)))).i
        o, outer = nxt(I, outer)
        if isinstance(o, Adt):
            if o.v == 0:
                return NONE, It("flat", outer, None)
            cur = to_it(I, o.f[0])
        else:
            return I.split(o, lambda x: Seq((NONE, It("flat", outer, None))) if x.v == 0 else
                           Seq(nxt(I, It("flat", outer, to_it(I, x.f[0]))))).i


@itk("flat", True)
def _(I, it):
    items = drain(I, it)
    return nxt(I, VALS(items), True)


@itk("chunks")
def _(I, it):
    r, s, e, k = it.f
    if s >= e:
        return NONE, it
    h = min(e, s + k)
    return SOME(Ref(r.c, I.sl(r.p, s, h))), It("chunks", r, h, e, k)


@itk("chunks", True)
def _(I, it):
    r, s, e, k = it.f
    if s >= e:
        return NONE, it
    m = (e - s) % k or k
    return SOME(Ref(r.c, I.sl(r.p, e - m, e))), It("chunks", r, s, e - m, k)


@itk("windows")
def _(I, it):
    r, s, e, k = it.f
    if s + k > e:
        return NONE, it
    return SOME(Ref(r.c, I.sl(r.p, s, s + k))), It("windows", r, s + 1, e, k)


@itk("repeat")
def _(I, it):
    return SOME(clone(I, it.f[0])), it


NXTB["repeat"] = NXT["repeat"]


@itk("repeat_with")
def _(I, it):
    return SOME(callf(I, it.f[0])), it


@itk("from_fn")
def _(I, it):
    return callf(I, it.f[0]), it


@itk("succ")
def _(I, it):
    cur, f = it.f

    def go(x):
        if x.v == 0:
            return Seq((NONE, It("succ", NONE, f)))
        return Seq((x, It("succ", callf(I, f, I.ref(x.f[0])), f)))
    return I.split(cur, go).i


@itk("fuse")
def _(I, it):
    o, b = nxt(I, it.f[0])
    return o, It("fuse", b)


# ----------------------------------------------------------------- length / drain
def length(I, it):
    """exact length of an iterator (definite)"""
    if isinstance(it, Ref):
        return length(I, I.rget(it))
    if isinstance(it, It):
        k = it.k
        if k in ("slice", "vals"):
            return it.f[2] - it.f[1]
        if k in ("map", "cloned", "enum", "rev", "inspect", "fuse"):
            return length(I, it.f[0])
        if k == "zip":
            a, b = length(I, it.f[0]), length(I, it.f[1])
            return min(a, b)
        if k == "chain":
            return (length(I, it.f[0]) if it.f[0] is not None else 0) + length(I, it.f[1])
        if k == "skip":
            return max(0, length(I, it.f[0]) - it.f[1])
        if k == "take":
            return min(it.f[1], length(I, it.f[0]))
        if k == "chunks":
            return -(-(it.f[2] - it.f[1]) // it.f[3])
        if k == "windows":
            return max(0, it.f[2] - it.f[1] - it.f[3] + 1)
        if k in ("repeat", "cycle", "repeat_with"):
            return 1 << 63
        if k == "step":
            n = length(I, it.f[0])
            return -(-n // it.f[1]) if it.f[2] else n // it.f[1]
        if k == "peek" and it.f[1] is None:
            return length(I, it.f[0])
    if isinstance(it, Adt) and it.p in RANGES:
        if it.p.endswith("RangeFrom"):
            return 1 << 63
        lo, hi = usz(I, it.f[0]), usz(I, it.f[1])
        if it.p.endswith("Inclusive"):
            return 0 if (len(it.f) > 2 and it.f[2]) else max(0, hi - lo + 1)
        return max(0, hi - lo)
    raise Unsupported("length of %r" % (it,))


def fold(I, it, acc, fn):
    """fold over an iterator; fn(acc, v) -> acc"""
    while True:
        o, it = nxt(I, it)
        if isinstance(o, U):
            o2 = [x for c, x in o.a if bdd.and_(c, I.pc) != FALSE]
            if len(o2) == 1:
                o = o2[0]
        if isinstance(o, Adt):
            if o.v == 0:
                return acc
            acc = fn(acc, o.f[0])
        else:
            return I.split(o, lambda x: acc if x.v == 0 else fold(I, it, fn(acc, x.f[0]), fn))


def each(I, it, fn):
    def f(acc, v):
        fn(v)
        return acc
    fold(I, it, UNIT, f)
    return UNIT


def drain(I, it):
    """definite list of the items (raises Unsupported when the number of items is gated)"""
    out = []
    while True:
        o, it = nxt(I, it)
        if isinstance(o, U):
            o2 = [x for c, x in o.a if bdd.and_(c, I.pc) != FALSE]
            if len(o2) != 1:
                raise Unsupported("iterator with an undecided number of items")
            o = o2[0]
        if o.v == 0:
            return out
        out.append(o.f[0])


def tryfold(I, it, acc, fn):
    """fn(acc, v) -> ControlFlow; result ControlFlow; also leaves the iterator state: (cf, it')"""
    while True:
        o, it = nxt(I, it)

        def step(x, it=it, acc=acc):
            if x.v == 0:
                return Seq((CONT(acc), it))
            r = fn(acc, x.f[0])
            return I.split(r, lambda y: Seq((y, it)) if y.v == 1 else Seq(tryfold(I, it, y.f[0], fn)))
        if isinstance(o, Adt):
            if o.v == 0:
                return CONT(acc), it
            r = fn(acc, o.f[0])
            if isinstance(r, Adt):
                if r.v == 1:
                    return r, it
                acc = r.f[0]
                continue
            return I.split(r, lambda y, it=it: Seq((y, it)) if y.v == 1 else Seq(tryfold(I, it, y.f[0], fn))).i
        return I.split(o, step).i


# ----------------------------------------------------------------- constructors
@trm(INTO, "into_iter")
def _into_iter(I, f, a):
    return to_it(I, a[0])


@fnm("slice::iter", "slice::iter_mut", "bitvec::slice::BitSlice::iter", "bitvec::slice::BitSlice::iter_mut",
     "array::iter")
def _iter(I, f, a):
    return gsp(I, a[0], lambda r: SL(I, r))


@fnm("bitvec::slice::iter::Iter::by_vals", "bitvec::slice::iter::Iter::by_refs")
def _byv(I, f, a):
    return It("cloned", a[0]) if f.p.endswith("by_vals") else a[0]


def _chunks(I, f, a):
    k = usz(I, a[1])
    if k == 0:
        panic(I, "chunk size must be non-zero")

    def go(r):
        c, p, n = sref(I, r)
        if "exact" in f.p:
            n -= n % k
        return It("chunks", Ref(c, p), 0, n, k)
    return gsp(I, a[0], go)


for _p in ("slice::", "bitvec::slice::BitSlice::"):
    for _n in ("chunks", "chunks_mut", "chunks_exact", "chunks_exact_mut"):
        FUNCS[_p + _n] = _chunks


@fnm("slice::rchunks", "slice::rchunks_mut")
def _rch(I, f, a):
    k = usz(I, a[1])
    if k == 0:
        panic(I, "chunk size must be non-zero")
    c, p, n = sref(I, a[0])
    out = []
    e = n
    while e > 0:
        s = max(0, e - k)
        out.append(Ref(c, I.sl(p, s, e)))
        e = s
    return VALS(out)


@fnm("slice::windows")
def _win(I, f, a):
    k = usz(I, a[1])
    if k == 0:
        panic(I, "window size must be non-zero")
    c, p, n = sref(I, a[0])
    return It("windows", Ref(c, p), 0, n, k)


@fnm("core::ops::range::RangeInclusive::new")
def _rin(I, f, a):
    return Adt("core::ops::range::RangeInclusive", 0, (a[0], a[1], False))


@fnm("core::ops::range::RangeInclusive::start")
def _ris(I, f, a):
    return Ref(*(lambda c, p: (c, p + (0,)))(*I.deref(a[0])))


@fnm("core::ops::range::RangeInclusive::end")
def _rie(I, f, a):
    return Ref(*(lambda c, p: (c, p + (1,)))(*I.deref(a[0])))


@fnm("core::ops::range::Range::contains")
def _rcont(I, f, a):
    r, x = I.strip(a[0]), I.strip(a[1])
    return tob(bdd.and_(bdd.not_(wlt(x, r.f[0])), wlt(x, r.f[1])))


@fnm("core::ops::range::Range::is_empty")
def _rise(I, f, a):
    r = I.strip(a[0])
    return tob(bdd.not_(wlt(r.f[0], r.f[1])))


@fnm("core::iter::sources::repeat::repeat")
def _rep(I, f, a):
    return It("repeat", a[0])


@fnm("core::iter::sources::repeat_n::repeat_n")
def _repn(I, f, a):
    return VALS([a[0]] * usz(I, a[1]))


@fnm("core::iter::sources::repeat_with::repeat_with")
def _repw(I, f, a):
    return It("repeat_with", hold(I, a[0]))


@fnm("core::iter::sources::from_fn::from_fn")
def _ff(I, f, a):
    return It("from_fn", hold(I, a[0]))


@fnm("core::iter::sources::successors::successors")
def _succ(I, f, a):
    return It("succ", a[0], hold(I, a[1]))


@fnm("core::iter::sources::once::once")
def _once(I, f, a):
    return VALS([a[0]])


@fnm("core::iter::sources::empty::empty")
def _empty(I, f, a):
    return VALS([])


@fnm("core::iter::adapters::zip::zip")
def _zip2(I, f, a):
    return It("zip", to_it(I, a[0]), to_it(I, a[1]))


# ----------------------------------------------------------------- Iterator methods
def advance(I, r, back=False):
    """next on a place holding an iterator"""
    v = I.rget(r)
    if isinstance(v, (Ref, Ptr)):
        return advance(I, v, back)
    o, v2 = nxt(I, v, back)
    I.rset(r, v2)
    return o


def known_iter(I, v):
    while isinstance(v, (Ref, Ptr)):
        v = I.rget(v)
    if isinstance(v, U):
        return any(known_iter(I, w) for _, w in v.a)
    return isinstance(v, It) or (isinstance(v, Adt) and v.p in RANGES) or \
        (hasattr(I.env, "is_iter") and I.env.is_iter(v))


@trm(ITER, "next")
def _next(I, f, a):
    if not known_iter(I, a[0]):
        return None
    return advance(I, a[0])


@trm(DE, "next_back")
def _nextb(I, f, a):
    if not known_iter(I, a[0]):
        return None
    return advance(I, a[0], True)


@trm(DE, "rfold")
def _rfold(I, f, a):
    return fold(I, It("rev", a[0]), a[1], lambda acc, v: callf(I, a[2], acc, v))


@trm(ITER, "by_ref")
def _byref(I, f, a):
    return a[0]


def lazy(name, mk):
    TRAIT[(ITER, name)] = lambda I, f, a: mk(I, f, a)


lazy("map", lambda I, f, a: It("map", a[0], hold(I, a[1])))
lazy("filter", lambda I, f, a: It("filter", a[0], hold(I, a[1])))
lazy("filter_map", lambda I, f, a: It("filter_map", a[0], hold(I, a[1])))
lazy("inspect", lambda I, f, a: It("inspect", a[0], hold(I, a[1])))
lazy("enumerate", lambda I, f, a: It("enum", a[0], 0))
lazy("zip", lambda I, f, a: It("zip", a[0], to_it(I, a[1])))
lazy("rev", lambda I, f, a: It("rev", a[0]))
lazy("chain", lambda I, f, a: It("chain", a[0], to_it(I, a[1])))
lazy("skip", lambda I, f, a: It("skip", a[0], usz(I, a[1])))
lazy("take", lambda I, f, a: It("take", a[0], usz(I, a[1])))
lazy("cloned", lambda I, f, a: It("cloned", a[0]))
lazy("copied", lambda I, f, a: It("cloned", a[0]))
lazy("take_while", lambda I, f, a: It("take_while", a[0], hold(I, a[1]), False))
lazy("map_while", lambda I, f, a: It("map_while", a[0], hold(I, a[1])))
lazy("skip_while", lambda I, f, a: It("skip_while", a[0], hold(I, a[1]), False))
lazy("scan", lambda I, f, a: It("scan", a[0], I.ref(a[1]), hold(I, a[2])))
lazy("peekable", lambda I, f, a: It("peek", a[0], None))
lazy("fuse", lambda I, f, a: It("fuse", a[0]))
lazy("cycle", lambda I, f, a: It("cycle", a[0], a[0]))
lazy("flat_map", lambda I, f, a: It("flat", It("map", a[0], hold(I, a[1])), None))
lazy("flatten", lambda I, f, a: It("flat", a[0], None))


def _step(I, f, a):
    n = usz(I, a[1])
    if n == 0:
        panic(I, "step_by(0)")
    return It("step", a[0], n, True)


lazy("step_by", _step)


@fnm("core::iter::adapters::peekable::Peekable::peek")
def _peek(I, f, a):
    it = I.rget(a[0])
    b, pk = it.f
    if pk is None:
        pk, b = nxt(I, b)
        I.rset(a[0], It("peek", b, pk))
    c, p = I.deref(a[0])
    return I.split(pk, lambda o: NONE if o.v == 0 else SOME(I.ref(o.f[0])))


@trm(ITER, "fold")
def _fold(I, f, a):
    fn = hold(I, a[2])
    return fold(I, a[0], a[1], lambda acc, v: callf(I, fn, acc, v))


@trm(ITER, "for_each")
def _fe(I, f, a):
    fn = hold(I, a[1])
    return each(I, a[0], lambda v: callf(I, fn, v))


@trm(ITER, "reduce")
def _reduce(I, f, a):
    o, it = nxt(I, a[0])
    fn = hold(I, a[1])
    return I.split(o, lambda x: NONE if x.v == 0 else SOME(fold(I, it, x.f[0], lambda acc, v: callf(I, fn, acc, v))))


def _to_cf(t, v, I):
    def go(o):
        if o.p == RES:
            return CONT(o.f[0]) if o.v == 0 else BRK(o)
        if o.p == OPT:
            return CONT(o.f[0]) if o.v == 1 else BRK(o)
        return o
    if isinstance(v, U):
        return union([(c, go(x)) for c, x in v.a if bdd.and_(c, I.pc) != FALSE])
    return go(v)


def _from_cf(cf, t, I):
    kind = t[1] if isinstance(t, tuple) and t[0] == "adt" else CF

    def go(y):
        if y.v == 1:
            return y.f[0] if kind != CF else y
        return OK(y.f[0]) if kind == RES else SOME(y.f[0]) if kind == OPT else y
    if isinstance(cf, U):
        return union([(c, go(x)) for c, x in cf.a if bdd.and_(c, I.pc) != FALSE])
    return go(cf)


def _tryty(f):
    """return type argument of try_fold/try_for_each (last generic arg that is a Try type)"""
    for t in reversed(f.a):
        if isinstance(t, tuple) and t[0] == "adt" and t[1] in (RES, OPT, CF):
            return t
    return None


@trm(ITER, "try_fold")
def _tf(I, f, a):
    fn = hold(I, a[2])
    r = a[0]
    it = r if isinstance(r, Ref) and known_iter(I, I.rget(r)) else r
    cf, _ = tryfold(I, it, a[1], lambda acc, v: _to_cf(None, callf(I, fn, acc, v), I))
    return _from_cf(cf, _tryty(f), I)


@trm(ITER, "try_for_each")
def _tfe(I, f, a):
    fn = hold(I, a[1])
    cf, _ = tryfold(I, a[0], UNIT, lambda acc, v: _to_cf(None, callf(I, fn, v), I))
    return _from_cf(cf, _tryty(f), I)


def collect(I, it, t):
    """collect into type t"""
    t = I.prog.norm(t)
    if isinstance(t, tuple) and t[0] == "adt":
        p = t[1]
        if p in (RES, OPT):
            def step(acc, v):
                cf = _to_cf(None, v, I)
                f = lambda y: y if y.v == 1 else CONT(Seq(acc.i + (y.f[0],)))
                if isinstance(cf, U):
                    return union([(c, f(x)) for c, x in cf.a if bdd.and_(c, I.pc) != FALSE])
                return f(cf)
            cf, _ = tryfold(I, it, Seq(()), step)

            def fin(y):
                if y.v == 1:
                    return y.f[0]
                w = collect_seq(I, y.f[0], t[2][0])
                return OK(w) if p == RES else SOME(w)
            return I.split(cf, fin)
        if p in ("alloc::vec::Vec", "bitvec::vec::BitVec", "alloc::collections::vec_deque::VecDeque",
                 "alloc::vec_deque::VecDeque"):
            return fold(I, it, Seq(()), lambda acc, v: Seq(acc.i + (v,)))
        if p == "alloc::boxed::Box":
            return Ptr("Box", I.cell(fold(I, it, Seq(()), lambda acc, v: Seq(acc.i + (v,)))))
        if p == "alloc::sync::Arc":
            return Ptr("Arc", I.cell(fold(I, it, Seq(()), lambda acc, v: Seq(acc.i + (v,)))))
        if p == "alloc::string::String":
            return "<string>"
        r = I.prog.find_impl(FROMIT, (t,)) if p in I.prog.adts else None
        if r:
            return I.call_fn(I.prog.fns[r[0].fns["from_iter"]], r[1], [it])
    if t == ("tuple", ()):
        each(I, it, lambda v: None)
        return UNIT
    r = I.env.collect(I, it, t) if hasattr(I.env, "collect") else None
    if r is not None:
        return r
    raise Unsupported("collect into %s" % tstr(t))


def collect_seq(I, q, t):
    if isinstance(t, tuple) and t[0] == "adt" and t[1] in ("alloc::vec::Vec", "bitvec::vec::BitVec"):
        return q
    return collect(I, VALS(q.i), t)


@trm(ITER, "collect")
def _collect(I, f, a):
    return collect(I, a[0], f.a[1])


@trm(FROMIT, "from_iter")
def _fromiter(I, f, a):
    return collect(I, to_it(I, a[0]), f.a[0])


@trm(ITER, "sum", "product")
def _sum(I, f, a):
    op = "Add" if f.n == "sum" else "Mul"
    items = drain(I, a[0])
    t = I.prog.norm(f.a[1])
    if isinstance(t, tuple) and t[0] == "adt" and t[1] in (RES, OPT):
        raise Unsupported("fallible sum")
    items = [I.strip(x) for x in items]
    if isinstance(t, str) and t in WIDTH:
        acc = 0 if f.n == "sum" else 1
    elif items and isinstance(items[0], GE):
        acc = GE(items[0].g, {})
    elif items and isinstance(items[0], Poly):
        acc = ZERO if f.n == "sum" else ONE
    else:
        acc = I.env.zero_of(t, f.n) if hasattr(I.env, "zero_of") else None
        if acc is None:
            nm = M.gname(t)
            acc = GE(nm, {}) if nm in ("G1", "G2", "Gt") else (ZERO if f.n == "sum" else ONE)
    for x in items:
        acc = M.arith2(I, op, acc, x, t if isinstance(t, str) else "usize")
        if acc is None:
            raise Unsupported("sum")
    return acc


@trm(ITER, "count")
def _count(I, f, a):
    return fold(I, a[0], 0, lambda acc, v: I.binop("Add", acc, 1, "usize"))


@trm(ITER, "last")
def _last(I, f, a):
    return fold(I, a[0], NONE, lambda acc, v: SOME(v))


@trm(ITER, "nth")
def _nth(I, f, a):
    r = a[0]
    o = NONE
    for _ in range(usz(I, a[1]) + 1):
        o = advance(I, r)
        if isinstance(o, Adt) and o.v == 0:
            return NONE
    return o


@trm(ITER, "all", "any")
def _all(I, f, a):
    fn = hold(I, a[1])
    n = TRUE if f.n == "all" else FALSE
    r = a[0]

    def go(acc):
        while True:
            o = advance(I, r)
            if not isinstance(o, Adt):
                return I.split(o, lambda x: tob(acc) if x.v == 0 else one(acc, x.f[0], True))
            if o.v == 0:
                return tob(acc)
            x = one(acc, o.f[0], False)
            if isinstance(x, tuple):
                acc = x[0]
                continue
            return x

    def one(acc, v, deep):
        b = bn(callf(I, fn, v))
        stop = bdd.not_(b) if f.n == "all" else b
        if bdd.and_(I.pc, stop) == FALSE:
            return go(acc) if deep else (acc,)
        if bdd.and_(I.pc, bdd.not_(stop)) == FALSE:
            return f.n == "any"
        return I.cases([(stop, lambda: f.n == "any"), (bdd.not_(stop), lambda: go(acc))])
    return go(n)


@trm(ITER, "find", "position", "find_map")
def _find(I, f, a):
    fn = hold(I, a[1])
    r = a[0]

    def go(k):
        o = advance(I, r)

        def st(x):
            if x.v == 0:
                return NONE
            v = x.f[0]
            if f.n == "find_map":
                return I.split(callf(I, fn, v), lambda y: y if y.v else go(k + 1))
            c = callf(I, fn, I.ref(v)) if f.n == "find" else callf(I, fn, v)
            return I.ite(c, lambda: SOME(v if f.n == "find" else k), lambda: go(k + 1))
        return I.split(o, st)
    return go(0)


@trm(ITER, "max", "min")
def _maxmin(I, f, a):
    items = drain(I, a[0])
    if not items:
        return NONE
    acc = items[0]
    g = type("F", (), {"n": f.n})
    for x in items[1:]:
        p, q = I.strip(acc), I.strip(x)
        if isinstance(p, int) and isinstance(q, int):
            acc = (x if q >= p else acc) if f.n == "max" else (x if q < p else acc)
        else:
            acc = M._mm(I, g, [p, q])
    return SOME(acc)


@trm(ITER, "unzip")
def _unzip(I, f, a):
    items = drain(I, a[0])
    return TUP(Seq([x.i[0] for x in items]), Seq([x.i[1] for x in items]))


@trm(ITER, "partition")
def _part(I, f, a):
    fn = hold(I, a[1])
    l, r = [], []
    for x in drain(I, a[0]):
        c = callf(I, fn, I.ref(x))
        if not isinstance(c, bool):
            raise Unsupported("partition on an undecided predicate")
        (l if c else r).append(x)
    return TUP(Seq(l), Seq(r))


@trm(ITER, "eq", "ne")
def _iteq(I, f, a):
    x, y = drain(I, a[0]), drain(I, to_it(I, a[1]))
    r = veq(I, Seq(x), Seq(y))
    return r if f.n == "eq" else tob(bdd.not_(bn(r)))


@trm(ITER, "size_hint")
def _sh(I, f, a):
    n = length(I, a[0])
    return TUP(n, SOME(n))


@trm(ESI, "len")
def _esl(I, f, a):
    return length(I, a[0])


@fnm("slice::iter::Iter::as_slice", "core::slice::iter::Iter::as_slice")
def _ias(I, f, a):
    it = I.strip(a[0])
    r, s, e = it.f
    return Ref(r.c, I.sl(r.p, s, e))


@trm(EXT, "extend")
def _extend(I, f, a):
    r = a[0]
    v = I.strip(r)
    if not isinstance(v, (Seq, U)):
        return None
    it = to_it(I, a[1])
    isref = False

    def put(x):
        c, p, n = sref(I, r)
        if isinstance(x, Ref) and not isref and _copy_elems(f):
            x = I.rget(x)
        I.store(c, p, Seq(I.load(c, p).i + (x,)))
    each(I, it, put)
    return UNIT


def _copy_elems(f):
    # Extend<&'a T> for Vec<T>
    return len(f.a) > 1 and isinstance(f.a[1], tuple) and f.a[1][0] == "ref"


# ----------------------------------------------------------------- rayon
PAR = "rayon::iter::ParallelIterator"
IPAR = "rayon::iter::IndexedParallelIterator"


@trm("rayon::iter::IntoParallelIterator", "into_par_iter")
def _ipi(I, f, a):
    return to_it(I, a[0])


@trm("rayon::iter::IntoParallelRefIterator", "par_iter")
def _pi(I, f, a):
    return to_it(I, a[0])


@trm("rayon::iter::IntoParallelRefMutIterator", "par_iter_mut")
def _pim(I, f, a):
    return to_it(I, a[0])


for _n in ("map", "filter", "filter_map", "inspect", "cloned", "copied", "flat_map", "for_each", "collect", "sum",
           "product", "count", "chain", "flatten", "unzip"):
    TRAIT[(PAR, _n)] = TRAIT[(ITER, _n)]
TRAIT[(PAR, "flat_map_iter")] = TRAIT[(ITER, "flat_map")]
for _n in ("enumerate", "zip", "rev", "skip", "take", "step_by"):
    TRAIT[(IPAR, _n)] = TRAIT[(ITER, _n)]


@trm(PAR, "try_for_each")
def _ptfe(I, f, a):
    return _tfe(I, f, a)


@trm(PAR, "all", "any")
def _pall(I, f, a):
    return _all(I, f, [I.ref(a[0]), a[1]])


@trm(PAR, "reduce")
def _preduce(I, f, a):
    fn = hold(I, a[2])
    return fold(I, a[0], callf(I, a[1]), lambda acc, v: callf(I, fn, acc, v))


@trm(IPAR, "chunks")
def _pch(I, f, a):
    raise Unsupported("parallel chunks")


@fnm("rayon::slice::ParallelSlice::par_chunks")
def _pc(I, f, a):
    return _chunks(I, f, a)


@trm("rayon::slice::ParallelSlice", "par_chunks")
def _pc1(I, f, a):
    return _chunks(I, f, a)


@trm("rayon::slice::ParallelSliceMut", "par_chunks_mut")
def _pc2(I, f, a):
    return _chunks(I, f, a)


@fnm("rayon_core::join::join", "rayon_core::join")
def _join(I, f, a):
    return TUP(callf(I, a[0]), callf(I, a[1]))
