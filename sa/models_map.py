"""Models of ordered and hashed maps with concrete keys."""
from models import *
from models_iter import *

MAP = "map"


def ckey(I, v):
    """a concrete, orderable key"""
    v = I.strip(v)
    if isinstance(v, bool) or isinstance(v, int):
        return int(v)
    if isinstance(v, Seq):
        return tuple(ckey(I, x) for x in v.i)
    if isinstance(v, Adt):
        return (v.v,) + tuple(ckey(I, x) for x in v.f)
    if isinstance(v, str):
        return v
    raise Unsupported("map key %r" % (v,))


def mp(I, r):
    """-> (ref, entries)"""
    while isinstance(r, (Ref, Ptr)):
        q = r if isinstance(r, Ref) else Ref(r.c)
        r = I.rget(r)
    if not isinstance(r, Adt) or r.p not in ("BTreeMap", "HashMap"):
        raise Unsupported("map %r" % (r,))
    return q, r.f[0].i


def find(I, es, k):
    k = ckey(I, k)
    for i, e in enumerate(es):
        if ckey(I, e.i[0]) == k:
            return i
    return None


def put(I, q, es, k, v):
    kind = I.rget(q).p
    es = sorted(es + (Seq((k, v)),), key=lambda e: ckey(I, e.i[0])) if kind == "BTreeMap" else list(es) + [Seq((k, v))]
    I.rset(q, Adt(kind, 0, (Seq(tuple(es)),)))
    return find(I, es, k)


def vref(q, i):
    return Ref(q.c, q.p + (0, ("i", i), ("i", 1)))


B_ = ("alloc::collections::btree::map::BTreeMap::", "std::collections::hash::map::HashMap::")
E_ = ("alloc::collections::btree::map::entry::Entry::", "std::collections::hash::map::Entry::")


def both(*names, pre=B_):
    def d(f):
        for n in names:
            for b in pre:
                FUNCS[b + n] = f
        return f
    return d


@both("new", "with_capacity")
def _mnew(I, f, a):
    return Adt("BTreeMap" if "BTree" in f.p else "HashMap", 0, (Seq(()),))


@both("len")
def _mlen(I, f, a):
    return len(mp(I, a[0])[1])


@both("is_empty")
def _mem(I, f, a):
    return not mp(I, a[0])[1]


@both("entry")
def _entry(I, f, a):
    return Adt("entry", 0, (mp(I, a[0])[0], a[1]))


def _oi(val):
    def g(I, f, a):
        e = I.strip(a[0])
        q, es = mp(I, e.f[0])
        i = find(I, es, e.f[1])
        if i is None:
            i = put(I, q, es, e.f[1], val(I, f, a))
        return vref(q, i)
    return g


both("or_insert", pre=E_)(_oi(lambda I, f, a: a[1]))
both("or_insert_with", pre=E_)(_oi(lambda I, f, a: I.call_value(a[1], [])))


@both("and_modify", pre=E_)
def _am(I, f, a):
    q, es = mp(I, a[0].f[0])
    i = find(I, es, a[0].f[1])
    if i is not None:
        I.call_value(a[1], [vref(q, i)])
    return a[0]


@both("get", "get_mut")
def _mget(I, f, a):
    q, es = mp(I, a[0])
    i = find(I, es, a[1])
    return NONE if i is None else SOME(vref(q, i))


@both("contains_key")
def _mck(I, f, a):
    q, es = mp(I, a[0])
    return find(I, es, a[1]) is not None


@both("insert")
def _mins(I, f, a):
    q, es = mp(I, a[0])
    i = find(I, es, a[1])
    if i is None:
        put(I, q, es, a[1], a[2])
        return NONE
    old = es[i].i[1]
    I.rset(vref(q, i), a[2])
    return SOME(old)


@both("iter", "iter_mut")
def _miter(I, f, a):
    return map_iter(I, a[0])


@both("values", "values_mut", "into_values", "keys", "into_keys")
def _mvals(I, f, a):
    j = 0 if "keys" in f.p.split("::")[-1] else 1
    if "into" in f.p.split("::")[-1]:
        return VALS([e.i[j] for e in entries(I, I.strip(a[0]))])
    q, es = mp(I, a[0])
    entries(I, I.rget(q))
    return VALS([Ref(q.c, q.p + (0, ("i", i), ("i", j))) for i in range(len(es))])


def entries(I, m):
    if m.p != "BTreeMap" and len(m.f[0].i) > 1:
        raise Unsupported("iteration over a hash map")
    return m.f[0].i


def map_iter(I, v):
    """into_iter of a map or a reference to one"""
    if isinstance(v, Adt):
        return VALS(entries(I, v))
    q, es = mp(I, v)
    entries(I, I.rget(q))
    return VALS([Seq((Ref(q.c, q.p + (0, ("i", i), ("i", 0))), vref(q, i))) for i in range(len(es))])
