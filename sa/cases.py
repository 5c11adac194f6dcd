"""Case analysis over constants: when a gadget (or an operator) treats particular constants specially, every case of
'these constants are zero' is examined on its own, with the constants eliminated from what it emitted."""
import re
from terms import *
from interp import U, Adt, Seq, Clo, It, Event, Unsupported, flat

LIMIT = 96


def atom_poly(v):
    """polynomial whose being zero the BDD variable v stands for, or None"""
    k = bdd.names[v]
    if isinstance(k, tuple) and len(k) == 2 and k[0] == "pz":
        return Poly(dict(k[1]))
    return None


def solutions(q):
    """substitutions covering {q == 0}: list of {var: Poly}; None when q cannot be solved"""
    q = norm(q)
    if q.is_zero():
        return [{}]
    if q.cval() is not None:
        return []
    if len(q.t) == 1:
        (m, c), = q.t.items()
        return [{v: ZERO} for v, e in m if e > 0]
    for m, c in sorted(q.t.items(), key=lambda x: (len(x[0]), x[0])):
        if len(m) == 1 and m[0][1] == 1 and not ring.idem[m[0][0]]:
            v = m[0][0]
            rest = Poly({k: x for k, x in q.t.items() if k != m})
            if v not in rest.vars():
                return [{v: rest.scale(-Fraction(1) / c)}]
    return None


def const_atom(v):
    """does the condition concern public constants (tables) only?"""
    q = atom_poly(v)
    return q is not None and all(CONST.match(str(ring.keys[x])) for x in q.vars())


CONST = re.compile(r"[xyk]\d*$")


class Case:
    """values of BDD variables and a substitution of polynomial variables"""
    def __init__(self, asg=None, sub=None):
        self.asg, self.sub = dict(asg or {}), dict(sub or {})

    def extend(self, sub):
        n = {v: q.subst(sub) for v, q in self.sub.items()}
        n.update(sub)
        return Case(self.asg, n)

    def cond(self):
        c = TRUE
        for v, b in self.asg.items():
            n = bdd.mk(v, FALSE, TRUE)
            c = bdd.and_(c, n if b else bdd.not_(n))
        return c

    def node(self, n):
        for v, b in self.asg.items():
            n = bdd.cofactor(n, v, b)
        return n

    def poly(self, q):
        if not self.asg and not self.sub:
            return q
        mp = dict(self.sub)
        for v, b in self.asg.items():
            mp[ring.var(("ind", v))] = ONE if b else ZERO
        return norm(q.subst(mp))

    def tree(self, x):
        """polynomials and BDD nodes (as ints) of a specification tree"""
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, (list, tuple)):
            return [self.tree(y) for y in x]
        return x

    def lc(self, l):
        return tuple((v, self.poly(c)) for v, c in l)

    def event(self, e):
        if e.k == "enforce":
            return Event("enforce", tuple(self.lc(l) for l in e.a), TRUE, e.site)
        return Event(e.k, e.a, TRUE, e.site)

    def value(self, v):
        """value with the alternatives excluded by the case removed"""
        if isinstance(v, U):
            alts = [(d, w) for c, w in v.a for d in (self.node(c),) if d != FALSE]
            if len(alts) == 1:
                return self.value(alts[0][1])
            return U([(c, self.value(w)) for c, w in alts])
        if isinstance(v, Poly):
            return self.poly(v)
        if isinstance(v, B):
            return tob(self.node(v.n))
        if isinstance(v, Seq):
            return Seq([self.value(x) for x in v.i])
        if isinstance(v, Adt):
            return Adt(v.p, v.v, tuple(self.value(x) for x in v.f))
        if isinstance(v, Clo):
            return Clo(v.key, v.env, tuple(self.value(x) for x in v.f))
        return v

    def __repr__(self):
        s = ["%s = %s" % (ring.keys[v], q) for v, q in self.sub.items()]
        return " where " + ", ".join(s[:4]) if s else ""


def enumerate_cases(nodes, polys=(), limit=LIMIT):
    """cases in which every given node is constant and no given polynomial mentions a condition"""
    out = []
    zero_of = {}

    def pending(case):
        for n in nodes:
            n = case.node(n)
            if n > 1:
                return min(bdd.support(n))
        for q in polys:
            for x in case.poly(q).vars():
                k = ring.keys[x]
                if isinstance(k, tuple) and k[0] == "ind" and atom_poly(k[1]) is not None:
                    return k[1]
        return None

    def go(case):
        v = pending(case)
        if v is None:
            out.append(case)
            if len(out) > limit:
                raise Unsupported("too many cases of constants")
            return
        q = atom_poly(v)
        if q is None:
            raise Unsupported("depends on the witness: %s" % short(bdd.names[v]))
        q = case.poly(q)
        cv = q.cval() if q.t else 0
        if cv is not None:
            c = Case(case.asg, case.sub)
            c.asg[v] = cv == 0
            go(c)
            return
        c = Case(case.asg, case.sub)
        c.asg[v] = False
        go(c)
        sols = solutions(q)
        if sols is None:
            raise Unsupported("cannot solve %s = 0" % (q,))
        for s in sols:
            c = case.extend(s)
            c.asg[v] = True
            # conditions decided 'not zero' before must remain possible
            if all(b or not c.poly(atom_poly(w)).is_zero() for w, b in c.asg.items()):
                go(c)
    go(Case())
    return out


def conditional(events):
    """do the events depend on conditions?"""
    for e in events:
        if e.g != TRUE:
            return True
        if e.k == "enforce":
            for l in e.a:
                for v, c in l:
                    for x in c.vars():
                        k = ring.keys[x]
                        if isinstance(k, tuple) and k[0] == "ind" and atom_poly(k[1]) is not None:
                            return True
    return False


def has_union(v, depth=0):
    if isinstance(v, U):
        return True
    if depth > 6:
        return False
    if isinstance(v, Seq):
        return any(has_union(x, depth + 1) for x in v.i)
    if isinstance(v, (Adt, Clo)):
        return any(has_union(x, depth + 1) for x in v.f)
    return False


def guards_of(v, acc):
    if isinstance(v, U):
        for c, w in v.a:
            acc.append(c)
            guards_of(w, acc)
    elif isinstance(v, Seq):
        for x in v.i:
            guards_of(x, acc)
    elif isinstance(v, (Adt, Clo)):
        for x in v.f:
            guards_of(x, acc)


def of_run(R, r):
    """-> [(Case, log, result)] for a run of a gadget"""
    log = R.I.log
    if not conditional(log) and not has_union(r):
        return [(Case(), log, r)]
    nodes = [e.g for e in log if e.g != TRUE]
    guards_of(r, nodes)
    polys = [c for e in log if e.k == "enforce" for l in e.a for _, c in l]
    out = []
    for c in enumerate_cases(nodes, polys):
        out.append((c, [c.event(e) for e in log if c.node(e.g) == TRUE], c.value(r)))
    return out


def always_zero(q):
    """is the polynomial zero in every case of its conditions?  -> None or the case it is not"""
    for c in enumerate_cases([], [q]):
        if not c.poly(q).is_zero():
            return c
    return None
