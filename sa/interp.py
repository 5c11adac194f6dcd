"""Abstract interpreter for MIR.

Control-flow joins are merged (gated values / BDD path conditions), calls to functions of the analysed
crates are inlined, loops are unrolled while their exit condition is decided in the abstract state.
Effects on abstract objects (constraint systems, readers, ...) are delegated to an Env and logged."""
import sys
from mir import *
from terms import *

sys.setrecursionlimit(200000)


class Diverge(Exception):
    pass


class Unsupported(Exception):
    pass


class Adt:
    __slots__ = ("p", "v", "f")

    def __init__(self, p, v, f):
        self.p = p
        self.v = v
        self.f = f

    def __eq__(self, o):
        return self is o or (isinstance(o, Adt) and self.p == o.p and self.v == o.v and self.f == o.f)

    def __hash__(self):
        return hash((self.p, self.v, self.f))

    def __repr__(self):
        return "%s#%s%r" % (self.p.split("::")[-1], self.v, self.f)


class Seq:
    """array / vector / slice contents"""
    __slots__ = ("i",)

    def __init__(self, items):
        self.i = tuple(items)

    def __eq__(self, o):
        return self is o or (isinstance(o, Seq) and self.i == o.i)

    def __hash__(self):
        return hash(self.i)

    def __repr__(self):
        return "Seq%r" % (self.i,)


class Ref:
    __slots__ = ("c", "p")

    def __init__(self, c, p=()):
        self.c = c
        self.p = p

    def __eq__(self, o):
        return self is o or (isinstance(o, Ref) and self.c == o.c and self.p == o.p)

    def __hash__(self):
        return hash((self.c, self.p))

    def __repr__(self):
        return "&%s%s" % (self.c, self.p or "")


class Ptr:
    """owning pointer: Box / Arc"""
    __slots__ = ("k", "c")

    def __init__(self, k, c):
        self.k = k
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.c == self.c

    def __hash__(self):
        return hash(("Ptr", self.c))

    def __repr__(self):
        return "%s@%s" % (self.k, self.c)


class Clo:
    __slots__ = ("key", "env", "f")

    def __init__(self, key, env, f):
        self.key = key
        self.env = env
        self.f = f

    def __eq__(self, o):
        return self is o or (isinstance(o, Clo) and (o.key, o.env, o.f) == (self.key, self.env, self.f))

    def __hash__(self):
        return hash((self.key, self.f))

    def __repr__(self):
        return "closure %s" % self.key


class It:
    """iterator state"""
    __slots__ = ("k", "f")

    def __init__(self, k, *f):
        self.k = k
        self.f = f

    def __eq__(self, o):
        return self is o or (isinstance(o, It) and o.k == self.k and o.f == self.f)

    def __hash__(self):
        return hash((self.k, self.f))

    def __repr__(self):
        return "It:%s%r" % (self.k, self.f)


class U:
    """gated union: [(bdd node, value)] with disjoint conditions"""
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = tuple(a)

    def __eq__(self, o):
        return self is o or (isinstance(o, U) and self.a == o.a)

    def __hash__(self):
        return hash(self.a)

    def __repr__(self):
        return "U{%s}" % ", ".join("%s: %r" % (bdd.show(c), v) for c, v in self.a)


UNINIT = Opq("uninit")
UNIT = Seq(())
OPT = "core::option::Option"
RES = "core::result::Result"
NONE = Adt(OPT, 0, ())
CF = "core::ops::control_flow::ControlFlow"


def SOME(v):
    return Adt(OPT, 1, (v,))


def OK(v):
    return Adt(RES, 0, (v,))


def ERR(v):
    return Adt(RES, 1, (v,))


def TUP(*v):
    return Seq(v)


def flat(c, v):
    if isinstance(v, U):
        for d, w in v.a:
            x = bdd.and_(c, d)
            if x != FALSE:
                yield x, w
    else:
        yield c, v


def union(alts):
    """alts: [(cond, value)] disjoint -> merged value"""
    groups = []
    for c, v in alts:
        for d, w in flat(c, v):
            for g in groups:
                m = _unify(d, w, g[0], g[1])
                if m is not None:
                    g[1] = m[0]
                    g[0] = bdd.or_(g[0], d)
                    break
            else:
                groups.append([d, w])
    if not groups:
        return UNINIT
    live = [g for g in groups if g[1] is not UNINIT and g[1] != UNINIT]
    if len(live) == 1:
        return live[0][1]
    if not live:
        return UNINIT
    return U([(c, v) for c, v in live])


def _unify(c, a, d, b):
    """merge value a (under c) with b (under d) if they have the same shape; None if not"""
    if a is b:
        return (a,)
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return (tob(bdd.ite(c, bn(a), bn(b))),)
    if isinstance(a, (int, W)) and isinstance(b, (int, W)) and not isinstance(a, bool) and not isinstance(b, bool):
        if a == b:
            return (a,)
        if (isinstance(a, int) and a < 0) or (isinstance(b, int) and b < 0):
            return None
        return (wite(c, a, b),)
    if type(a) is not type(b):
        return None
    if isinstance(a, Poly):
        return (pite(c, a, b),)
    if isinstance(a, GE):
        if a.g != b.g:
            return None
        if a == b:
            return (a,)
        if SPLIT_GE:
            return None
        r = {}
        for k in set(a.t) | set(b.t):
            x = pite(c, a.t.get(k, ZERO), b.t.get(k, ZERO))
            if not x.is_zero():
                r[k] = x
        return (GE(a.g, r),)
    if isinstance(a, Adt):
        if a.p != b.p or a.v != b.v or len(a.f) != len(b.f):
            return None
        return (Adt(a.p, a.v, tuple(merge(c, x, y) for x, y in zip(a.f, b.f))),)
    if isinstance(a, Seq):
        if len(a.i) != len(b.i):
            return None
        return (Seq([merge(c, x, y) for x, y in zip(a.i, b.i)]),)
    if isinstance(a, Clo):
        if a.key != b.key or len(a.f) != len(b.f):
            return None
        return (Clo(a.key, a.env, tuple(merge(c, x, y) for x, y in zip(a.f, b.f))),)
    if isinstance(a, It):
        if a.k != b.k or len(a.f) != len(b.f):
            return None
        if a == b:
            return (a,)
        if a.k in MERGE_IT:
            return (It(a.k, *[merge(c, x, y) for x, y in zip(a.f, b.f)]),)
        return None
    if a == b:
        return (a,)
    return None


SPLIT_GE = False        # keep different group elements as alternatives instead of merging their coefficients
MERGE_IT = {"zip", "map", "enum"}


def merge(c, a, b):
    """value: if c then a else b"""
    if a is b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a is UNINIT:
        return b
    if b is UNINIT:
        return a
    if not isinstance(a, U) and not isinstance(b, U):
        m = _unify(c, a, None, b)
        if m is not None:
            return m[0]
    return union(list(flat(c, a)) + list(flat(bdd.not_(c), b)))


class Frame:
    __slots__ = ("body", "env", "base", "fn")

    def __init__(self, body, env, base, fn):
        self.body = body
        self.env = env
        self.base = base
        self.fn = fn


class Event:
    """logged effect"""
    __slots__ = ("k", "a", "g", "site")

    def __init__(self, k, a, g=TRUE, site=None):
        self.k = k
        self.a = a
        self.g = g
        self.site = site

    def __eq__(self, o):
        return isinstance(o, Event) and (self.k, self.a, self.g) == (o.k, o.a, o.g)

    def __repr__(self):
        return "%s%r%s" % (self.k, self.a, "" if self.g == TRUE else " if " + bdd.show(self.g))


class Interp:
    def __init__(self, prog, env, fuel=6000000):
        self.prog = prog
        self.env = env
        env.I = self
        self.mem = {}
        self.pc = TRUE
        self.log = []
        self.panics = []
        self.next = 1
        self.fuel = fuel
        self.steps = 0
        self.frames = []
        self.fns_seen = set()
        self.calls = 0
        self.glob = {}
        self.static_cells = {}
        self.submemo = {}
        self.envs = {}
        import models
        self.models = models
        self.maxdepth = 0

    # ------------------------------------------------------------ memory
    def cell(self, v):
        c = self.next
        self.next += 1
        self.mem[c] = v
        return c

    def ref(self, v):
        return Ref(self.cell(v))

    def site(self):
        for f in reversed(self.frames):
            return f.fn
        return None

    def where(self):
        out = []
        for f in self.frames[-6:]:
            out.append(f.fn.path)
        return " > ".join(out)

    def load(self, c, path):
        v = self.mem.get(c)
        if v is None:
            v = self.glob.get(c)
            if v is None:
                raise Unsupported("dangling cell")
        for s in path:
            v = self.proj(v, s)
        return v

    def proj(self, v, s):
        tv = type(v)
        if tv is U:
            alts = []
            for c, w in v.a:
                if bdd.and_(self.pc, c) == FALSE:
                    continue
                if type(s) is tuple and s[0] == "v" and isinstance(w, Adt) and w.v != s[1]:
                    continue
                alts.append((c, self.proj(w, s)))
            return union(alts) if alts else UNINIT
        if type(s) is int:
            if tv is Adt or tv is Clo:
                return v.f[s]
            if tv is Seq:
                return v.i[s]
            if tv is Ptr:
                return v
            if v is UNINIT or v == UNINIT:
                return UNINIT
            r = self.env.field(v, s)
            if r is not None:
                return r
            raise Unsupported("field %s of %r" % (s, v))
        k = s[0]
        if k == "v":
            if tv is Adt and v.v != s[1]:
                return UNINIT
            return v
        if k == "i":
            return v.i[s[1]]
        if k == "sl":
            return Seq(v.i[s[1]:s[2]])
        if k == "by":      # byte view etc. provided by env
            return self.env.view(v, s)
        raise Unsupported("proj %r" % (s,))

    def store(self, c, path, val):
        if not path:
            self.mem[c] = val
            return
        old = self.mem.get(c)
        if old is None:
            raise Unsupported("store to dangling cell")
        self.mem[c] = self.upd(old, path, 0, val)

    def upd(self, v, path, k, val):
        if k == len(path):
            return val
        s = path[k]
        if isinstance(v, U):
            alts = []
            for c, w in v.a:
                if type(s) is tuple and s[0] == "v" and isinstance(w, Adt) and w.v != s[1]:
                    alts.append((c, w))
                else:
                    alts.append((c, self.upd(w, path, k, val)))
            return union(alts)
        if type(s) is int:
            if isinstance(v, Adt):
                return Adt(v.p, v.v, v.f[:s] + (self.upd(v.f[s], path, k + 1, val),) + v.f[s + 1:])
            if isinstance(v, Clo):
                return Clo(v.key, v.env, v.f[:s] + (self.upd(v.f[s], path, k + 1, val),) + v.f[s + 1:])
            if isinstance(v, Seq):
                return Seq(v.i[:s] + (self.upd(v.i[s], path, k + 1, val),) + v.i[s + 1:])
            if v is UNINIT:
                return UNINIT
            raise Unsupported("store field of %r" % (v,))
        if s[0] == "v":
            return self.upd(v, path, k + 1, val)
        if s[0] == "i":
            j = s[1]
            return Seq(v.i[:j] + (self.upd(v.i[j], path, k + 1, val),) + v.i[j + 1:])
        if s[0] == "sl":
            sub = self.upd(Seq(v.i[s[1]:s[2]]), path, k + 1, val)
            return Seq(v.i[:s[1]] + sub.i + v.i[s[2]:])
        raise Unsupported("upd %r" % (s,))

    # ------------------------------------------------------------ places
    def place1(self, fr, pl):
        """-> list of (cond, cell, path)"""
        c = fr.base + pl[0]
        path = ()
        res = [(TRUE, c, path)]
        if len(pl) == 1:
            return res
        for s in pl[1:]:
            if s == "*":
                new = []
                for g, c, path in res:
                    v = self.load(c, path)
                    for d, w in flat(g, v):
                        if bdd.and_(self.pc, d) == FALSE:
                            continue
                        new.append((d,) + self.deref(w))
                res = new
            elif type(s) is int:
                res = [(g, c, p + (s,)) for g, c, p in res]
            else:
                k = s[0]
                if k == "v":
                    res = [(g, c, p + (("v", s[1]),)) for g, c, p in res]
                elif k == "i":
                    iv = self.mem[fr.base + s[1]]
                    new = []
                    for g, c, p in res:
                        for d, i in self.ivals(iv):
                            h = bdd.and_(g, d)
                            if h == FALSE or bdd.and_(self.pc, h) == FALSE:
                                continue
                            new.append((h, c, self.idx(p, i)))
                    res = new
                elif k == "ci":
                    new = []
                    for g, c, p in res:
                        i = s[1]
                        if s[3]:
                            i = len(self.seq(self.load(c, p)).i) - s[1]
                        new.append((g, c, self.idx(p, i)))
                    res = new
                elif k == "sub":
                    new = []
                    for g, c, p in res:
                        n = len(self.seq(self.load(c, p)).i)
                        new.append((g, c, self.sl(p, s[1], n - s[2] if s[3] else s[2])))
                    res = new
                else:
                    raise Unsupported("place elem %r" % (s,))
        return res

    @staticmethod
    def idx(p, i):
        if p and type(p[-1]) is tuple and p[-1][0] == "sl":
            return p[:-1] + (("i", p[-1][1] + i),)
        return p + (("i", i),)

    @staticmethod
    def sl(p, a, b):
        if p and type(p[-1]) is tuple and p[-1][0] == "sl":
            return p[:-1] + (("sl", p[-1][1] + a, p[-1][1] + b),)
        return p + (("sl", a, b),)

    def ivals(self, v, limit=4096):
        """feasible concrete values of an integer: [(cond, int)]"""
        if isinstance(v, int):
            return [(TRUE, v)]
        if isinstance(v, U):
            r = []
            for c, w in v.a:
                for d, x in self.ivals(w):
                    r.append((bdd.and_(c, d), x))
            return r
        if isinstance(v, W):
            bits = wbits(v)
            out = [(self.pc, 0)]
            for i, b in enumerate(bits):
                new = []
                for c, x in out:
                    h = bdd.and_(c, b)
                    l = bdd.and_(c, bdd.not_(b))
                    if l != FALSE:
                        new.append((l, x))
                    if h != FALSE:
                        new.append((h, x | (1 << i)))
                out = new
                if len(out) > limit:
                    raise Unsupported("symbolic index with too many values")
            return out
        raise Unsupported("not an index: %r" % (v,))

    def deref(self, w):
        if type(w) is Ref:
            return (w.c, w.p)
        if type(w) is Ptr:
            return (w.c, ())
        if type(w) is str:
            return (self.gref(w).c, ())
        r = self.env.deref(w)
        if r is not None:
            return r
        raise Unsupported("deref of %r" % (w,))

    def rd(self, fr, pl):
        if len(pl) == 1:
            return self.mem[fr.base + pl[0]]
        alts = self.place1(fr, pl)
        if len(alts) == 1:
            return self.load(alts[0][1], alts[0][2])
        return union([(g, self.load(c, p)) for g, c, p in alts])

    def wr(self, fr, pl, v):
        if len(pl) == 1:
            self.mem[fr.base + pl[0]] = v
            return
        alts = self.place1(fr, pl)
        if len(alts) == 1:
            self.store(alts[0][1], alts[0][2], v)
            return
        for g, c, p in alts:
            self.store(c, p, merge(g, v, self.load(c, p)))

    def rget(self, r):
        """read through a reference value"""
        if isinstance(r, U):
            return union([(c, self.rget(x)) for c, x in r.a if bdd.and_(c, self.pc) != FALSE])
        c, p = self.deref(r)
        return self.load(c, p)

    def rset(self, r, v):
        if isinstance(r, U):
            for c, x in r.a:
                if bdd.and_(c, self.pc) != FALSE:
                    cc, p = self.deref(x)
                    self.store(cc, p, merge(c, v, self.load(cc, p)))
            return
        c, p = self.deref(r)
        self.store(c, p, v)

    def seq(self, v):
        if type(v) is Seq:
            return v
        if isinstance(v, (Ref, Ptr)):
            return self.seq(self.rget(v))
        r = self.env.as_seq(v)
        if r is not None:
            return r
        raise Unsupported("not a sequence: %r" % (v,))

    def strip(self, v):
        """dereference fully"""
        while isinstance(v, (Ref, Ptr)):
            v = self.rget(v)
        return v

    def env_of(self, t):
        """intern a generic environment"""
        r = self.envs.get(t)
        if r is None:
            self.envs[t] = r = t
        return r

    def sub(self, t, env):
        """memoised substitution of a type/callee that belongs to a body"""
        if not env or type(t) is str:
            return t
        k = (id(t), id(env))
        r = self.submemo.get(k)
        if r is None:
            r = (subst(t, env), t, env)
            self.submemo[k] = r
        return r[0]

    def subs(self, ts, env):
        if not ts:
            return ts
        k = (id(ts), id(env))
        r = self.submemo.get(k)
        if r is None:
            r = (self.env_of(tuple(subst(x, env) for x in ts)), ts, env)
            self.submemo[k] = r
        return r[0]

    # ------------------------------------------------------------ operands
    def op(self, fr, o):
        k = o[0]
        if k == "c" or k == "m":
            pl = o[1]
            if len(pl) == 1:
                return self.mem[fr.base + pl[0]]
            return self.rd(fr, pl)
        if k == "k":
            return self.const(fr, o[1])
        if o[1].startswith("RuntimeChecks("):
            return True     # overflow checks etc. on
        raise Unsupported("operand %r" % (o,))

    def gref(self, v):
        c = -self.next
        self.next += 1
        self.glob[c] = v
        return Ref(c)

    def jval(self, j):
        if "int" in j:
            return j["int"]
        if "bool" in j:
            return j["bool"]
        return Seq([self.jval(x) for x in j["arr"]])

    def const(self, fr, c):
        k = c.kind
        if k == "int" or k == "bool" or k == "str":
            return c.v
        if k == "fn":
            return self.sub(c.v, fr.env)
        if k == "zst":
            t = c.v
            if isinstance(t, tuple) and t[0] == "closure":
                return Clo(t[1], self.subs(t[2], fr.env), ())
            if isinstance(t, tuple) and t[0] == "adt":
                a = self.prog.adts.get(t[1])
                return Adt(t[1], 0, ())
            return UNIT
        if k == "ref":
            if c.memo is None or c.memo.c not in self.glob:
                c.memo = self.gref(self.jval(c.v))
            return c.memo
        if k == "arr":
            return self.jval(c.v)
        if k == "static":
            v = self.env.static(c.v)
            if v is not None:
                return v
            fn = self.prog.fns.get(c.v)
            if fn is None:
                return Opq("static", c.v)
            if c.v not in self.static_cells:
                self.static_cells[c.v] = self.gref(self.run_body(fn.body, fn, (), [], True))
            return self.static_cells[c.v]
        if k == "const":
            j = c.j
            args = tuple(self.prog.norm(subst(x, fr.env)) for x in c.a)
            if "prom" in j:
                fn = self.prog.fns[c.v]
                key = ("prom", c.v, j["prom"], args)
                if key not in self.static_cells:
                    v = self.run_body(fn.prom[j["prom"]], fn, args or fr.env, [], True)
                    self.static_cells[key] = v
                return self.static_cells[key]
            if "tr" in j:
                t = args[0]
                r = self.prog.find_impl(j["tr"], args)
                if r and j["n"] in r[0].fns:
                    fn = self.prog.fns[r[0].fns[j["n"]]]
                    return self.run_body(fn.body, fn, r[1], [], True)
                v = self.env.assoc_const(j["tr"], j["n"], t)
                if v is not None:
                    return v
                raise Unsupported("assoc const %s::%s" % (j["tr"], j["n"]))
            fn = self.prog.fns.get(c.v)
            if fn is not None:
                return self.run_body(fn.body, fn, args, [], True)
            v = self.models.std_const(j["p"])
            if v is not None:
                return v
            raise Unsupported("const %s" % j["p"])
        if k == "cty":
            t = subst(c.v, fr.env)
            if isinstance(t, tuple) and t[0] == "const":
                return t[1]
        raise Unsupported("constant %s" % (c.j,))

    # ------------------------------------------------------------ running
    def call_fn(self, fn, env, args):
        """inline a local function"""
        self.fns_seen.add(fn.key)
        self.calls += 1
        return self.run_body(fn.body, fn, env, args)

    def run_body(self, body, fn, env, args, keep=False):
        n = len(body.locals)
        base = self.next
        self.next += n
        mem = self.mem
        for i in range(n):
            mem[base + i] = UNINIT
        for i, a in enumerate(args):
            mem[base + 1 + i] = a
        fr = Frame(body, env, base, fn)
        self.frames.append(fr)
        if len(self.frames) > 400:
            raise Unsupported("recursion too deep")
        d = len(self.frames)
        try:
            self.run(fr, 0, None)
            r = self.mem[base]
        finally:
            del self.frames[d - 1:]
        mem = self.mem
        if keep:
            for i in range(n):      # statics and promoted constants outlive the frame
                self.glob[base + i] = mem[base + i]
        for i in range(n):
            mem.pop(base + i, None)
        return UNIT if r is UNINIT and body.locals[0] == ("tuple", ()) else r

    def run(self, fr, b, stop, seg=None):
        """interpret from block b until stop (None: the function returns). seg: stop at these join blocks too, and at branches
        whose arms do not meet again inside their loop; the reached block or the feasible arms are returned"""
        blocks = fr.body.blocks
        prev = None
        while True:
            if b == stop:
                return
            if seg is not None:
                if prev is not None and b in seg:
                    return (prev, b)
                prev = b
            stmts, t, _ = blocks[b]
            self.steps += 1 + len(stmts)
            if self.steps > self.fuel:
                raise Unsupported("fuel exhausted (loop without a decided exit?)")
            for s in stmts:
                if s[0] == "=":
                    v = self.rvalue(fr, s[2])
                    pl = s[1]
                    if len(pl) == 1:
                        self.mem[fr.base + pl[0]] = v
                    else:
                        self.wr(fr, pl, v)
                elif s[0] == "dead":
                    self.mem[fr.base + s[1]] = UNINIT
                elif s[0] == "setd":
                    v = self.rd(fr, s[1])
                    self.wr(fr, s[1], Adt(v.p, s[2], v.f))
                else:
                    raise Unsupported("statement %r" % (s,))
            k = t[0]
            if k == "goto":
                b = t[1]
            elif k == "return":
                if seg is not None:
                    return "ret"
                if stop is not None:
                    raise Unsupported("return before post-dominator")
                return
            elif k == "call":
                f = self.op(fr, t[1])
                args = [self.op(fr, o) for o in t[2]]
                try:
                    r = self.call(f, args, fr)
                except Unsupported as e:
                    if not getattr(e, "loc", None):
                        e.loc = "%s:%s in %s" % (fr.fn.file, t[6], self.where())
                        e.args = ("%s [%s]" % (e.args[0], e.loc),)
                    raise
                if t[4] is None:
                    raise Diverge()
                self.wr(fr, t[3], r)
                b = t[4]
            elif k == "switch":
                v = self.op(fr, t[1])
                if v is True or v is False:
                    v = int(v)
                if type(v) is int:
                    nb = t[3]
                    w = WIDTH.get(t[4], 64) if isinstance(t[4], str) else 64
                    vv = v % (1 << w) if v < 0 else v
                    for x, y in t[2]:
                        if x == vv:
                            nb = y
                            break
                    b = nb
                    continue
                arms = self.arms(v, t)
                feas = [(c, y) for c, y in arms if bdd.and_(self.pc, c) != FALSE]
                if not feas:
                    raise Diverge()
                if len(feas) == 1:
                    b = feas[0][1]
                    continue
                nxt = fr.body.ipdom(b)
                pos, heads, joins, body = fr.body.loops()
                hs = heads[b]
                if hs and (nxt is None or nxt not in body[hs[-1]]):
                    # the arms need not meet inside the loop: advance them in loop order, merging where they do
                    if seg is not None:
                        return [(c, b, y) for c, y in feas]
                    self.schedule(fr, [(c, b, y) for c, y in feas], nxt)
                    if nxt is None:
                        return
                    b = nxt
                    continue
                # ipdom may lie beyond `stop` when an enclosing region ends earlier
                self.branch(fr, feas, nxt if nxt is not None else None, stop)
                if nxt is None:
                    return
                b = nxt
            elif k == "drop":
                self.drop_place(fr, t[1], t[4])
                b = t[2]
            elif k == "assert":
                c = self.op(fr, t[1])
                exp = t[2]
                n = bn(c)
                if not exp:
                    n = bdd.not_(n)
                ok = bdd.and_(self.pc, n)
                bad = bdd.and_(self.pc, bdd.not_(n))
                if bad != FALSE:
                    self.panic(t[3][0], bad, fr, t[6])
                if ok == FALSE:
                    raise Diverge()
                self.pc = ok
                b = t[4]
            elif k == "unreachable":
                raise Diverge()
            else:
                raise Unsupported("terminator %r" % (t,))

    def schedule(self, fr, arms, stop):
        """advance the states of one activation segment by segment, innermost loop iterations first, merging states that reach
        the same block in the same iteration; returns with all of them merged at stop (None: at the return)"""
        pos, heads, joins, body = fr.body.loops()
        pc0, mem0, log0 = self.pc, self.mem, self.log
        nfr = len(self.frames)
        todo = {}       # key -> (pc, mem, log, iters, block)
        END = ()

        def put(pc, mem, log, it, u, v):
            if v is None or v == stop:
                k, it = END, None
            else:
                old = it
                it = {}
                for h in heads[v]:
                    it[h] = old.get(h, 0)
                    if h == v:
                        if u in body[h]:
                            it[h] += 1
                        else:
                            it[h] = 0
                k = tuple(x for h in heads[v] for x in (pos[h], it[h])) + (pos[v],)
            o = todo.get(k)
            if o is not None:
                p, m, lg, _, _ = o
                if len(lg) == len(log) and all(x == y for x, y in zip(lg, log)):
                    pass
                else:
                    n = 0
                    while n < len(lg) and n < len(log) and lg[n] == log[n]:
                        n += 1
                    log = lg[:n] + [Event(e.k, e.a, bdd.and_(p, e.g), e.site) for e in lg[n:]] + [
                        Event(e.k, e.a, bdd.and_(pc, e.g), e.site) for e in log[n:]]
                mem = dict(mem)
                p, pc = bdd.choose(p, pc), bdd.or_(p, pc)
                for k2, x in m.items():
                    y = mem.get(k2)
                    if y is None:
                        mem[k2] = x
                    elif y is not x:
                        mem[k2] = merge(p, x, y)
            todo[k] = (pc, mem, log, it, v)

        def spread(mem, log, it, arms):
            n = 0
            for c, u, v in arms:
                g = bdd.and_(self.pc, c)
                if g != FALSE:
                    put(g, dict(mem), list(log), it, u, v)
        dead = []
        b0 = arms[0][1]
        spread(mem0, [], {h: 0 for h in heads[b0]}, arms)
        while True:
            k = min((x for x in todo if x is not END), default=None)
            if k is None:
                break
            pc, self.mem, self.log, it, b = todo.pop(k)
            self.pc = pc
            try:
                r = self.run(fr, b, stop, joins)
            except Diverge:
                del self.frames[nfr:]
                dead.append((pc, self.log))
                continue
            if r is None or r == "ret":
                put(self.pc, self.mem, self.log, None, None, None)
            elif type(r) is tuple:
                put(self.pc, self.mem, self.log, it, r[0], r[1])
            else:
                spread(self.mem, self.log, it, r)
        for g, lg in dead:
            for ev in lg:
                log0.append(Event(ev.k, ev.a, bdd.and_(g, ev.g), ev.site))
        self.log = log0
        if END not in todo:
            self.mem, self.pc = mem0, pc0
            raise Diverge()
        self.pc, self.mem, log, _, _ = todo[END]
        if dead:
            log = [Event(ev.k, ev.a, bdd.and_(self.pc, ev.g), ev.site) for ev in log]
        log0.extend(log)

    def panic(self, what, cond, fr=None, line=None):
        f = fr.fn if fr else (self.frames[-1].fn if self.frames else None)
        stack = tuple(x.fn.path for x in self.frames)
        self.panics.append((what, cond, f.path if f else "?", stack, line))

    def arms(self, v, t):
        arms = []
        if isinstance(v, B):
            f = bdd.not_(v.n)
            rest = TRUE
            for x, y in t[2]:
                c = f if x == 0 else v.n
                arms.append((c, y))
                rest = bdd.and_(rest, bdd.not_(c))
            arms.append((rest, t[3]))
        elif isinstance(v, W):
            rest = TRUE
            for x, y in t[2]:
                c = weq(v, x)
                arms.append((c, y))
                rest = bdd.and_(rest, bdd.not_(c))
            arms.append((rest, t[3]))
        elif isinstance(v, U):
            rest = TRUE
            for x, y in t[2]:
                c = FALSE
                for d, w in v.a:
                    c = bdd.or_(c, bdd.and_(d, weq(w, x)))
                arms.append((c, y))
                rest = bdd.and_(rest, bdd.not_(c))
            arms.append((rest, t[3]))
        else:
            raise Unsupported("switch on %r" % (v,))
        # merge arms with the same target
        out = {}
        for c, y in arms:
            out[y] = bdd.or_(out[y], c) if y in out else c
        return [(c, y) for y, c in out.items()]

    def branch(self, fr, arms, stop, outer):
        self.cases([(c, (lambda y=y: self.run(fr, y, stop))) for c, y in arms])

    def cases(self, alts):
        """run thunks under disjoint conditions and merge state; returns the merged result"""
        pc0, mem0, log0 = self.pc, self.mem, self.log
        nfr = len(self.frames)
        ends = []
        for c, th in alts:
            g = bdd.and_(pc0, c)
            if g == FALSE:
                continue
            self.pc = g
            self.mem = dict(mem0)
            self.log = []
            try:
                r = th()
            except Diverge:
                del self.frames[nfr:]
                if self.log:
                    ends.append((g, None, None, self.log, None))
                continue
            ends.append((g, self.pc, self.mem, self.log, r))
        live = [e for e in ends if e[2] is not None]
        if not live:
            self.mem, self.pc = mem0, pc0
            self.log = log0
            for g, _, _, lg, _ in ends:
                for ev in lg:
                    log0.append(Event(ev.k, ev.a, bdd.and_(g, ev.g), ev.site))
            raise Diverge()
        # merge logs
        if all(len(e[3]) == len(live[0][3]) for e in live) and all(
                all(x == y for x, y in zip(e[3], live[0][3])) for e in live[1:]) and len(live) == len(ends):
            log0.extend(live[0][3])
        else:
            for g, _, _, lg, _ in ends:
                for ev in lg:
                    log0.append(Event(ev.k, ev.a, bdd.and_(g, ev.g), ev.site))
        self.log = log0
        if len(live) == 1:
            g, self.pc, self.mem, _, r = live[0]
            return r
        mem = live[-1][2]
        pc = live[-1][1]
        res = live[-1][4]
        for g, p, m, _, r in reversed(live[:-1]):
            p, pc = bdd.choose(p, pc), bdd.or_(p, pc)
            for k2, v in m.items():
                w = mem.get(k2)
                if w is None:
                    mem[k2] = v
                elif w is not v:
                    mem[k2] = merge(p, v, w)
            if r is not None or res is not None:
                res = merge(p, r, res)
        self.mem, self.pc = mem, pc
        return res

    def ite(self, c, a, b):
        """c: bool value; a,b thunks"""
        n = bn(c)
        x = bdd.and_(self.pc, n)
        if x == FALSE:
            return b()
        if bdd.and_(self.pc, bdd.not_(n)) == FALSE:
            return a()
        return self.cases([(n, a), (bdd.not_(n), b)])

    def split(self, v, fn):
        """apply fn to each feasible alternative of a gated union"""
        if not isinstance(v, U):
            return fn(v)
        alts = [(c, w) for c, w in v.a if bdd.and_(c, self.pc) != FALSE]
        if len(alts) == 1:
            return fn(alts[0][1])
        return self.cases([(c, (lambda w=w: fn(w))) for c, w in alts])

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, r):
        k = r[0]
        if k == "use":
            return self.op(fr, r[1])
        if k == "ref":
            pl = r[2]
            if len(pl) == 1:
                return Ref(fr.base + pl[0])
            # &*x where x is a non-pointer env value (e.g. rigid refs)
            alts = self.place1(fr, pl)
            if len(alts) == 1:
                return Ref(alts[0][1], alts[0][2])
            return U([(g, Ref(c, p)) for g, c, p in alts])
        if k == "agg":
            ops = tuple(self.op(fr, o) for o in r[5])
            kk = r[1]
            if kk == "adt":
                if r[4] is not None:
                    raise Unsupported("union aggregate")
                return Adt(r[2], r[3], ops)
            if kk == "closure":
                return Clo(r[2], self.subs(r[3], fr.env), ops)
            return Seq(ops)
        if k == "bin":
            return self.binop(r[1], self.op(fr, r[2]), self.op(fr, r[3]), self.sub(r[4], fr.env))
        if k == "un":
            return self.unop(r[1], self.op(fr, r[2]), r[3])
        if k == "discr":
            return self.discr(self.rd(fr, r[1]))
        if k == "cast":
            return self.cast(r[1], self.op(fr, r[2]), self.sub(r[3], fr.env), self.sub(r[4], fr.env))
        if k == "repeat":
            v = self.op(fr, r[1])
            n = subst(r[2], fr.env)
            if isinstance(n, tuple) and n[0] == "const":
                return Seq((v,) * n[1])
            raise Unsupported("repeat length %r" % (n,))
        raise Unsupported("rvalue %r" % (r,))

    def discr(self, v):
        if isinstance(v, Adt):
            return self.discr_of(v)
        if isinstance(v, U):
            return union([(c, self.discr(w)) for c, w in v.a if bdd.and_(c, self.pc) != FALSE])
        r = self.env.discr(v)
        if r is not None:
            return r
        raise Unsupported("discriminant of %r" % (v,))

    def discr_of(self, v):
        a = self.prog.adts.get(v.p)
        if a:
            d = a["variants"][v.v]["discr"]
            return d if d >= 0 else d
        if v.p == "core::cmp::Ordering":
            return (-1, 0, 1)[v.v]
        return v.v

    def lift2(self, f, a, b):
        if isinstance(a, U) or isinstance(b, U):
            alts = []
            for c, x in flat(TRUE, a):
                for d, y in flat(c, b):
                    if bdd.and_(self.pc, d) != FALSE:
                        alts.append((d, f(x, y)))
            return union(alts)
        return f(a, b)

    def binop(self, op, a, b, t):
        if isinstance(a, U) or isinstance(b, U):
            return self.lift2(lambda x, y: self.binop(op, x, y, t), a, b)
        if op.endswith("WithOverflow"):
            return self.arith_ov(op[:-12], a, b, t)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            x, y = bn(a), bn(b)
            if op == "BitAnd":
                return tob(bdd.and_(x, y))
            if op == "BitOr":
                return tob(bdd.or_(x, y))
            if op in ("BitXor", "Ne"):
                return tob(bdd.xor(x, y))
            if op == "Eq":
                return tob(bdd.iff(x, y))
            if op == "Lt":
                return tob(bdd.and_(bdd.not_(x), y))
            if op == "Le":
                return tob(bdd.or_(bdd.not_(x), y))
            if op == "Gt":
                return tob(bdd.and_(x, bdd.not_(y)))
            if op == "Ge":
                return tob(bdd.or_(x, bdd.not_(y)))
        if isinstance(a, float) and isinstance(b, float):
            import operator
            return {"Add": operator.add, "Sub": operator.sub, "Mul": operator.mul, "Div": operator.truediv,
                    "Lt": operator.lt, "Le": operator.le, "Gt": operator.gt, "Ge": operator.ge,
                    "Eq": operator.eq, "Ne": operator.ne}[op](a, b)
        if not (isinstance(a, (int, W)) and isinstance(b, (int, W))):
            r = self.env.binop(op, a, b)
            if r is not None:
                return r
            raise Unsupported("binop %s on %r, %r" % (op, a, b))
        w = WIDTH.get(t, 64) if isinstance(t, str) else 64
        signed = isinstance(t, str) and t[0] == "i"
        if op == "Eq":
            return tob(weq(a, b))
        if op == "Ne":
            return tob(bdd.not_(weq(a, b)))
        if op == "Lt":
            return tob(wlt(a, b))
        if op == "Gt":
            return tob(wlt(b, a))
        if op == "Le":
            return tob(bdd.not_(wlt(b, a)))
        if op == "Ge":
            return tob(bdd.not_(wlt(a, b)))
        if op == "Cmp":
            lt, eq = wlt(a, b), weq(a, b)
            O = "core::cmp::Ordering"
            return union([(lt, Adt(O, 0, ())), (eq, Adt(O, 1, ())),
                          (bdd.not_(bdd.or_(lt, eq)), Adt(O, 2, ()))])
        if op in ("BitAnd", "BitOr", "BitXor"):
            if isinstance(a, int) and isinstance(b, int):
                return a & b if op == "BitAnd" else a | b if op == "BitOr" else a ^ b
            return wbitop(op[3:].lower(), a, b, w)
        if op in ("Shl", "Shr"):
            if isinstance(b, W):
                return union([(c, self.binop(op, a, i, t)) for c, i in self.ivals(b)])
            b %= w
            if op == "Shl":
                return wrapi((a << b), w, signed) if isinstance(a, int) else wshl(a, b, w)
            return wshr(a, b)
        r = self.arith(op, a, b, w, signed)
        return r

    def arith(self, op, a, b, w, signed):
        if op == "Add":
            if isinstance(a, int) and isinstance(b, int):
                return wrapi(a + b, w, signed)
            return wadd(a, b, w)
        if op == "Sub":
            if isinstance(a, int) and isinstance(b, int):
                return wrapi(a - b, w, signed)
            return wsub(a, b, w)
        if op == "Mul":
            if isinstance(a, int) and isinstance(b, int):
                return wrapi(a * b, w, signed)
            r = wmul(a, b, w)
            if r is None:
                raise Unsupported("product of symbolic words")
            return r
        if op in ("Div", "Rem"):
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    raise Diverge()
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if op == "Div" else a - q * b
            if isinstance(b, int) and b > 0 and b & (b - 1) == 0:
                k = b.bit_length() - 1
                return wshr(a, k) if op == "Div" else wtrunc(wmk(wbits(a)), k)
            return union([(bdd.and_(c, d), self.arith(op, x, y, w, signed))
                          for c, x in self.ivals(a) for d, y in self.ivals(b) if bdd.and_(c, d) != FALSE])
        raise Unsupported("arith %s" % op)

    def arith_ov(self, op, a, b, t):
        w = WIDTH[t]
        signed = t[0] == "i"
        if isinstance(a, int) and isinstance(b, int):
            x = a + b if op == "Add" else a - b if op == "Sub" else a * b
            r = wrapi(x, w, signed)
            return Seq((r, r != x))
        r = self.arith(op, a, b, w, signed)
        if op == "Sub":
            ov = wlt(a, b)
        else:
            m = (wmax(a) + wmax(b)) if op == "Add" else wmax(a) * wmax(b)
            if m < (1 << w):
                ov = FALSE
            elif isinstance(r, int):
                ov = FALSE
            else:
                ov = bdd.atom(("ovf", op, a, b))
        return Seq((r, tob(ov)))

    def unop(self, op, a, t):
        if isinstance(a, U):
            return union([(c, self.unop(op, x, t)) for c, x in a.a])
        if op == "Not":
            if isinstance(a, (bool, B)):
                return tob(bdd.not_(bn(a)))
            w = WIDTH[t]
            if isinstance(a, int):
                return wrapi(~a, w, t[0] == "i")
            return wnot(a, w)
        if op == "Neg" and isinstance(a, (int, float)):
            return -a
        if op == "PtrMetadata":
            return len(self.seq(a).i)
        raise Unsupported("unop %s on %r" % (op, a))

    def cast(self, kind, v, to, frm):
        if isinstance(v, U) and kind in ("IntToInt", "Transmute"):
            return union([(c, self.cast(kind, x, to, frm)) for c, x in v.a])
        if kind == "IntToInt":
            w = WIDTH[to]
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, B):
                return wmk([v.n])
            if isinstance(v, str):
                v = ord(v)
            if isinstance(v, Adt):
                v = self.discr_of(v)
            if isinstance(v, int):
                return wrapi(v, w, to[0] == "i")
            return wtrunc(v, w)
        if kind == "IntToFloat":
            if isinstance(v, int):
                return float(v)
        if kind == "FloatToInt":
            if isinstance(v, float):
                return max(0, int(v)) if to[0] == "u" else int(v)
        if kind == "FloatToFloat":
            return v
        if kind.startswith("ptr:Unsize") or kind in ("PtrToPtr", "BoxDerefTransmute", "Subtype") or \
                kind.startswith("ptr:MutTo") or kind.startswith("ptr:Reify") or kind.startswith("ptr:Closure"):
            return v
        if kind == "Transmute":
            if isinstance(v, (Ptr, Ref)):
                return v
        raise Unsupported("cast %s of %r" % (kind, v))

    # ------------------------------------------------------------ drops
    def needs_drop(self, t, depth=0):
        if t is None or isinstance(t, (str, FnDef)) or depth > 12:
            return False
        key = ("nd", t, self.env.drop_adts)
        r = self.models.CACHE.get((id(self.prog), key))
        if r is not None:
            return r
        k = t[0]
        r = False
        if k == "adt":
            if t[1] in self.prog.drop_impl or t[1] in self.env.drop_adts:
                r = True
            elif t[1] in self.prog.adts and self.prog.adts[t[1]]["local"]:
                a = self.prog.adts[t[1]]
                r = any(self.needs_drop(subst(ft, t[2]), depth + 1) for v in a["variants"] for ft in v["ftypes"])
            else:
                r = any(self.needs_drop(x, depth + 1) for x in t[2])
        elif k == "tuple":
            r = any(self.needs_drop(x, depth + 1) for x in t[1])
        elif k in ("array", "slice"):
            r = self.needs_drop(t[1], depth + 1)
        elif k == "closure":
            r = True
        elif k in ("param", "rigid", "proj"):
            r = self.env.rigid_needs_drop(t)
        self.models.CACHE[(id(self.prog), key)] = r
        return r

    def drop_place(self, fr, pl, t):
        k = (id(t), id(fr.env), 1)
        r = self.submemo.get(k)
        if r is None:
            t2 = self.prog.norm(subst(t, fr.env))
            r = (self.needs_drop(t2), t2, t, fr.env)
            self.submemo[k] = r
        if not r[0]:
            return
        t = r[1]
        for g, c, p in self.place1(fr, pl):
            if g == TRUE:
                self.drop_at(c, p, t)
            else:
                self.cases([(g, lambda: self.drop_at(c, p, t)), (bdd.not_(g), lambda: None)])

    def drop_at(self, c, p, t):
        v = self.load(c, p)
        if isinstance(v, U):
            self.split(v, lambda w: self.drop_val(w, c, p, t))
        else:
            self.drop_val(v, c, p, t)

    def drop_val(self, v, c, p, t):
        if isinstance(v, Adt):
            im = self.prog.drop_impl.get(v.p)
            targs = t[2] if isinstance(t, tuple) and t[0] == "adt" and t[1] == v.p else None
            if im is not None:
                fn = self.prog.fns[im.fns["drop"]]
                env = {}
                if targs is not None:
                    self.prog.unify(im.self, t, env)
                self.call_fn(fn, tuple(env.get(i) for i in range(len(im.generics))), [Ref(c, p)])
                v = self.load(c, p)
            a = self.prog.adts.get(v.p)
            if a and a["local"]:
                for i, ft in enumerate(a["variants"][v.v]["ftypes"]):
                    if targs is not None:
                        ft = self.prog.norm(subst(ft, targs))
                        if not self.needs_drop(ft):
                            continue
                    q = p + ((("v", v.v),) if a["enum"] else ()) + (i,)
                    self.drop_at(c, q, ft)
            else:
                for i in range(len(v.f)):
                    self.drop_at(c, p + (("v", v.v), i), None)
        elif isinstance(v, Seq):
            for i in range(len(v.i)):
                if isinstance(v.i[i], (Adt, U, Seq, Clo)):
                    self.drop_at(c, p + (i,), None)
        elif isinstance(v, Clo):
            for i in range(len(v.f)):
                if isinstance(v.f[i], (Adt, U, Seq, Clo)):
                    self.drop_at(c, p + (i,), None)
        elif isinstance(v, Ptr) and v.k == "Box":
            self.drop_at(v.c, (), None)
        else:
            self.env.drop_rigid(v, t)

    def drop_value(self, v, t=None):
        """drop an owned value"""
        if isinstance(v, (int, bool, B, W, Poly, GE, str)):
            return
        c = self.cell(v)
        self.drop_at(c, (), t)

    # ------------------------------------------------------------ calls
    def call(self, f, args, fr=None):
        if isinstance(f, FnDef):
            return self.call_def(f, args)
        return self.call_value(f, args)

    def call_value(self, f, args):
        """call a callable value with positional args"""
        if isinstance(f, U):
            return self.split(f, lambda g: self.call_value(g, args))
        if isinstance(f, (Ref, Ptr)):
            v = self.rget(f)
            if isinstance(v, Clo):
                return self.call_clo(v, args, f)
            return self.call_value(v, args)
        if isinstance(f, Clo):
            return self.call_clo(f, args, None)
        if isinstance(f, FnDef):
            return self.call_def(f, args)
        r = self.env.call_opaque(f, args)
        if r is not None:
            return r
        raise Unsupported("call of %r" % (f,))

    def call_clo(self, clo, args, ref):
        fn = self.prog.fns.get(clo.key)
        if fn is None:
            raise Unsupported("closure %s without body" % clo.key)
        body = fn.body
        t1 = body.locals[1]
        byref = isinstance(t1, tuple) and t1[0] == "ref"
        me = clo
        cell = None
        if byref:
            me = ref
            while me is not None and isinstance(self.rget(me), (Ref, Ptr)):
                me = self.rget(me)
            if me is None:
                me = self.ref(clo)
                cell = me.c
        env = clo.env
        if body.spread is not None:
            a = [me, Seq(args)]
        else:
            a = [me] + list(args)
        self.fns_seen.add(fn.key)
        r = self.run_body(body, fn, env, a)
        if cell is not None:
            self.mem.pop(cell, None)
        return r

    def resolve(self, f):
        """-> (Fn, env) for local bodies, else None"""
        if f.tr:
            args = tuple(self.prog.norm(x) for x in f.a)
            tr_args = args[:f.ntr]
            own = args[f.ntr:]
            r = self.prog.find_impl(f.tr, tr_args)
            if r is not None:
                im, env = r
                if f.n in im.fns:
                    return self.prog.fns[im.fns[f.n]], env + own
                if f.key in self.prog.fns:
                    return self.prog.fns[f.key], args
            return None
        fn = self.prog.fns.get(f.key)
        if fn is not None:
            return fn, tuple(self.prog.norm(x) for x in f.a)
        return None

    def call_def(self, f, args):
        if f.ctor:
            return Adt(f.ctor, f.vi, tuple(args))
        ov = self.env.override(f, args)
        if ov is not None:
            return ov
        res = f.memo
        if res is None:
            res = self.resolve(f) or False
            if res:
                res = (res[0], self.env_of(res[1]))
            f.memo = res
        if res:
            return self.call_fn(res[0], res[1], args)
        if f.tr:
            # closures and callables
            if f.tr in ("core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce"):
                return self.call_value(args[0], list(args[1].i))
            r = self.env.trait_call(f, args)
            if r is not None:
                return r
            m = self.models.TRAIT.get((f.tr, f.n))
            if m is not None:
                r = m(self, f, args)
                if r is not None:
                    return r
            # value-directed dispatch to a local impl
            r = self.dyn_impl(f, args)
            if r is not None:
                return r
            if f.hasdef and f.key in self.prog.fns:
                return self.call_fn(self.prog.fns[f.key], tuple(self.prog.norm(x) for x in f.a), args)
            raise Unsupported("trait call %s::%s on %s" % (f.tr, f.n, tstr(f.a[0]) if f.a else "?"))
        m = self.models.FUNCS.get(f.p)
        if m is not None:
            r = m(self, f, args)
            if r is not None:
                return r
        r = self.env.extern(f, args)
        if r is not None:
            return r
        raise Unsupported("external function %s" % f.p)

    def dyn_impl(self, f, args):
        if not args:
            return None
        v = args[0]
        d = v
        while isinstance(d, (Ref, Ptr)):
            d = self.rget(d)
        if isinstance(d, U):
            if all(isinstance(w, Adt) and w.p == d.a[0][1].p for _, w in d.a if isinstance(d.a[0][1], Adt)):
                d = d.a[0][1]
        if isinstance(d, Adt):
            for im in self.prog.trait_impls.get(f.tr, []):
                s = im.self
                while isinstance(s, tuple) and s[0] == "ref":
                    s = s[2]
                if isinstance(s, tuple) and s[0] == "adt" and s[1] == d.p and f.n in im.fns:
                    fn = self.prog.fns[im.fns[f.n]]
                    return self.call_fn(fn, tuple(None for _ in fn.generics), args)
        return None

    def call_trait(self, tr, n, selfty, args, targs=(), own=()):
        """convenience for models: call trait method tr::n on a value"""
        f = FnDef.__new__(FnDef)
        f.k, f.p, f.key, f.a, f.tr, f.n = "fndef", tr + "::" + n, tr + "::" + n, (selfty,) + tuple(targs) + tuple(own), tr, n
        f.ntr, f.hasdef, f.ctor, f.vi, f.memo = 1 + len(targs), False, None, 0, None
        return self.call_def(f, args)


def wrapi(x, w, signed):
    x %= 1 << w
    if signed and x >> (w - 1):
        x -= 1 << w
    return x


def wmax(v):
    if isinstance(v, int):
        return v
    if v.b is not None:
        return (1 << len(v.b)) - 1
    w, c, ts = v.lin
    return min((1 << w) - 1, c + sum(k * ((1 << a[1]) - 1) for a, k in ts))


class Env:
    """default environment: no abstract objects"""
    I = None
    drop_adts = ()      # types of other crates whose release is observable

    def override(self, f, args):
        return None

    def trait_call(self, f, args):
        return None

    def extern(self, f, args):
        return None

    def assoc_const(self, tr, n, t):
        return None

    def static(self, key):
        return None

    def call_opaque(self, f, args):
        return None

    def field(self, v, i):
        return None

    def view(self, v, s):
        return None

    def deref(self, v):
        return None

    def as_seq(self, v):
        return None

    def discr(self, v):
        return None

    def binop(self, op, a, b):
        return None

    def rigid_needs_drop(self, t):
        return False

    def drop_rigid(self, v, t):
        return None
