"""Loads MIR dumps; types become hashable tuples; trait resolution by unification."""
import json


def T(j):
    if j is None or isinstance(j, str):
        return j
    k = j["k"]
    if k == "adt":
        return ("adt", j["p"], tuple(T(x) for x in j["a"]))
    if k == "ref":
        return ("ref", j["m"], T(j["t"]))
    if k == "ptr":
        return ("ptr", j["m"], T(j["t"]))
    if k == "tuple":
        return ("tuple", tuple(T(x) for x in j["a"]))
    if k == "slice":
        return ("slice", T(j["t"]))
    if k == "array":
        return ("array", T(j["t"]), T(j["len"]))
    if k == "param":
        return ("param", j["n"], j["i"])
    if k == "proj":
        return ("proj", j["tr"], j["n"], tuple(T(x) for x in j["a"]))
    if k == "closure":
        return ("closure", j["key"], tuple(T(x) for x in j["a"]))
    if k == "const":
        return ("const", j["v"])
    if k == "fndef":
        return FnDef(j)
    if k == "dyn":
        return ("dyn", j["p"], j["d"])
    return (k, j.get("d", ""))


class FnDef:
    __slots__ = ("p", "key", "a", "tr", "n", "ntr", "hasdef", "ctor", "vi", "k", "memo")

    def __init__(self, j):
        self.k = "fndef"
        self.p = j["p"]
        self.key = j["key"]
        self.a = tuple(T(x) for x in j["a"])
        self.tr = j.get("tr")
        self.n = j.get("n")
        self.ntr = j.get("ntr", 0)
        self.hasdef = j.get("def", False)
        self.ctor = j.get("ctor")
        self.vi = j.get("vi", 0)
        self.memo = None

    def __eq__(self, o):
        return isinstance(o, FnDef) and (o.key, o.a) == (self.key, self.a)

    def __hash__(self):
        return hash((self.key, self.a))

    def __repr__(self):
        return "fn " + self.p


def subst(t, env):
    """env: tuple of types by generic index"""
    if t is None or isinstance(t, str):
        return t
    if isinstance(t, FnDef):
        f = FnDef.__new__(FnDef)
        for s in FnDef.__slots__:
            setattr(f, s, getattr(t, s))
        f.a = tuple(subst(x, env) for x in t.a)
        f.memo = None
        return f
    k = t[0]
    if k == "param":
        if env is None or t[2] >= len(env) or env[t[2]] is None:
            return t
        return env[t[2]]
    if k == "adt":
        return ("adt", t[1], tuple(subst(x, env) for x in t[2]))
    if k in ("ref", "ptr"):
        return (k, t[1], subst(t[2], env))
    if k == "tuple":
        return ("tuple", tuple(subst(x, env) for x in t[1]))
    if k == "slice":
        return ("slice", subst(t[1], env))
    if k == "array":
        return ("array", subst(t[1], env), subst(t[2], env))
    if k == "proj":
        return ("proj", t[1], t[2], tuple(subst(x, env) for x in t[3]))
    if k == "closure":
        return ("closure", t[1], tuple(subst(x, env) for x in t[2]))
    return t


class Fn:
    def __init__(self, j, krate):
        self.key = j["key"]
        self.path = j["path"]
        self.kind = j["kind"]
        self.file = j["file"]
        self.line = j["line"]
        self.krate = krate
        self.generics = j["generics"]
        self.pub = j["pub"]
        self.eff = j.get("eff", False)
        self.impl = j.get("impl")
        self.trait = j.get("trait")
        self.name = j.get("n") or self.path.split("::")[-1]
        self.ret = T(j["ret"]) if "ret" in j else None
        self.ins = [T(x) for x in j.get("ins", [])]
        self.preds = j.get("preds", [])
        self.unsafe = j.get("unsafe", False)
        self.j = j
        self._body = None
        self._prom = None

    @property
    def body(self):
        if self._body is None:
            self._body = Body(self.j["body"], self)
        return self._body

    @property
    def prom(self):
        if self._prom is None:
            self._prom = [Body(b, self) for b in self.j["prom"]]
        return self._prom

    def parent_fn(self):
        """path of the item that owns this body (closures: outermost named fn)"""
        p = self.path
        i = p.find("::{closure}")
        return p if i < 0 else p[:i]


def _place(j):
    out = [j[0]]
    for e in j[1:]:
        if e == "*":
            out.append("*")
        elif e[0] == "f":
            out.append(e[1])
        else:
            out.append(tuple(e))
    return tuple(out)


def _operand(j):
    if j[0] in ("c", "m"):
        return (j[0], _place(j[1]))
    if j[0] == "k":
        return ("k", Const(j[1]))
    return ("x", j[1])


class Const:
    __slots__ = ("j", "kind", "v", "t", "a", "memo")

    def __init__(self, j):
        self.j = j
        self.memo = None
        self.t = T(j["t"]) if "t" in j else None
        self.a = tuple(T(x) for x in j["a"]) if "a" in j else ()
        if "int" in j:
            self.kind, self.v = "int", j["int"]
            if isinstance(self.t, str) and self.t[0] == "i":
                w = WIDTH[self.t]
                if self.v >> (w - 1):
                    self.v -= 1 << w
        elif "bool" in j:
            self.kind, self.v = "bool", j["bool"]
        elif "fn" in j:
            self.kind, self.v = "fn", T(j["fn"])
        elif "zst" in j:
            self.kind, self.v = "zst", T(j["zst"])
        elif "str" in j:
            self.kind, self.v = "str", j["str"]
        elif "ref" in j:
            self.kind, self.v = "ref", j["ref"]
        elif "arr" in j:
            self.kind, self.v = "arr", j
        elif "static" in j:
            self.kind, self.v = "static", j["static"]
        elif "const" in j:
            self.kind, self.v = "const", j["const"]
        elif "cty" in j:
            self.kind, self.v = "cty", T(j["cty"])
        else:
            self.kind, self.v = "unk", j.get("unk", "?")


WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
         "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "char": 32, "bool": 1}


def _rv(j):
    k = j[0]
    if k == "use":
        return ("use", _operand(j[1]))
    if k == "repeat":
        return ("repeat", _operand(j[1]), T(j[2]))
    if k in ("ref", "reborrow"):
        return ("ref", j[1], _place(j[2]))
    if k == "cast":
        return ("cast", j[1], _operand(j[2]), T(j[3]), T(j[4]))
    if k == "bin":
        return ("bin", j[1], _operand(j[2]), _operand(j[3]), T(j[4]))
    if k == "un":
        return ("un", j[1], _operand(j[2]), T(j[3]))
    if k == "discr":
        return ("discr", _place(j[1]))
    if k == "agg":
        kk = j[1]
        ops = tuple(_operand(o) for o in j[2])
        if kk[0] == "adt":
            return ("agg", "adt", kk[1], kk[2], kk[4], ops)
        if kk[0] == "closure":
            return ("agg", "closure", kk[1], tuple(T(x) for x in kk[2]), None, ops)
        if kk[0] in ("tuple", "array"):
            return ("agg", kk[0], None, None, None, ops)
        return ("?", kk)
    return ("?", j)


class Body:
    def __init__(self, j, fn):
        self.fn = fn
        self.argc = j["argc"]
        self.spread = j["spread"]
        self.locals = [T(x) for x in j["locals"]]
        self.blocks = []
        for b in j["blocks"]:
            st = []
            for s in b["s"]:
                if s[0] == "=":
                    st.append(("=", _place(s[1]), _rv(s[2]), s[3]))
                elif s[0] == "setd":
                    st.append(("setd", _place(s[1]), s[2], s[3]))
                elif s[0] == "dead":
                    st.append(("dead", s[1], None))
                else:
                    st.append(("?", s))
            t = b["t"]
            if t[0] == "switch":
                t = ("switch", _operand(t[1]), [tuple(x) for x in t[2]], t[3], T(t[4]), t[5])
            elif t[0] == "drop":
                t = ("drop", _place(t[1]), t[2], t[3], T(t[4]), t[5])
            elif t[0] == "call":
                t = ("call", _operand(t[1]), tuple(_operand(o) for o in t[2]), _place(t[3]), t[4],
                     t[5], t[6], T(t[7]))
            elif t[0] == "assert":
                m = t[3]
                if m[0] == "bounds":
                    m = ("bounds", _operand(m[1]), _operand(m[2]))
                elif m[0] == "overflow":
                    m = ("overflow", m[1], _operand(m[2]), _operand(m[3]))
                else:
                    m = tuple(m)
                t = ("assert", _operand(t[1]), t[2], m, t[4], t[5], t[6])
            else:
                t = tuple(t)
            self.blocks.append((st, t, b["c"]))
        self.names = [(n, _place(p)) for n, p in j["names"]]
        self._ipd = None

    def succs(self, b, unwind=False):
        t = self.blocks[b][1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = []
            for _, x in t[2]:
                if x not in r:
                    r.append(x)
            if t[3] not in r:
                r.append(t[3])
            return r
        if k == "drop":
            return [t[2]] + ([t[3]] if unwind and t[3] is not None else [])
        if k == "call":
            return ([t[4]] if t[4] is not None else []) + ([t[5]] if unwind and t[5] is not None else [])
        if k == "assert":
            return [t[4]] + ([t[5]] if unwind and t[5] is not None else [])
        return []

    def ipdom(self, b):
        """immediate post-dominator among blocks that can reach return; None = function exit"""
        if self._ipd is None:
            self._compute_ipd()
        return self._ipd.get(b)

    def loops(self):
        """-> (position in reverse post order, enclosing loop heads of each block (outermost first), join blocks)"""
        r = getattr(self, "_loops", None)
        if r is not None:
            return r
        n = len(self.blocks)
        succ = [self.succs(i) for i in range(n)]
        order, seen = [], {0}
        stack = [(0, iter(succ[0]))]
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        pos = {x: i for i, x in enumerate(order)}
        pred = {x: [] for x in order}
        for x in order:
            for y in succ[x]:
                pred[y].append(x)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in order[1:]:
                new = None
                for y in pred[x]:
                    if y in idom:
                        if new is None:
                            new = y
                        else:
                            a, c = y, new
                            while a != c:
                                while pos[a] > pos[c]:
                                    a = idom[a]
                                while pos[c] > pos[a]:
                                    c = idom[c]
                            new = a
                if idom.get(x) != new:
                    idom[x] = new
                    ch = True

        def dom(a, b):
            while pos[b] > pos[a]:
                b = idom[b]
            return a == b
        body = {}
        for u in order:
            for h in succ[u]:
                if dom(h, u):
                    m = body.setdefault(h, {h})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in m:
                            m.add(x)
                            st.extend(pred[x])
        heads = {x: sorted((h for h in body if x in body[h]), key=lambda h: pos[h]) for x in order}
        joins = {x for x in order if len(pred[x]) > 1 or x in body}
        self._loops = (pos, heads, joins, body)
        return self._loops

    def _compute_ipd(self):
        n = len(self.blocks)
        succ = [self.succs(i) for i in range(n)]
        pred = [[] for _ in range(n)]
        for i, s in enumerate(succ):
            for x in s:
                pred[x].append(i)
        EXIT = n
        rets = [i for i in range(n) if self.blocks[i][1][0] == "return"]
        good = set(rets)
        st = list(rets)
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in good:
                    good.add(p)
                    st.append(p)
        # reverse post order on reversed graph from EXIT
        rs = {i: [p for p in pred[i] if p in good] for i in good}
        rs[EXIT] = rets
        order, seen = [], set()
        stack = [(EXIT, iter(rs[EXIT]))]
        seen.add(EXIT)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(rs[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        num = {x: i for i, x in enumerate(order)}
        idom = {EXIT: EXIT}
        changed = True
        while changed:
            changed = False
            for x in order[1:]:
                ss = [y for y in succ[x] if y in good] or []
                if x in rets:
                    ss = [EXIT]
                new = None
                for y in ss:
                    if y in idom:
                        if new is None:
                            new = y
                        else:
                            a, b2 = y, new
                            while a != b2:
                                while num[a] > num[b2]:
                                    a = idom[a]
                                while num[b2] > num[a]:
                                    b2 = idom[b2]
                            new = a
                if new is not None and idom.get(x) != new:
                    idom[x] = new
                    changed = True
        self._ipd = {x: (None if d == EXIT else d) for x, d in idom.items() if x != EXIT}


class Impl:
    def __init__(self, j, krate):
        self.key = j["key"]
        self.trait = j["trait"]
        self.targs = tuple(T(x) for x in j["targs"]) if j["targs"] else ()
        self.self = T(j["self"])
        self.generics = j["generics"]
        self.fns = j["fns"]
        self.tys = {k: T(v) for k, v in j["tys"].items()}
        self.derived = j["derived"]
        self.file, self.line = j["file"], j["line"]


class Program:
    def __init__(self, paths):
        self.fns, self.adts, self.impls, self.traits, self.unsafe = {}, {}, [], {}, []
        self.by_path = {}
        self.crates = []
        self.trait_impls = {}
        self.drop_impl = {}
        self.trait_items = {}
        for p in paths:
            d = json.load(open(p))
            self.crates.append(d["crate"])
            for f in d["fns"]:
                fn = Fn(f, d["crate"])
                self.fns[fn.key] = fn
                self.by_path.setdefault(fn.path, []).append(fn)
            for k, a in d["adts"].items():
                for v in a["variants"]:
                    v["ftypes"] = [T(t) for _, t in v["fields"]]
                self.adts[k] = a
            for i in d["impls"]:
                im = Impl(i, d["crate"])
                self.impls.append(im)
                if im.trait:
                    self.trait_impls.setdefault(im.trait, []).append(im)
            for t in d["traits"]:
                self.traits[t["p"]] = t
            self.unsafe += d["unsafe"]
        for im in self.trait_impls.get("core::ops::drop::Drop", []):
            self.drop_impl[im.self[1]] = im

    def fn(self, path, which=0):
        l = self.by_path.get(path)
        return l[which] if l else None

    def method(self, adt, name):
        """inherent method of an ADT by name (any impl block)"""
        l = [f for f in self.by_path.get(adt + "::" + name, [])]
        return l[0] if l else None

    def impl_fn(self, trait, selfpred, name):
        for im in self.trait_impls.get(trait, []):
            if selfpred(im) and name in im.fns:
                return self.fns[im.fns[name]], im
        return None, None

    # ---- unification: pattern params are ('param', n, i)
    def unify(self, pat, t, env):
        if pat is None or t is None:
            return True
        if isinstance(pat, tuple) and pat[0] == "param":
            i = pat[2]
            if i in env:
                return self.teq(env[i], t)
            env[i] = t
            return True
        if isinstance(pat, str) or isinstance(t, str) or isinstance(pat, FnDef) or isinstance(t, FnDef):
            return pat == t
        if pat[0] == "proj":
            # <X as Tr>::N: substitute what is known; accept if equal after normalisation, else accept
            m = max(env) + 1 if env else 0
            e = tuple(env.get(i) for i in range(m))
            q = self.norm(subst(pat, e))
            if isinstance(q, tuple) and q[0] == "proj":
                return True if _has_param(q) else q == t
            return self.unify(q, t, env)
        if pat[0] != t[0]:
            return False
        k = pat[0]
        if k == "adt":
            return pat[1] == t[1] and all(self.unify(a, b, env) for a, b in zip(pat[2], t[2]))
        if k in ("ref", "ptr"):
            return pat[1] == t[1] and self.unify(pat[2], t[2], env)
        if k == "tuple":
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, env) for a, b in zip(pat[1], t[1]))
        if k == "slice":
            return self.unify(pat[1], t[1], env)
        if k == "array":
            return self.unify(pat[1], t[1], env) and self.unify(pat[2], t[2], env)
        return pat == t

    def teq(self, a, b):
        return a == b or a is None or b is None

    def find_impl(self, trait, args):
        """args: (Self, trait args...) ; returns (impl, env tuple) or None"""
        for im in self.trait_impls.get(trait, []):
            env = {}
            if len(im.targs) and all(self.unify(p, a, env) for p, a in zip(im.targs, args)):
                # blanket impls over a bare parameter only match when nothing rigid forbids it
                n = len(im.generics)
                return im, tuple(env.get(i) for i in range(n))
        return None

    def norm(self, t):
        """normalise projections through local impls"""
        if t is None or isinstance(t, (str, FnDef)):
            return t
        k = t[0]
        if k == "proj":
            args = tuple(self.norm(x) for x in t[3])
            r = self.find_impl(t[1], args) if not _has_param(args[0]) else None
            if r and t[2] in r[0].tys:
                return self.norm(subst(r[0].tys[t[2]], r[1]))
            if t[1] == "core::ops::function::FnOnce":
                return t
            s = args[0]
            if isinstance(s, tuple) and s[0] == "proj" and s[1].startswith("pairing::"):
                # equalities the Engine trait imposes on its associated types
                e = s[3]
                m = {"G1": "G1Affine", "G2": "G2Affine"} if t[2] in ("Affine", "AffineRepr") else {
                    "G1Affine": "G1", "G2Affine": "G2"} if t[2] == "Curve" else {
                    x: "Fr" for x in ("G1", "G2", "G1Affine", "G2Affine", "Gt")} if t[2] == "Scalar" else {
                    "Result": "Gt"} if t[2] == "Gt" else {"G1Affine": "Gt", "G2Affine": "Gt"} if t[2] == "PairingResult" else {}
                if s[2] in m:
                    return ("proj", "pairing::Engine", m[s[2]], e)
            return ("proj", t[1], t[2], args)
        if k == "adt":
            return ("adt", t[1], tuple(self.norm(x) for x in t[2]))
        if k in ("ref", "ptr"):
            return (k, t[1], self.norm(t[2]))
        if k == "tuple":
            return ("tuple", tuple(self.norm(x) for x in t[1]))
        if k == "slice":
            return ("slice", self.norm(t[1]))
        if k == "array":
            return ("array", self.norm(t[1]), t[2])
        return t


def _has_param(t):
    if isinstance(t, FnDef):
        return any(_has_param(x) for x in t.a)
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "param":
        return True
    return any(_has_param(x) for x in t if isinstance(x, (tuple, FnDef)))


def is_rigid(t):
    return isinstance(t, tuple) and t[0] in ("rigid", "proj", "param")


def tstr(t):
    if t is None:
        return "'_"
    if isinstance(t, str):
        return t
    if isinstance(t, FnDef):
        return t.p
    k = t[0]
    if k == "adt":
        a = [tstr(x) for x in t[2] if x is not None]
        return t[1].split("::")[-1] + ("<%s>" % ",".join(a) if a else "")
    if k in ("ref", "ptr"):
        return "&" + tstr(t[2])
    if k == "tuple":
        return "(%s)" % ",".join(tstr(x) for x in t[1])
    if k in ("param", "rigid"):
        return t[1]
    if k == "proj":
        return "<%s as %s>::%s" % (tstr(t[3][0]), t[1].split("::")[-1], t[2])
    if k == "slice":
        return "[%s]" % tstr(t[1])
    if k == "array":
        return "[%s;%s]" % (tstr(t[1]), t[2])
    return str(t)
