"""Catalogue of gadget operations: operands, call, specification; and the obligations derived from them."""
import itertools
from gadgets import *
import cases
from cases import const_atom
from interp import union

AB = BIT


class Op:
    """prep(R) -> operands; call(R, operands) -> Result value (or plain value when pure);
    spec(o) -> expected observation from operand values o; holds(o) -> bdd the relation imposes (default TRUE);
    okif(o) -> bdd of operand values for which synthesis succeeds with a witness;
    err: name of the error otherwise"""
    def __init__(self, pid, name, prep, call, spec, holds=None, okif=None, err=None, pure=False, res=None,
                 allocs=True, constraint_err=None, p=None):
        self.p = p
        self.pid, self.name, self.prep, self.call, self.spec = pid, name, prep, call, spec
        self.holds, self.okif, self.err, self.pure, self.res = holds, okif, err, pure, res
        self.allocs = allocs
        self.always_err = constraint_err


class Ev:
    """values of operands and linear combinations: under the solved constraints or under the honest witness"""
    def __init__(self, R, S=None):
        self.R, self.S = R, S

    def operands(self):
        o = {}
        R = self.R
        for v, n in R.bitvars.items():
            if self.S:
                o[n] = self.S.val[v][1]
            else:
                x = R.env.wit.get(v)
                o[n] = poly_zero_bdd(x - ONE) if isinstance(x, Poly) and all(ring.idem[y] for y in x.vars()) else \
                    (wbits(wsym(32, n[0]))[n[1]] if isinstance(n, tuple) else batom(n).n)
        for v, n in R.numvars.items():
            o[n] = self.S.val[v][1] if self.S and v in self.S.val else Poly.var(("V", v)) if self.S else Poly.var(n)
        o["#"] = self
        return o

    def b(self, lc):
        """node of a boolean-valued linear combination; None if it is not one"""
        if not self.S:
            return self.R.wit_node(lc)
        r = lc_node(self.S, lc)
        if r is None:
            return None
        one, zero = r
        if bdd.and_(self.S.rel, bdd.not_(bdd.or_(one, zero))) != FALSE:
            return None
        return one

    def n(self, lc):
        if not self.S:
            return self.R.wit_poly(lc)
        return lc_poly(self.S, lc)


def observe(R, v):
    """result value -> observation tree: ('b', lc, reported) ('n', lc, reported) ('w', [b], reported) or list"""
    I = R.I
    v = I.strip(v)
    if isinstance(v, Seq):
        return [observe(R, x) for x in v.i]
    if isinstance(v, (B, bool)):
        return ("v", v)
    if isinstance(v, Poly):
        return ("v", v)
    if isinstance(v, U):
        v = R.I.strip(v)
        raise Unsupported("result depends on the witness: %s" % short(repr(v)))
    if isinstance(v, Adt):
        if v.p == BOOL:
            return ("b", R.lc(v), lambda: R.bvalue(v))
        if v.p == AB:
            x = R.call(AB + "::get_variable", [I.ref(v)])
            return ("b", [(R.env.varkey(x), ONE)], lambda: R.opt(R.call(AB + "::get_value", [I.ref(v)])))
        if v.p == NUM:
            x = R.call(NUM + "::get_variable", [I.ref(v)])
            return ("n", [(R.env.varkey(x), ONE)], lambda: R.opt(R.call(NUM + "::get_value", [I.ref(v)])))
        if v.p == LNUM:
            return ("n", R.env.lc(R.call(LNUM + "::lc", [I.ref(v), ONE])),
                    lambda: R.opt(R.call(LNUM + "::get_value", [I.ref(v)])))
        if v.p == U32:
            bits = R.I.seq(R.call(U32 + "::into_bits", [v])).i
            fi = [i for i, f in enumerate(R.prog.adts[U32]["variants"][0]["fields"]) if f[0] == "value"]
            rep = (lambda: R.opt(v.f[fi[0]])) if fi else (lambda: None)
            return ("w", [observe(R, b) for b in bits], rep)
    raise Unsupported("cannot observe %r" % (v,))


def variants(R, v, assume):
    """[(cond, value)] of a result that differs in shape"""
    if isinstance(v, U):
        return [(g, w) for g, w in ((bdd.and_(c, assume), w) for c, w in v.a) if g != FALSE]
    return [(assume, v)]


def run_op(prog, op, mode, p=BLS_R, ann=False):
    p = op.p or p
    R = Run(prog, mode, p, ann)
    a = op.prep(R)
    R.begin()
    r = op.call(R, a)
    R.args = a
    return R, r


def feasible(S, n):
    return bdd.and_(S.rel, n)


def compare(ev, obs, exp, where, out, assume=TRUE):
    """append (label, verdict, message, falsifying condition) for each leaf"""
    if isinstance(obs, list) or isinstance(exp, (list, tuple)):
        if not isinstance(obs, list):
            obs = obs[1] if obs[0] == "w" else [obs]
        if len(obs) != len(exp):
            out.append((where, False, "%d results, expected %d" % (len(obs), len(exp)), None))
            return
        for i, (x, y) in enumerate(zip(obs, exp)):
            compare(ev, x, y, "%s[%d]" % (where, i), out, assume)
        return
    k = obs[0]
    rel = bdd.and_(ev.S.rel if ev.S else TRUE, assume)
    if k == "b":
        n = ev.b(obs[1])
        if n is None:
            out.append((where, False, "result is not forced to be a bit", "free"))
            return
        d = bdd.and_(rel, bdd.xor(n, exp))
        if d != FALSE and ev.S:
            d = ev.S.cs.expand(d)
        out.append((where, d == FALSE, "result differs from the specification, %s" % bdd.show(d), d))
    elif k == "n":
        q = ev.n(obs[1])
        if q is None:
            out.append((where, None, "no value", None))
            return
        d = modq(q - exp, ev.R.env.p)
        if d.is_zero():
            out.append((where, True, "", None))
            return
        if all(ring.idem[x] for x in d.vars()) and len(d.vars()) < 20:
            z = bdd.and_(rel, bdd.not_(poly_zero_bdd(d)))
            out.append((where, z == FALSE, "result %s differs from the specification %s, %s" % (q, exp, bdd.show(z)), z))
        else:
            # zero wherever the relation holds?
            z = nonzero_cond(d, rel)
            out.append((where, z == FALSE, "result %s differs from the specification %s" % (q, exp), z))
    elif k == "v":
        if isinstance(obs[1], Poly):
            d = modq(obs[1] - exp, ev.R.env.p)
            out.append((where, d.is_zero(), "value %s, expected %s" % (obs[1], exp), None))
        else:
            d = bdd.xor(bn(obs[1]), exp)
            out.append((where, d == FALSE, "value differs, " + bdd.show(d), d))


def nonzero_cond(d, rel):
    """over the indicator variables of d: condition under which d is a non-zero polynomial (within rel)"""
    ids = sorted(x for x in d.vars() if ring.idem[x])
    if len(ids) > 12:
        return rel
    out = FALSE
    for bits in itertools.product((0, 1), repeat=len(ids)):
        c = rel
        for x, b in zip(ids, bits):
            n = bdd.mk(ring.keys[x][1], FALSE, TRUE)
            c = bdd.and_(c, n if b else bdd.not_(n))
        if c == FALSE:
            continue
        q = d.subst({x: (ONE if b else ZERO) for x, b in zip(ids, bits)})
        if not norm(q).is_zero():
            out = bdd.or_(out, c)
    return out


def modq(q, p):
    r = {}
    for m, c in norm(q).t.items():
        if isinstance(c, Fraction):
            c = c.numerator * pow(c.denominator, -1, p)
        c %= p
        if c > p // 2:
            c -= p
        if c:
            r[m] = c
    return Poly(r)


def panics_of(R, assume=TRUE):
    return [x for x in R.panics() if bdd.and_(x[1], assume) != FALSE]


def sound(rep, prog, op, p=BLS_R):
    """every satisfying assignment gives the specified result (setup-mode constraints)"""
    key = op.name

    def go():
        R, r = run_op(prog, op, "setup", p)
        rep.seen(R.I)
        if not op.pure:
            oc = outcome(R.I, r)
            if op.always_err:
                good = len(oc) == 1 and oc[0][1:] == ("err", op.always_err)
                rep.verdict(key + " | outcome", good, "expected Err(%s), got %s" % (op.always_err, [x[1:] for x in oc]))
                return
            if any(x[1] != "ok" for x in oc):
                rep.bad(key + " | outcome", "synthesis without a witness does not succeed: %s" % ([x[1:3] for x in oc],))
                return
            r = oc[0][2] if len(oc) == 1 else union([(c, v) for c, _, v in oc])
        op.setup_log = R.I.log
        ps = panics_of(R)
        if ps:
            rep.bad(key + " | panic", "%s in %s" % (ps[0][0], ps[0][2]), " > ".join(ps[0][3][-4:]))
        extra = op.res(R, r) if op.res else r
        wrong = 0
        for case, log, ex in cases.of_run(R, extra):
            R.I.pc = case.cond()
            wrong += sound_case(rep, op, R, key, case, log, ex)
        R.I.pc = TRUE
        if not wrong:
            rep.ok(key + " | soundness")
    return rep.attempt(key + " | soundness", go)


def sound_case(rep, op, R, key, case, log, extra):
    obs = observe(R, extra) if extra is not None and extra != UNIT else []
    obs = subst_obs(case, obs)
    S = Solver(R.env.p).load(log, list(R.bitvars))
    rep.count("constraints", S.nproc)
    ev = Ev(R, S)
    o = ev.operands()
    exp = case.tree(op.spec(o)) if op.spec else []
    out = []
    hold = op.holds(o) if op.holds else TRUE
    compare(ev, obs, exp, "result", out, hold if op.holds else TRUE)
    rel = S.rel
    # the relation the constraints impose on the operands
    if op.holds is not None:
        d = bdd.and_(rel, bdd.not_(hold))
        out.append(("relation", d == FALSE, "a forbidden operand combination satisfies the constraints, " + bdd.show(d), d))
    wrong = [x for x in out if x[1] is not True]
    F = None
    for lab, v, msg, d in wrong:
        msg += repr(case)
        if isinstance(d, int) and d != FALSE:
            F = F or Falsifier(S, log)
            w = F.run(d)
            if w is not None:
                rep.bad(key + " | " + lab, msg + "; satisfying assignment " + short(str(w[1])), where_of(R))
                continue
            if any(isinstance(bdd.names[i], tuple) and bdd.names[i][0] == "sd" for i in bdd.support(d)):
                rep.und(key + " | " + lab, msg + " (no concrete difference found)")
                continue
        if S.unknown or S.wraps:
            rep.und(key + " | " + lab, msg + " (%d constraints not reduced)" % (len(S.unknown)))
        elif S.res and not getattr(op, "res_ok", False):
            rep.bad(key + " | " + lab, msg + " (relation %s)" % (S.res[0][0],), where_of(R))
        else:
            rep.bad(key + " | " + lab, msg, where_of(R))
    return len(wrong)


def subst_obs(case, obs):
    if isinstance(obs, list):
        return [subst_obs(case, x) for x in obs]
    if obs[0] in "bn":
        return (obs[0], list(case.lc(obs[1]))) + tuple(obs[2:])
    if obs[0] == "w":
        return (obs[0], subst_obs(case, obs[1])) + tuple(obs[2:])
    return (obs[0], case.tree(obs[1])) if isinstance(obs[1], Poly) else obs


def same_constraints(rep, key, setup, R, assume=TRUE):
    """what is emitted with a witness is what is emitted without one: the reduction of the constraints applies to both"""
    a, _ = shape([e for e in setup if e.k != "push" and e.k != "pop"])
    b, dep = shape([e for e in R.I.log if e.k != "push" and e.k != "pop"], assume)
    d = None
    if dep and any(not const_atom(x) for e in dep for x in bdd.support(bdd.and_(e.g, assume))):
        d = "%s only for some witnesses" % ev_str(dep[0])
    elif not dep and a != b:
        d = diff_shape(a, b)
    if d:
        rep.bad(key + " | constraints with a witness", "differ from those without: " + d[:500], where_of(R))
    return not d


def where_of(R):
    fs = []
    for e in R.events():
        if e.k == "enforce" and e.site and e.site[0]:
            p = e.site[0].path
            if p not in fs:
                fs.append(p)
    return ", ".join(fs[:6])


def honest(rep, prog, op, p=BLS_R):
    """the honest witness satisfies the constraints; reported values agree with the assigned ones"""
    key = op.name

    def go():
        R, r = run_op(prog, op, "prove", p)
        rep.seen(R.I)
        ev = Ev(R)
        o = ev.operands()
        okif = op.okif(o) if op.okif else TRUE
        ps = panics_of(R)
        if ps:
            rep.bad(key + " | panic with a witness", "%s in %s, %s" % (ps[0][0], ps[0][2], bdd.show(ps[0][1])), " > ".join(ps[0][3][-4:]))
        if not op.pure:
            oc = outcome(R.I, r)
            okc = FALSE
            val = None
            for c, k, v in oc:
                if k == "ok":
                    okc = bdd.or_(okc, c)
                    val = v if val is None else merge(c, v, val)
                else:
                    if op.always_err:
                        rep.verdict(key + " | outcome with a witness", v == op.always_err, "Err(%s)" % (v,))
                    elif not op.okif:
                        rep.bad(key + " | outcome with a witness", "Err(%s) for valid operands, %s" % (v, bdd.show(c)))
                    elif v != op.err:
                        rep.bad(key + " | outcome with a witness", "Err(%s), expected %s" % (v, op.err))
            if op.always_err:
                return
            if okc != okif:
                d = bdd.xor(okc, okif)
                rep.bad(key + " | success condition", "succeeds under a different condition, " + bdd.show(d), where_of(R))
                return
            r = val
        if not op.pure or op.allocs:
            sl = getattr(op, "setup_log", None)
            if sl is None:
                sl = run_op(prog, op, "setup", p)[0].I.log
            if not same_constraints(rep, key, sl, R, okif):
                return
        extra = op.res(R, r) if op.res else r
        exp = op.spec(o) if op.spec else []
        hold = op.holds(o) if op.holds else TRUE
        assume = bdd.and_(okif, hold)
        out, rv = [], []
        for g, x in variants(R, extra, assume):
            obs = observe(R, x) if x is not None and x != UNIT else []
            compare(ev, obs, exp, "assigned result", out, g)
            reported(R, obs, exp, "reported value", rv, g)
        for x in out + rv:
            if x[1] is not True:
                rep.verdict(key + " | " + x[0], x[1], x[2], where_of(R))
        bad, unk = satisfied([e for e in R.I.log if bdd.and_(e.g, okif) != FALSE], R.env.wit, R.env.p, assume)
        for c, d in bad[:3]:
            rep.bad(key + " | honest witness", "a constraint is violated by the honest witness: %s" % (
                bdd.show(d) if isinstance(d, int) else d), c.site[0].path if c.site and c.site[0] else "")
        for c, d in unk[:1]:
            rep.und(key + " | honest witness", "constraint not evaluated: %s" % (d,))
        if not bad and not unk and all(x[1] is True for x in out + rv):
            rep.ok(key + " | honest witness")
        return R
    return rep.attempt(key + " | honest witness", go)


def reported(R, obs, exp, where, out, assume=TRUE):
    if isinstance(obs, list):
        for i, (x, y) in enumerate(zip(obs, exp)):
            reported(R, x, y, "%s[%d]" % (where, i), out, assume)
        return
    if obs[0] == "v":
        return
    if obs[0] == "w":
        for i, (x, y) in enumerate(zip(obs[1], exp)):
            reported(R, x, y, "%s bit %d" % (where, i), out, assume)
        v = obs[2]()
        if v is not None:
            b = wbits(v)
            b = list(b) + [FALSE] * (32 - len(b))
            for i in range(32):
                d = bdd.and_(assume, bdd.xor(b[i], exp[i]))
                out.append(("%s of the word" % where, d == FALSE, "word value differs from its bits at bit %d, %s" % (i, bdd.show(d))))
        return
    v = obs[2]()
    if v is None:
        out.append((where, False, "no value is reported although the operands are known"))
    elif obs[0] == "b":
        d = bdd.and_(assume, bdd.xor(bn(v), exp))
        out.append((where, d == FALSE, "reported value differs, " + bdd.show(d)))
    else:
        d = modq(v - exp, R.env.p)
        z = FALSE if d.is_zero() else nonzero_cond(d, assume)
        out.append((where, z == FALSE, "reported value %s, expected %s" % (v, exp)))


# ------------------------------------------------------------------ catalogue
KINDS = "FTIN"


def kval(o, k, name):
    """operand value of kind k"""
    if k in "FT":
        return TRUE if k == "T" else FALSE
    n = o[name]
    return bdd.not_(n) if k == "N" else n


def bool_ops(n, path, fspec, names="abc", extra=(), pid="C02", always=None, kinds=None, **kw):
    """operation over n Booleans for every mixture of operand kinds (and shared operands)"""
    out = []
    pats = [(ks, tuple(range(n))) for ks in (kinds or itertools.product(KINDS, repeat=n))]
    for ks in itertools.product("IN", repeat=n):
        if n == 2:
            pats.append((ks, (0, 0)))
        elif n == 3 and extra:
            pats += [(ks, s) for s in ((0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 0, 0))]
    for ks, share in pats:
        nm = "%s(%s)" % (path.replace(G, ""), ",".join(k if k in "FT" else k + names[s] for k, s in zip(ks, share)))

        def prep(R, ks=ks, share=share):
            base = {}
            args = []
            for k, s in zip(ks, share):
                if k in "IN":
                    if s not in base:
                        base[s] = R.bit(names[s])
                    args.append(R.boolean(k, None, of=M.clone(R.I, base[s])))
                else:
                    args.append(R.boolean(k, None))
            return args

        def call(R, a):
            return R.call(path, [R.cs] + [R.I.ref(x) for x in a])

        def spec(o, ks=ks, share=share):
            return fspec(*[kval(o, k, names[s]) for k, s in zip(ks, share)])
        consts = all(k in "FT" for k in ks)
        o = Op(pid, nm, prep, call, spec, **kw)
        o.kinds = ks
        o.share = share
        out.append(o)
    return out


def maj(a, b, c):
    return bdd.or_(bdd.and_(a, b), bdd.or_(bdd.and_(a, c), bdd.and_(b, c)))


def c02_ops(full=True):
    out = []
    out += bool_ops(2, BOOL + "::xor", bdd.xor)
    out += bool_ops(2, BOOL + "::and", bdd.and_)
    out += bool_ops(3, BOOL + "::sha256_ch", bdd.ite, extra=True)
    out += bool_ops(3, BOOL + "::sha256_maj", maj, extra=True)
    for nm, f in (("xor", bdd.xor), ("and", bdd.and_), ("and_not", lambda a, b: bdd.and_(a, bdd.not_(b))),
                  ("nor", lambda a, b: bdd.not_(bdd.or_(a, b)))):
        for sh in (False, True):
            def prep(R, sh=sh):
                a = R.bit("a")
                return [a, M.clone(R.I, a) if sh else R.bit("b")]
            out.append(Op("C02", "AllocatedBit::%s(a,%s)" % (nm, "a" if sh else "b"), prep,
                          lambda R, a, nm=nm: R.call(AB + "::" + nm, [R.cs] + [R.I.ref(x) for x in a]),
                          lambda o, f=f, sh=sh: f(o["a"], o["a" if sh else "b"])))
    # equality
    for op in bool_ops(2, BOOL + "::enforce_equal", None):
        ks, sh = op.kinds, op.share
        op.holds = lambda o, ks=ks, sh=sh: bdd.iff(*[kval(o, k, "ab"[s]) for k, s in zip(ks, sh)])
        op.spec = lambda o: []
        op.res = lambda R, r: None
        op.allocs = False
        if all(k in "FT" for k in ks) and ks[0] != ks[1]:
            op.always_err = "Unsatisfiable"
        out.append(op)
    # negation, constants
    for k in KINDS:
        o = Op("C02", "Boolean::not(%s)" % k, lambda R, k=k: [R.boolean(k, "a")],
               lambda R, a: R.call(BOOL + "::not", [R.I.ref(a[0])]),
               lambda o, k=k: bdd.not_(kval(o, k, "a")), pure=True, allocs=False)
        out.append(o)
        o = Op("C02", "Boolean(%s)" % k, lambda R, k=k: [R.boolean(k, "a")],
               lambda R, a: a[0], lambda o, k=k: kval(o, k, "a"), pure=True, allocs=False)
        out.append(o)
    return out


# ------------------------------------------------------------------ C01: allocation
class Alloc:
    """an allocation gadget: (name, run(R) -> Result of bits, list of the value's bits, condition bit)"""
    def __init__(self, name, go, bits, n, must=False, prep=None):
        self.name, self.f, self.bits, self.n, self.must, self.prep = name, go, bits, n, must, prep or (lambda R: None)

    def go(self, R, a):
        return self.f(R, a) if a is not None else self.f(R)


FALT = ("rigid", "F#alt")
JUBJUB_R = 0x0e7db4ea6533afa906673b0101343b00a6682093ccc81082d0970e5ed6f72cb7
PALLAS_P = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
BN_R = 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001
TOY = 7681            # 13 bits: capacity 12
TOY2 = 0x1fffffffffe00001 - 0


def c01_ops():
    def fieldop(path, q, label):
        def go(R):
            t = FALT
            R.env.alt[t] = q
            f = R.fn(path)
            over = {}
            names = [g if isinstance(g, str) else g[0] for g in f.generics]
            over[names[-1]] = t
            return R.call(path, [R.cs, R.val(Poly.var("fv"))], **over)

        def bits(R):
            return R.env.field_bits(Poly.var("fv"), FALT)[:q.bit_length()]
        return Alloc("%s over a %d-bit field (%s)" % (path.replace(G, ""), q.bit_length(), label), go, bits, q.bit_length())
    out = [
        Alloc("AllocatedBit::alloc", lambda R: R.call(AB + "::alloc", [R.cs, R.val(batom("v"))]),
              lambda R: [batom("v").n], 1),
        Alloc("AllocatedBit::alloc_conditionally",
              lambda R, m: R.call(AB + "::alloc_conditionally", [R.cs, R.val(batom("v")), m]),
              lambda R: [batom("v").n], 1, must=True, prep=lambda R: R.I.ref(R.bit("m"))),
        Alloc("u64_into_boolean_vec_le",
              lambda R: R.call(G + "boolean::u64_into_boolean_vec_le", [R.cs, R.val(wsym(64, "v"))]),
              lambda R: wbits(wsym(64, "v")), 64),
        Alloc("UInt32::alloc", lambda R: R.call(U32 + "::alloc", [R.cs, R.val(wsym(32, "v"))]),
              lambda R: wbits(wsym(32, "v")), 32),
    ]
    for q, l in ((BLS_R, "BLS12-381 scalar"), (JUBJUB_R, "Jubjub scalar"), (PALLAS_P, "Pallas base"), (TOY, "toy")):
        out.append(fieldop(G + "boolean::field_into_boolean_vec_le", q, l))
        out.append(fieldop(G + "boolean::field_into_allocated_bits_le", q, l))
    return out


def leaves(o):
    if isinstance(o, list):
        return [y for x in o for y in leaves(x)]
    if o[0] == "w":
        return leaves(o[1])
    return [o]


def alloc_case(rep, a, R, case, log, r):
    obs = leaves(subst_obs(case, observe(R, r)))
    if len(obs) != a.n:
        rep.bad(a.name + " | count", "%d bits, expected %d" % (len(obs), a.n))
        return False
    S = Solver(R.env.p).load(log, list(R.bitvars))
    ev = Ev(R, S)
    good = True
    for i, x in enumerate(obs):
        n = ev.b(x[1])
        if n is None:
            rep.bad(a.name + " | bit %d" % i, "not constrained to 0 or 1" + repr(case), where_of(R))
            return False
        if a.must:
            m = ev.operands()["m"]
            d = bdd.and_(S.rel, bdd.and_(n, m))
            if d != FALSE:
                rep.bad(a.name + " | must be false", "the bit can be 1 although the condition is 1", where_of(R))
                good = False
            e = bdd.and_(bdd.not_(m), bdd.not_(S.rel))
            if e != FALSE:
                rep.bad(a.name + " | free when allowed", "the bit is restricted although the condition is 0", where_of(R))
                good = False
    if len({tuple(x[1]) for x in [(o[0], tuple(o[1])) for o in obs]}) != len(obs):
        rep.bad(a.name + " | distinct", "two result bits share a variable")
        good = False
    return good


def check_alloc(rep, prog, a):
    def snd():
        R = Run(prog, "setup")
        x = a.prep(R)
        R.begin()
        r = a.go(R, x)
        rep.seen(R.I)
        oc = outcome(R.I, r)
        if len(oc) != 1 or oc[0][1] != "ok":
            rep.bad(a.name + " | outcome", "allocation without a witness fails: %s" % [x[1:] for x in oc])
            return
        a.setup_log = R.I.log
        good = True
        for case, log, r in cases.of_run(R, oc[0][2]):
            R.I.pc = case.cond()
            good = alloc_case(rep, a, R, case, log, r) and good
        R.I.pc = TRUE
        if good:
            rep.ok(a.name + " | every bit is boolean (%d)" % a.n)
    rep.attempt(a.name + " | boolean", snd)

    def hon():
        R = Run(prog, "prove")
        x = a.prep(R)
        R.begin()
        r = a.go(R, x)
        rep.seen(R.I)
        oc = outcome(R.I, r)
        bad = [x for x in oc if x[1] != "ok"]
        ps = panics_of(R)
        if ps:
            rep.bad(a.name + " | panic", ps[0][0], ps[0][2])
        if bad or len(oc) != 1:
            rep.bad(a.name + " | outcome with a value", "allocation of a known value fails: %s" % [x[1:] for x in bad])
            return
        if hasattr(a, "setup_log") and not same_constraints(rep, a.name, a.setup_log, R):
            return
        obs = leaves(observe(R, oc[0][2]))
        ev = Ev(R)
        exp = a.bits(R)
        exp = list(exp) + [FALSE] * (a.n - len(exp))
        out = []
        assume = TRUE
        if a.must:
            o = ev.operands()
            assume = bdd.not_(bdd.and_(o["m"], exp[0]))
        compare(ev, obs, exp, "assigned bit", out)
        good = True
        for lab, v, msg, d in out:
            if v is not True:
                rep.verdict(a.name + " | " + lab, v, msg, where_of(R))
                good = False
        rv = []
        reported(R, obs, exp, "reported bit", rv)
        for lab, v, msg in rv:
            if v is not True:
                rep.verdict(a.name + " | " + lab, v, msg)
                good = False
        b, u = satisfied(R.I.log, R.env.wit, R.env.p, assume)
        for c, d in b[:2]:
            rep.bad(a.name + " | honest witness", "violates its own constraint: %s" % (bdd.show(d) if isinstance(d, int) else d), where_of(R))
        if good and not b:
            rep.ok(a.name + " | value assigned and reported (%d bits)" % a.n)
    rep.attempt(a.name + " | value", hon)


# ------------------------------------------------------------------ C03: numbers
def c03_ops():
    out = []

    def two(share):
        def prep(R):
            a = R.num("a")
            return [a, M.clone(R.I, a) if share else R.num("b")]
        return prep
    for sh in (False, True):
        out.append(Op("C03", "AllocatedNum::mul(a,%s)" % ("a" if sh else "b"), two(sh),
                      lambda R, a: R.call(NUM + "::mul", [R.I.ref(a[0]), R.cs, R.I.ref(a[1])]),
                      lambda o, sh=sh: o["a"] * o["a" if sh else "b"]))
        for k in KINDS:
            def prep(R, sh=sh, k=k):
                a = two(sh)(R)
                return a + [R.boolean(k, "c")]

            def spec(o, sh=sh, k=k):
                a, b = o["a"], o["a" if sh else "b"]
                c = kval(o, k, "c")
                return [pite(c, b, a), pite(c, a, b)]
            out.append(Op("C03", "AllocatedNum::conditionally_reverse(a,%s,%s)" % ("a" if sh else "b", k), prep,
                          lambda R, a: R.call(NUM + "::conditionally_reverse", [R.cs] + [R.I.ref(x) for x in a]), spec))
    out.append(Op("C03", "AllocatedNum::square(a)", lambda R: [R.num("a")],
                  lambda R, a: R.call(NUM + "::square", [R.I.ref(a[0]), R.cs]), lambda o: o["a"] * o["a"]))

    def new_inputs(R, r):
        vs = [e.a for e in R.events() if e.k == "alloc" and e.a[0] == "input"]
        return vs

    class Inp(Op):
        pass
    o = Op("C03", "AllocatedNum::inputize(a)", lambda R: [R.num("a")],
           lambda R, a: R.call(NUM + "::inputize", [R.I.ref(a[0]), R.cs]), lambda o: [o["a"]],
           res=lambda R, r: RawVars(R, new_inputs(R, r)))
    out.append(o)
    o = Op("C03", "AllocatedNum::assert_nonzero(a)", lambda R: [R.num("a")],
           lambda R, a: R.call(NUM + "::assert_nonzero", [R.I.ref(a[0]), R.cs]), None,
           okif=lambda o: bdd.not_(bdd.atom(("pz", o["a"].key()))), err="DivisionByZero")
    o.nonzero = True
    out.append(o)
    # running sums of numbers and weighted bits
    for k in KINDS:
        def prep(R, k=k):
            return [R.num("a"), R.boolean(k, "c")]

        def call(R, a):
            n = R.I.call_trait("core::convert::From", "from", ("adt", LNUM, (("rigid", "Scalar"),)), [a[0]],
                               (("adt", NUM, (("rigid", "Scalar"),)),))
            one = Adt("bellman::Variable", 0, (Adt("bellman::Index", 0, (0,)),))
            return R.call(LNUM + "::add_bool_with_coeff", [n, one, R.I.ref(a[1]), Poly.var("k")])
        out.append(Op("C03", "Num::from(a).add_bool_with_coeff(%s, k)" % k, prep, call,
                      lambda o, k=k: o["a"] + Poly.var("k") * ind(kval(o, k, "c")), pure=True, allocs=False))
    return out


def RawVars(R, vs):
    """observable list of plain variables (public inputs)"""
    def mk(v):
        return Adt(NUM, 0, field_order(R, NUM, {"value": SOME(R.env.wit[v]) if v in R.env.wit else NONE,
                                                "variable": Adt("bellman::Variable", 0, (Adt("bellman::Index", 0 if v[0] == "input" else 1, (v[1],)),))}))
    return Seq([mk(v) for v in vs])


def field_order(R, adt, d):
    return tuple(d[f[0]] for f in R.prog.adts[adt]["variants"][0]["fields"])


def check_nonzero(rep, prog, op):
    """the only relation on the operand is: it has an inverse"""
    key = op.name + " | relation"

    def go():
        R, r = run_op(prog, op, "setup")
        rep.seen(R.I)
        S = R.solver()
        oc = outcome(R.I, r)
        if [x[1] for x in oc] != ["ok"]:
            rep.bad(key, "synthesis fails without a witness")
            return
        av = [v for v in R.numvars][0]
        a = S.val[av][1] if av in S.val else None
        new = [e.a for e in R.events() if e.k == "alloc"]
        rels = [q for q, _ in S.res]
        for z in new:
            zq = S.val[z][1] if z in S.val and S.val[z][0] == "p" else Poly.var(("V", z))
            tgt = modq(a * zq - ONE, R.env.p)
            if len(rels) == 1 and (rels[0] == tgt or rels[0] == -tgt) and S.rel == TRUE:
                rep.ok(key + ": %s = 0" % (tgt,))
                return
        if not rels and S.rel == TRUE and not S.unknown:
            rep.bad(key, "zero satisfies the constraints", where_of(R))
        else:
            # the zero point itself
            ai = list(a.vars())
            q0 = [norm(q.subst({x: ZERO for x in ai})) for q in rels]
            if all(q.is_zero() for q in q0):
                rep.bad(key, "zero satisfies the constraints", where_of(R))
            else:
                rep.bad(key, "the constraints impose %s instead of a*inv = 1" % ("; ".join(map(repr, rels)) or bdd.show(S.rel)), where_of(R))
    rep.attempt(key, go)


# ------------------------------------------------------------------ C04: decompositions
def le_const(bits, k):
    """bdd of (number with these bits <= constant k)"""
    r = TRUE
    for i, b in enumerate(bits):
        r = bdd.ite(b, r if (k >> i) & 1 else FALSE, TRUE if (k >> i) & 1 else r)
    return r


def check_decomp(rep, prog, strict, p, label):
    nm = "to_bits_le%s over %s" % ("_strict" if strict else "", label)
    path = NUM + ("::to_bits_le_strict" if strict else "::to_bits_le")
    nb = p.bit_length()

    def run(mode):
        R = Run(prog, mode, p)
        a = R.num("a")
        R.begin()
        r = R.call(path, [R.I.ref(a), R.cs])
        rep.seen(R.I)
        return R, a, r

    def snd():
        R, a, r = run("setup")
        oc = outcome(R.I, r)
        if [x[1] for x in oc] != ["ok"]:
            rep.bad(nm + " | outcome", "%s" % [x[1:] for x in oc])
            return
        ps = panics_of(R)
        if ps:
            rep.bad(nm + " | panic", ps[0][0], ps[0][2])
        obs = leaves(observe(R, oc[0][2]))
        if len(obs) != nb:
            rep.bad(nm + " | count", "%d bits, the field has %d" % (len(obs), nb))
            return
        S = R.solver()
        rep.count("constraints", S.nproc)
        ev = Ev(R, S)
        bits = []
        for i, x in enumerate(obs):
            n = ev.b(x[1])
            if n is None:
                rep.bad(nm + " | bit %d" % i, "not constrained to 0 or 1", where_of(R))
                return
            bits.append(n)
        av = list(R.numvars)[0]
        aval = S.val[av][1] if av in S.val else Poly.var(("V", av))
        tgt = ZERO
        for i, n in enumerate(bits):
            tgt = tgt + ind(n).scale(1 << i)
        tgt = modq(tgt - aval, p)
        rels = [q for q, _ in S.res]
        if S.unknown:
            rep.und(nm + " | recombination", "%d constraints not reduced" % len(S.unknown))
            return
        if not tgt.is_zero():
            if not any(q == tgt or q == -tgt for q in rels):
                rep.bad(nm + " | recombination", "no constraint forces the bits to recombine to the number (relations: %s)" % (
                    "; ".join(short(repr(q)) for q in rels) or "none"), where_of(R))
                return
            more = [q for q in rels if not (q == tgt or q == -tgt)]
            if more:
                rep.bad(nm + " | extra relation", "%s" % more[0], where_of(R))
                return
        rep.ok(nm + " | recombination of %d bits" % nb)
        exp = le_const(bits, p - 1) if strict else TRUE
        if S.rel == exp:
            rep.ok(nm + (" | exactly the canonical representations" if strict else " | no further restriction"))
        else:
            d = bdd.and_(S.rel, bdd.not_(exp))
            if d != FALSE:
                asg = bdd.pick(d)
                v = sum(((1 << i) if eval_node(n, asg) else 0) for i, n in enumerate(bits))
                rep.bad(nm + " | unique", "non-canonical representation accepted: integer %#x >= %#x" % (v, p), where_of(R))
            else:
                d = bdd.and_(exp, bdd.not_(S.rel))
                asg = bdd.pick(d)
                v = sum(((1 << i) if eval_node(n, asg) else 0) for i, n in enumerate(bits))
                rep.bad(nm + " | complete", "canonical representation rejected: integer %#x" % v, where_of(R))
    rep.attempt(nm + " | soundness", snd)

    def hon():
        R, a, r = run("prove")
        oc = outcome(R.I, r)
        fb = R.env.field_bits(Poly.var("a"))[:nb]
        canon = le_const(fb, p - 1)
        ps = panics_of(R, canon)
        if ps:
            rep.bad(nm + " | panic with a witness", ps[0][0], ps[0][2])
        if [x[1] for x in oc] != ["ok"]:
            rep.bad(nm + " | outcome with a witness", "%s" % [x[1:] for x in oc])
            return
        obs = leaves(observe(R, oc[0][2]))
        ev = Ev(R)
        out = []
        compare(ev, obs, fb, "assigned bit", out, canon)
        rv = []
        reported(R, obs, fb, "reported bit", rv, canon)
        good = True
        for x in out + rv:
            if x[1] is not True:
                rep.verdict(nm + " | " + x[0], x[1], x[2])
                good = False
        b, u = satisfied(R.I.log, R.env.wit, p, canon)
        key = (Poly.var("a").key(), p)
        s = ZERO
        for i, n in enumerate(fb):
            s = s + ind(n).scale(1 << i)
        ident = modq(s - Poly.var("a"), p)
        left = []
        for c, d in b:
            if isinstance(d, Poly):
                dd = modq(d, p)
                if dd == ident or dd == -ident:
                    continue
            left.append((c, d))
        for c, d in left[:2]:
            rep.bad(nm + " | honest witness", "a constraint is violated by the honest witness: %s" % (
                bdd.show(d) if isinstance(d, int) else short(repr(d))), where_of(R))
        if u:
            rep.und(nm + " | honest witness", "%d constraints not evaluated" % len(u))
        if good and not left and not u:
            rep.ok(nm + " | honest witness")
    rep.attempt(nm + " | honest", hon)


def eval_node(n, asg):
    while n > 1:
        v, lo, hi = bdd.node[n]
        n = hi if asg.get(bdd.names[v]) else lo
    return n


# ------------------------------------------------------------------ C05: table lookups
def c05_ops():
    out = []
    for signed in (False, True):
        path = G + ("lookup::lookup3_xy_with_conditional_negation" if signed else "lookup::lookup3_xy")
        pats = [(ks, (0, 1, 2)) for ks in itertools.product(KINDS, repeat=3)]
        for ks in (("I", "I", "I"), ("I", "N", "I"), ("N", "N", "I"), ("I", "N", "N")):
            pats += [(ks, s) for s in ((0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 0, 0))]
        for ks, share in pats:
            nm = "%s(%s)" % (path.split("::")[-1], ",".join(k if k in "FT" else k + "abc"[s] for k, s in zip(ks, share)))

            def prep(R, ks=ks, share=share, signed=signed):
                base, args = {}, []
                for k, s in zip(ks, share):
                    if k in "IN":
                        if s not in base:
                            base[s] = R.bit("abc"[s])
                        args.append(R.boolean(k, None, of=M.clone(R.I, base[s])))
                    else:
                        args.append(R.boolean(k, None))
                tab = Seq([TUP(Poly.var("x%d" % i), Poly.var("y%d" % i)) for i in range(4 if signed else 8)])
                return [R.I.ref(Seq(args)), R.I.ref(tab)]

            def spec(o, ks=ks, share=share, signed=signed):
                b = [kval(o, k, "abc"[s]) for k, s in zip(ks, share)]
                n = 2 if signed else 3
                x = y = ZERO
                for i in range(1 << n):
                    c = TRUE
                    for j in range(n):
                        c = bdd.and_(c, b[j] if (i >> j) & 1 else bdd.not_(b[j]))
                    x = x + ind(c) * Poly.var("x%d" % i)
                    y = y + ind(c) * Poly.var("y%d" % i)
                if signed:
                    y = pite(b[2], -y, y)
                return [x, y]
            out.append(Op("C05", nm, prep, lambda R, a, path=path: R.call(path, [R.cs] + a), spec))
    return out


# ------------------------------------------------------------------ C06: words
WKINDS = {"c": None, "a": None}
PAT1 = "FTINNITF" + "IINNFTFT" + "TFNINIFT" + "NNIITTFF"
PAT2 = "INFTFTIN" + "NFTIITNF" + "TINFNFTI" + "FITNINFT"
PAT3 = "NTFIITNF" + "TFNINIFT" + "INFTFTIN" + "FTNINIFT"


def wnodes(o, k, name, const):
    """operand word -> 32 nodes"""
    if k == "c":
        return [(const >> i) & 1 for i in range(32)]
    if k == "a":
        return [o[(name, i)] for i in range(32)]
    return [kval(o, k[i % len(k)], "%s%d" % (name, i)) for i in range(32)]


CONSTS = [0x00000000, 0xffffffff, 0x80000001, 0x6a09e667, 0x0f0f1234, 1, 0xbb67ae85, 0x510e527f, 0x9b05688c, 0x1f83d9ab]


def word_args(R, kinds, names="xyzuvwpqrst"):
    return [R.word(k, names[i], CONSTS[i % len(CONSTS)]) for i, k in enumerate(kinds)]


def kn(k):
    return {"c": "const", "a": "alloc", PAT1: "mix1", PAT2: "mix2", PAT3: "mix3"}.get(k, k)


def c06_ops(thorough=False):
    out = []
    one = ["c", "a", PAT1]
    for k in one:
        def words(o, k=k):
            return wnodes(o, k, "x", CONSTS[3] if k == "c" else 0)

        def prep(R, k=k):
            return [R.word(k, "x", CONSTS[3])]
        out.append(Op("C06", "UInt32 bits little-endian (%s)" % kn(k), prep, lambda R, a: a[0], words, pure=True, allocs=False))
        out.append(Op("C06", "UInt32::into_bits(%s)" % kn(k), prep,
                      lambda R, a: R.call(U32 + "::into_bits", [a[0]]), words, pure=True, allocs=False))
        out.append(Op("C06", "UInt32::into_bits_be(%s)" % kn(k), prep,
                      lambda R, a: R.call(U32 + "::into_bits_be", [a[0]]),
                      lambda o, w=words: w(o)[::-1], pure=True, allocs=False))
        for be in (False, True):
            def call(R, a, be=be):
                b = R.call(U32 + "::into_bits", [a[0]])
                return R.call(U32 + ("::from_bits_be" if be else "::from_bits"), [R.I.ref(b)])
            out.append(Op("C06", "UInt32::%s(%s)" % ("from_bits_be" if be else "from_bits", kn(k)), prep, call,
                          lambda o, w=words, be=be: w(o)[::-1] if be else w(o), pure=True, allocs=False))
        for n in range(32):
            out.append(Op("C06", "UInt32::rotr(%s,%d)" % (kn(k), n), prep,
                          lambda R, a, n=n: R.call(U32 + "::rotr", [R.I.ref(a[0]), n]),
                          lambda o, w=words, n=n: w(o)[n:] + w(o)[:n], pure=True, allocs=False))
            out.append(Op("C06", "UInt32::shr(%s,%d)" % (kn(k), n), prep,
                          lambda R, a, n=n: R.call(U32 + "::shr", [R.I.ref(a[0]), n]),
                          lambda o, w=words, n=n: w(o)[n:] + [FALSE] * n, pure=True, allocs=False))
    for c in CONSTS + [0x12345678, 0x7fffffff, 0xdeadbeef]:
        out.append(Op("C06", "UInt32::constant(%#x)" % c, lambda R: [], lambda R, a, c=c: R.call(U32 + "::constant", [c]),
                      lambda o, c=c: [(c >> i) & 1 for i in range(32)], pure=True, allocs=False))

    def multi(nm, ks, f, meth=False):
        def prep(R):
            return word_args(R, ks)

        def call(R, a):
            rs = [R.I.ref(x) for x in a]
            if meth:
                return R.call(U32 + "::" + nm, [rs[0], R.cs] + rs[1:])
            return R.call(U32 + "::" + nm, [R.cs] + rs)

        def spec(o):
            ws = [wnodes(o, k, "xyzuvwpqrst"[i], CONSTS[i % len(CONSTS)]) for i, k in enumerate(ks)]
            return [f(*b) for b in zip(*ws)]
        out.append(Op("C06", "UInt32::%s(%s)" % (nm, ",".join(map(kn, ks))), prep, call, spec))
    lone = ["".join("IN"[i % 2] if j == i else "FT"[(j * 5 + i) % 3 == 0] for j in range(32)) for i in range(32)]
    for ks in (("a", "a"), ("a", "c"), ("c", "a"), ("c", "c"), (PAT1, PAT2), (PAT2, PAT3)) + tuple((w, "c")[::(-1) ** i] for i, w in enumerate(lone)):
        multi("xor", ks, bdd.xor, True)
    for ks in (("a", "a", "a"), ("a", "c", "a"), ("c", "a", "a"), ("a", "a", "c"), ("c", "c", "c"), ("c", "c", "a"),
               (PAT1, PAT2, PAT3), (PAT2, PAT3, PAT1), (PAT3, PAT1, PAT2)) + tuple(
                   tuple(w if j == i % 3 else "c" for j in range(3)) for i, w in enumerate(lone)):
        multi("sha256_ch", ks, bdd.ite)
        multi("sha256_maj", ks, maj)

    # addition of several words, batched equalities flushed at the end
    def add(ks, pre=()):
        nm = "UInt32::addmany(%s)%s" % (",".join(map(kn, ks)), " after " + "/".join(str(len(x)) for x in pre) if pre else "")

        def prep(R):
            return word_args(R, ks)

        def call(R, a):
            mq = R.call(MEQ + "::new", [R.cs])
            mr = R.I.ref(mq)
            R.pre = []
            for x in pre:
                r = R.call(U32 + "::addmany", [mr, R.I.ref(Seq([M.clone(R.I, a[i]) for i in x]))], M=("ref", True, MEQT))
                oc = outcome(R.I, r)
                R.pre.append(oc[0][2])
            r = R.call(U32 + "::addmany", [mr, R.I.ref(Seq(a))], M=("ref", True, MEQT))
            R.I.drop_at(mr.c, (), MEQT)
            return r

        def res(R, r):
            return Seq(list(R.pre) + [r]) if pre else r

        def total(o, ws):
            ev = o["#"]
            cols, const = {}, 0
            for w in ws:
                for i, n in enumerate(w):
                    d = cols.setdefault(i, {})
                    d[n] = d.get(n, 0) + 1
            if ev.S:
                return ev.S.cs.sum(cols, const, 32)
            acc = 0
            for w in ws:
                acc = wadd(acc, wmk(w), 32)
            b = list(wbits(acc))
            return b + [FALSE] * (32 - len(b))

        def spec(o):
            ws = [wnodes(o, k, "xyzuvwpqrst"[i], CONSTS[i % len(CONSTS)]) for i, k in enumerate(ks)]
            out = [total(o, [ws[i] for i in x]) for x in pre]
            return out + [total(o, ws)] if pre else total(o, ws)
        allc = all(k == "c" for k in ks)
        out.append(Op("C06", nm, prep, call, spec, res=res if pre else None, allocs=not allc))
        out[-1].add = True
    for n in range(2, 11):
        add(("a",) * n)
        add(("c",) * n)
        add(("a",) + ("c",) * (n - 1))
    add(("c", "a"))
    add(("a", "c", "a"))
    add((PAT1, "a"))
    add((PAT1, PAT2))
    add((PAT1, "c", PAT3))
    add((PAT1, PAT2, "a", "c", PAT3))
    for i in range(32):                     # one variable bit among constants, at every position
        for b, k in (("I", ("c",)), ("N", ("c", "c"))):
            w = "".join(b if j == i else "FT"[(j * 7 + i) % 3 == 0] for j in range(32))
            add((w,) + k if i % 2 else k + (w,))
    add(("a", "a", "a"), pre=((0, 1), (1, 2), (0, 1, 2), (0, 2), (0, 1, 2), (1, 0), (2, 1), (2, 0)))
    add(("a", "a", "a", "a", "a"), pre=((0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (0, 1, 2, 3), (0, 1, 2, 3, 4), (0, 1), (4, 3), (0, 2), (3, 2, 1)))
    return out


# ------------------------------------------------------------------ C10: packing
def c10_ops(p, lens):
    out = []
    cap = p.bit_length() - 1
    for n, pat in lens:
        def prep(R, n=n, pat=pat):
            return [R.boolean(pat[i % len(pat)], "b%d" % i) for i in range(n)]

        def call(R, a):
            return R.call(G + "multipack::pack_into_inputs", [R.cs, R.I.ref(Seq(a))])

        def res(R, r):
            return RawVars(R, [e.a for e in R.events() if e.k == "alloc" and e.a[0] == "input"])

        def spec(o, n=n, pat=pat):
            vals = []
            for s in range(0, n, cap):
                q = ZERO
                for i in range(s, min(n, s + cap)):
                    q = q + ind(kval(o, pat[i % len(pat)], "b%d" % i)).scale(1 << (i - s))
                vals.append(q)
            return vals
        op = Op("C10", "pack_into_inputs(%d bits %s, %d-bit field)" % (n, pat, p.bit_length()), prep, call, spec, res=res,
                allocs=any(k in "IN" for k in pat) and n > 0, p=p)
        out.append(op)
        op = Op("C10", "compute_multipacking(%d bits, %d-bit field)" % (n, p.bit_length()),
                lambda R, n=n: [Seq([batom("b%d" % i) for i in range(n)])],
                lambda R, a: R.call(G + "multipack::compute_multipacking", [R.I.ref(a[0])]),
                lambda o, n=n: [sum((ind(batom("b%d" % i).n).scale(1 << (i - s)) for i in range(s, min(n, s + cap))), ZERO)
                                for s in range(0, n, cap)], pure=True, allocs=False, p=p)
        op.plain = True
        out.append(op)
    return out


def bytes_ops(lens):
    out = []
    for nm in ("bytes_to_bits", "bytes_to_bits_le"):
        for n in lens:
            def spec(o, n=n, nm=nm):
                r = []
                for i in range(n):
                    b = list(wbits(wsym(8, "y%d" % i)))
                    r += b[::-1] if nm == "bytes_to_bits" else b
                return r
            op = Op("C10", "%s(%d bytes)" % (nm, n), lambda R, n=n: [Seq([wsym(8, "y%d" % i) for i in range(n)])],
                    lambda R, a, nm=nm: R.call(G + "multipack::" + nm, [R.I.ref(a[0])]), spec, pure=True, allocs=False)
            op.plain = True
            out.append(op)
    return out


# ------------------------------------------------------------------ C07: batched equalities
MQBASE, MQOWN = 10000, 9000


def mq_other(R, mr, q, k):
    """another operation of the batcher between equalities"""
    from gcheck import csm
    I, nat = R.I, R.env.native
    ann = nat(lambda: Opq("ann", "o%d" % k))
    if q in ("alloc", "input"):
        csm(I, MEQT, "alloc" if q == "alloc" else "alloc_input", [mr, ann, nat(lambda: OK(Poly.var("o%d" % k)))])
    elif q == "fail":
        csm(I, MEQT, "alloc", [mr, ann, nat(lambda: ERR(R.missing()))])
    elif q == "ns":
        NS = ("adt", "bellman::Namespace", (None, ("rigid", "Scalar"), MEQT))
        c = I.ref(csm(I, MEQT, "namespace", [mr, ann]))
        csm(I, NS, "alloc", [c, ann, nat(lambda: OK(Poly.var("o%d" % k)))])
        I.drop_at(c.c, (), NS)
    else:
        own = nat(lambda l: Adt("bellman::LinearCombination", 0, (Seq(list(I.seq(l.f[0]).i) + [TUP(
            Adt("bellman::Variable", 0, (Adt("bellman::Index", 1, (MQOWN,)),)), ONE)]),)))
        csm(I, MEQT, "enforce", [mr, ann, own, own, own])


def check_multieq(rep, prog, p, seqs, label):
    """equalities x_j = y_j of n_j bits: each ends up in exactly one constraint, in its own bit range"""
    cap = p.bit_length() - 1
    R = Run(prog, "setup", p)
    rep.attempt("MultiEq " + label, lambda: None)
    for s in seqs:
        qn = lambda q: q if isinstance(q, str) else str(q) if not isinstance(q, tuple) else "%s%d[%s=%s]" % ("ns:" if len(q) > 3 else "", q[0], q[1] or "0", q[2] or "0")
        key = "MultiEq %s: equalities of %s bits" % (label, ",".join(map(qn, s[:12])) + ("..." if len(s) > 12 else ""))

        def go(s=s, key=key):
            R = Run(prog, "setup", p)
            I = R.I
            R.begin()
            mq = R.call(MEQ + "::new", [R.cs])
            mr = I.ref(mq)
            eqs, other = [], []
            from gcheck import csm

            def lc(sh, k, j):
                t = []
                for i, x in enumerate(sh):
                    if x == "x":                  # a variable of its own, odd coefficients
                        t.append(((1, MQBASE + 10 * j + 5 * k + i), 3 if "x" in sh[:i] else 1))
                    elif x == "s":                # a variable shared by all equalities
                        t.append(((1, MQBASE - 1), 1))
                    elif x == "i":
                        t.append(((0, 7 + k), 1))
                    elif x == "k":                # a constant
                        t.append(((0, 0), 1))
                d = {}
                for (kd, ix), c in t:
                    v = ("aux", ix) if kd else ("input", ix)
                    d[v] = d.get(v, 0) + c
                return d, I.ref(Adt("bellman::LinearCombination", 0, (Seq([
                    TUP(Adt("bellman::Variable", 0, (Adt("bellman::Index", kd, (ix,)),)), Poly.const(c)) for (kd, ix), c in t]),)))
            for q in s:
                if isinstance(q, str):
                    n0 = len(I.log)
                    mq_other(R, mr, q, len(other))
                    other.append(q)
                    continue
                n, l, r = q[:3] if isinstance(q, tuple) else (q, "x", "x")
                j = len(eqs)
                (dl, rl), (dr, rr) = lc(l, 0, j), lc(r, 1, j)
                D = {v: dl.get(v, 0) - dr.get(v, 0) for v in dl.keys() | dr.keys()}
                eqs.append((n, {v: c for v, c in D.items() if c}))
                if isinstance(q, tuple) and len(q) == 4:        # through a namespace of the batcher
                    NS = ("adt", "bellman::Namespace", (None, ("rigid", "Scalar"), MEQT))
                    c = I.ref(csm(I, MEQT, "namespace", [mr, R.env.native(lambda: Opq("ann", "n"))]))
                    R.call(MEQ + "::enforce_equal", [csm(I, NS, "get_root", [c]), n, rl, rr])
                    I.drop_at(c.c, (), NS)
                    other.append("nseq")
                else:
                    R.call(MEQ + "::enforce_equal", [mr, n, rl, rr])
            I.drop_at(mr.c, (), MEQT)
            ps = panics_of(R)
            rep.count("abstract_steps", I.steps)
            if ps:
                rep.bad(key + " | panic", "%s" % ps[0][0], ps[0][2])
                return
            seen, rest = {}, []
            for e in R.events():
                if e.k != "enforce" or any(("aux", MQOWN) in lcdict(x) for x in e.a):
                    rest.append(e)
                    continue
                A, B_, C = [lcdict(x) for x in e.a]
                one = {ONEV: ONE}
                if A == one:
                    A, B_ = B_, A
                if B_ != one:
                    rep.bad(key + " | form", "constraint is not an equality: %s" % ev_str(e))
                    return
                D = dict(A)
                for v, c in C.items():
                    D[v] = D[v] - c if v in D else -c
                D = {v: intc(c, p) for v, c in D.items() if not c.is_zero()}
                rng, rem = [], dict(D)
                for j, (n, dj) in enumerate(eqs):
                    m = [v for v, c in dj.items() if v[0] == "aux" and v[1] >= MQBASE and abs(c) == 1][0]
                    if not D.get(m):
                        continue
                    w = D[m] * dj[m]
                    if abs(w) & (abs(w) - 1):
                        rep.bad(key + " | equality %d" % j, "weight %s of %s" % (D[m], m), "%s" % e.site[0].path)
                        return
                    for v, c in dj.items():
                        rem[v] = rem.get(v, 0) - w * c
                    if j in seen:
                        rep.bad(key + " | equality %d" % j, "enforced twice")
                        return
                    seen[j] = w
                    rng.append((abs(w).bit_length() - 1, n, j))
                rem = {v: c for v, c in rem.items() if c % p}
                if rem:
                    rep.bad(key + " | form", "the packed equality is not the weighted sum of the given ones: left over %s" % sorted(rem.items())[:4])
                    return
                rng.sort()
                end = 0
                for sh, n, j in rng:
                    if sh < end:
                        rep.bad(key + " | ranges", "bit ranges overlap: equality %d starts at bit %d, previous range ends at %d" % (j, sh, end), e.site[0].path)
                        return
                    end = sh + n
                if end >= cap:
                    rep.bad(key + " | capacity", "packed equality is %d bits wide, the field's capacity is %d" % (end, cap), e.site[0].path)
                    return
            miss = [j for j in range(len(eqs)) if j not in seen]
            if miss:
                rep.bad(key + " | dropped", "equality %d (%s) is never enforced" % (miss[0], sorted(eqs[miss[0]][1].items())), "MultiEq release")
                return
            want = [k for q in other for k in {"alloc": ["alloc"], "input": ["input"], "enforce": ["enforce"], "ns": ["push", "alloc", "pop"],
                                               "fail": ["alloc"], "nseq": ["push", "pop"]}[q]]
            got = [("input" if e.k == "alloc" and e.a and e.a[0] == "input" else e.k) for e in rest]
            if [g.replace("alloc_input", "input") for g in got] != want:
                rep.bad(key + " | transparent", "other operations %s reach the underlying system as %s" % (want, got))
                return
            rep.ok(key)
        rep.attempt(key, go)
    rep.fns |= {"bellman::gadgets::multieq::MultiEq::enforce_equal", "bellman::gadgets::multieq::MultiEq::accumulate"} & set(prog.by_path)
