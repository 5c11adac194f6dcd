"""C25: error-flow analysis over the MIR of every function of both crates.

Every call that yields a Result (or Option<Result>, ControlFlow carrying one, or a Waiter for one) is an obligation: on every path from
the call to a return, the result must be consumed - handed on (moved into a call, an aggregate, the return place, a captured place), or
inspected, and then on the failing branch the path must build or propagate an error (Err construction, `?`), hand on the payload, or not
return. Methods that turn a failure into a value (ok, unwrap_or, ...) do not consume it; nor does dropping it or formatting it."""
from mir import Const, FnDef, tstr

RES, OPT, CF = "core::result::Result", "core::option::Option", "core::ops::control_flow::ControlFlow"
# not failures of an operation of the library: arithmetic conversions, formatting, a result nobody waits for any more
EXEMPT = ("core::num::", "core::array::", "core::convert::Infallible", "core::fmt::Error", "core::str::", "core::char::",
          "crossbeam_channel::err::SendError", "alloc::alloc::", "core::alloc::", "std::sync::", "core::cell::", "core::any::")


def adt(t, p):
    return isinstance(t, tuple) and t[0] == "adt" and t[1] == p


def fallible(t):
    """does the error type count?"""
    if isinstance(t, tuple) and t[0] == "adt":
        return not t[1].startswith(EXEMPT)
    return t != "never" and t != ("tuple", ())


def carries(t):
    """kind of value that tells of a failure: 'res', 'cf', 'optres', 'waiter' or None"""
    if isinstance(t, tuple) and t[0] == "ref":
        return carries(t[2])
    if adt(t, RES):
        return "res" if fallible(t[2][1]) else None
    if adt(t, CF):
        return "cf" if carries(t[2][0]) else None
    if adt(t, OPT):
        return "optres" if carries(t[2][0]) else None
    if isinstance(t, tuple) and t[0] == "adt" and t[1].endswith("::Waiter"):
        return "waiter" if carries(t[2][0]) else None
    return None


def callee(t):
    """(path, FnDef) of a call terminator"""
    op = t[1]
    f = t[7] if isinstance(t[7], FnDef) else None
    if f is None and op[0] == "k" and isinstance(op[1].v, FnDef):
        f = op[1].v
    if f is None and isinstance(op, tuple) and op[0] == "k" and isinstance(op[1].t, FnDef):
        f = op[1].t
    return (f.p if f is not None else None), f


DROPPING = ("core::mem::drop", "core::mem::forget", "core::mem::manually_drop::ManuallyDrop::new", "core::mem::maybe_uninit::MaybeUninit::new",
            "core::hint::black_box")
DEFAULTING = ("unwrap_or", "unwrap_or_default", "or", "and_else", "iter", "iter_mut", "into_iter", "is_ok_and", "is_err_and", "is_some_and",
              "unwrap_or_else", "or_else", "map_or", "map_or_else", "inspect_err")
ITER_LOSSY = ("flatten", "flat_map", "count", "filter_map", "map_while", "last", "nth", "skip_while", "take_while", "skip", "take", "max_by", "min_by")


def closure_of(prog, t):
    if isinstance(t, tuple) and t[0] == "closure":
        return prog.fns.get(t[1])
    return None


def returns(f):
    """can this function return normally?"""
    b = f.body
    seen, work = set(), [0]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if b.blocks[x][1][0] == "return":
            return True
        work += b.succs(x)
    return False


def builds_ok(f):
    """does the function build an Ok (a success) of a tracked Result type anywhere, other than in nested `?` plumbing?"""
    for st, t, c in f.body.blocks:
        for s in st:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2] == RES and s[2][3] == 0:
                return True
    return False


def places(rv):
    k = rv[0]
    if k == "use":
        return [rv[1]]
    if k in ("repeat", "un"):
        return [rv[2] if k == "un" else rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "agg":
        return list(rv[5])
    return []


def base(op):
    return op[1][0] if op[0] in ("c", "m") else None


class Lost(Exception):
    pass


class Flow:
    """path search from one call; tracked: local -> kind, where kind is
    'val' the value itself, 'ref' a reference to it, 'opt' an Option whose None is the failure, 'opterr' an Option whose Some is,
    'pay' the payload of the failure, ('d', bad) its discriminant (bad: value meaning failure), ('b', bad) a boolean"""

    def __init__(self, prog, fn):
        self.prog, self.fn, self.b = prog, fn, fn.body

    def run(self, bb, local, kind="val"):
        return self.go(bb, 0, {local: kind}, set())

    def go(self, bb, at, tr, seen):
        work = [(bb, at, tr)]
        while work:
            bb, at, tr = work.pop()
            key = (bb, at, tuple(sorted(tr.items(), key=str)))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 20000:
                raise Lost("too many states")
            r = self.block(bb, at, dict(tr))
            if r is True:
                continue
            if isinstance(r, str):
                return r
            work += [(x, 0, t) for x, t in r]
        return None

    def bad_discr(self, local, kind):
        """discriminant value that means failure; None: cannot be told"""
        if kind == "opt":
            return 0
        if kind == "opterr":
            return 1
        t = self.b.locals[local]
        while isinstance(t, tuple) and t[0] == "ref":
            t = t[2]
        if adt(t, RES) or adt(t, CF):
            return 1
        if adt(t, OPT):
            return ("some",)            # Some(Result): go on with it
        return None

    def block(self, bb, at, tr):
        st, term, _ = self.b.blocks[bb]
        for s in st[at:]:
            if s[0] != "=":
                continue
            dst, rv = s[1], s[2]
            if rv[0] == "agg" and rv[1] == "adt" and rv[2] == RES and rv[3] == 1:
                return True             # an error is built
            if rv[0] == "agg" and rv[1] == "adt" and rv[2] == CF and rv[3] == 1:
                return True
            hit = [o for o in places(rv) if base(o) in tr]
            if rv[0] == "agg" and rv[1] == "tuple" and len(hit) == 1 and len(dst) == 1 and dst[0] and tr[base(hit[0])] in ("val", "ref", "opt", "opterr"):
                tr[dst[0]] = ("agg", rv[5].index(hit[0]), base(hit[0]), tr[base(hit[0])])
                tr.pop(base(hit[0]))
                continue
            pl = rv[1] if rv[0] == "discr" else rv[2] if rv[0] == "ref" else hit[0][1] if hit and rv[0] == "use" else None
            if pl is not None and pl[0] in tr and tr[pl[0]][0] == "agg":
                # a tuple holding the value: its field is the value
                g = tr[pl[0]]
                if len(pl) < 2:
                    return True
                if pl[1] != g[1]:
                    if rv[0] != "discr" and len(dst) == 1:
                        tr.pop(dst[0], None)
                    continue
                tr[g[2]] = g[3]
                pl = (g[2],) + pl[2:]
                if rv[0] == "discr":
                    rv = ("discr", pl)
                elif rv[0] == "ref":
                    rv = ("ref", rv[1], pl)
                else:
                    rv = ("use", (rv[1][0], pl))
                    hit = [rv[1]]
            if rv[0] == "discr" and rv[1][0] in tr:
                k = tr[rv[1][0]]
                proj = [p for p in rv[1][1:] if p != "*"]
                if proj:
                    # discriminant of a part: (opt as Some).0
                    tr[dst[0]] = ("d", 1)
                else:
                    tr[dst[0]] = ("d", self.bad_discr(rv[1][0], k))
                continue
            if rv[0] == "ref" and rv[2][0] in tr:
                k = tr[rv[2][0]]
                if len(dst) == 1:
                    proj = [p for p in rv[2][1:] if p != "*"]
                    tr[dst[0]] = "payref" if (proj and k == "val") or k in ("pay", "payref") else k if k in ("opt", "opterr") else "ref"
                    continue
                return True
            if rv[0] == "un" and hit:
                k = tr[base(hit[0])]
                if isinstance(k, tuple) and k[0] == "b" and len(dst) == 1:
                    tr[dst[0]] = ("b", 1 - k[1])
                    continue
            if hit:
                k = tr[base(hit[0])]
                proj = [p for p in hit[0][1][1:] if p != "*"]
                if len(dst) == 1 and rv[0] in ("use", "cast") and dst[0] != 0:
                    if isinstance(k, tuple) or not proj:
                        tr[dst[0]] = k
                        if hit[0][0] == "m" and not proj:
                            tr.pop(base(hit[0]), None)
                    else:
                        # a payload: of Some(..) the value itself, of Err/Break the payload
                        var = proj[0][1] if isinstance(proj[0], tuple) and len(proj[0]) > 1 else None
                        t = self.b.locals[dst[0]]
                        if carries(t):
                            tr[dst[0]] = "val"
                        else:
                            tr[dst[0]] = "pay"
                    continue
                return True             # stored, returned, captured, put in an aggregate
            if len(dst) == 1 and dst[0] in tr and not isinstance(tr[dst[0]], tuple):
                if tr[dst[0]] in ("val", "opt", "opterr") and not any(k in ("val", "opt", "opterr") for x, k in tr.items() if x != dst[0]):
                    return "overwritten at line %s" % s[3]
                tr.pop(dst[0])
            elif len(dst) == 1 and dst[0] in tr:
                tr.pop(dst[0])
        return self.term(bb, term, tr)

    def term(self, bb, t, tr):
        k = t[0]
        if k == "return":
            return "a path returns without using it"
        if k in ("goto", "drop", "assert"):
            return [(x, tr) for x in self.b.succs(bb)]
        if k == "switch":
            b = base(t[1])
            kk = tr.get(b)
            if isinstance(kk, tuple):
                bad = kk[1]
                if bad is None:
                    return True
                if isinstance(bad, tuple):          # Some(..) of an Option<Result>
                    bad = 1
                tgt = dict(t[2]).get(bad, t[3])
                others = [x for v, x in t[2] if v != bad]
                tr = {x: y for x, y in tr.items() if x != b}
                return [(tgt, tr)]
            return [(x, tr) for x in self.b.succs(bb)]
        if k == "call":
            return self.call(bb, t, tr)
        return []

    def call(self, bb, t, tr):
        p, f = callee(t)
        args = [a for a in t[2] if base(a) in tr]
        dst, nxt = t[3], t[4]
        if nxt is None:
            return []
        if p is not None and p.endswith("FromResidual::from_residual"):
            return True
        if not args:
            if len(dst) == 1 and dst[0] in tr:
                if tr[dst[0]] in ("val", "opt", "opterr"):
                    return "overwritten by a later call"
                tr.pop(dst[0])
            return [(nxt, tr)]
        kind = tr[base(args[0])]
        if isinstance(kind, tuple):
            return True
        if p is None:
            return True
        name = p.split("::")[-1]
        first = base(t[2][0]) in tr if t[2] else False
        if p in DROPPING:
            return "discarded by %s" % name
        if kind in ("pay", "payref"):
            if kind == "payref" and ("fmt" in p or name in ("fmt", "to_string")):
                return [(nxt, tr)]
            if kind == "payref" and name in ("deref", "clone", "as_ref"):
                return True
            return True
        std = p.startswith("core::result::Result::") or p.startswith("core::option::Option::")
        if not first or not (std or p.endswith("IntoIterator::into_iter")):
            if kind == "ref" and "fmt::" in p:
                return [(nxt, tr)]
            return True
        isopt = kind in ("opt", "opterr")
        if name in ("is_ok", "is_some", "is_err", "is_none") and len(dst) == 1:
            fail_true = (name in ("is_err", "is_none")) if kind != "opterr" else name == "is_some"
            tr[dst[0]] = ("b", 1 if fail_true else 0)
            return [(nxt, tr)]
        if name in ("as_ref", "as_mut", "as_deref", "copied", "cloned") and len(dst) == 1:
            tr[dst[0]] = kind if isopt else "val"
            return [(nxt, tr)]
        if name == "ok" and not isopt:
            if len(dst) != 1 or dst[0] == 0:
                return True
            tr = {x: y for x, y in tr.items() if x != base(args[0])}
            tr[dst[0]] = "opt"
            return [(nxt, tr)]
        if name == "err" and not isopt:
            if len(dst) != 1 or dst[0] == 0:
                return True
            tr = {x: y for x, y in tr.items() if x != base(args[0])}
            tr[dst[0]] = "opterr"
            return [(nxt, tr)]
        if isopt and name in ("map", "and_then", "filter", "cloned", "copied", "flatten", "inspect") and len(dst) == 1 and dst[0] != 0:
            tr[dst[0]] = kind
            return [(nxt, tr)]
        if name in ("or_else", "unwrap_or_else", "map_or_else"):
            # the handler must not make a success of it
            h = None
            for a in t[2][1:2]:
                ty = self.b.locals[base(a)] if a[0] in ("c", "m") else a[1].t
                h = closure_of(self.prog, ty)
            if h is not None and not returns(h):
                return True
            if name != "unwrap_or_else" and h is not None and adt(h.ret if h.ret else h.body.locals[0], RES) and not builds_ok(h):
                return True
            if name == "unwrap_or_else" and h is not None and carries(h.body.locals[0]) and not builds_ok(h):
                return True
            return "turned into a success by %s" % name
        if name == "map_or" and carries(self.b.locals[dst[0]] if len(dst) == 1 else None):
            d = t[2][1]
            return True if not self.is_ok_value(bb, d) else "turned into a success by map_or"
        if name in DEFAULTING or name == "into_iter":
            return "turned into a success by %s" % name
        return True

    def is_ok_value(self, bb, op):
        b = base(op)
        for st, t, c in self.b.blocks:
            for s in st:
                if s[0] == "=" and s[1] == (b,) and s[2][0] == "agg" and s[2][2] == RES and s[2][3] == 0:
                    return True
        return False


LOSSY_FN = ("core::result::Result::ok", "core::result::Result::unwrap_or", "core::result::Result::unwrap_or_default", "core::result::Result::is_ok",
            "core::result::Result::into_iter", "core::result::Result::iter", "core::mem::drop")


def has_result(t, d=0):
    if d > 8 or not isinstance(t, tuple):
        return False
    if t[0] == "adt":
        return (t[1] == RES and fallible(t[2][1])) or any(has_result(x, d + 1) for x in t[2])
    if t[0] in ("ref", "ptr"):
        return has_result(t[2], d + 1)
    if t[0] == "tuple":
        return any(has_result(x, d + 1) for x in t[1])
    if t[0] == "closure":
        return any(has_result(x, d + 1) for x in t[2])
    return False


def item_result(prog, f):
    """does an iterator adaptor call handle items that are tracked results?"""
    for a in f.a:
        if carries(a) == "res":
            return True
        c = closure_of(prog, a)
        if c is not None and carries(c.body.locals[0]) == "res":
            return True
        if isinstance(a, tuple) and a[0] == "adt" and ("iter" in a[1]):
            for x in a[2]:
                if carries(x) == "res":
                    return True
                c = closure_of(prog, x)
                if c is not None and a[1].endswith("::Map") and carries(c.body.locals[0]) == "res":
                    return True
    return False


def check_fn(rep, prog, f, tag):
    b = f.body
    name = f.path
    seen = {}
    reach, work = set(), [0]
    while work:
        x = work.pop()
        if x not in reach:
            reach.add(x)
            work += b.succs(x)
    for bi in sorted(reach):
        st, t, cleanup = b.blocks[bi]
        consts = [o for s in st if s[0] == "=" for o in places(s[2])]
        if t[0] == "call":
            consts += list(t[2])
        for o in consts:
            if o[0] == "k":
                v = o[1].v if isinstance(o[1].v, FnDef) else o[1].t if isinstance(o[1].t, FnDef) else None
                if v is not None and v.p in LOSSY_FN and any(carries(x) == "res" for x in v.a) | (v.p.startswith("core::result") and len(v.a) > 1 and fallible(v.a[1])):
                    rep.bad("%s: %s used as a function" % (name, v.p.split("::")[-1]), "failures are turned into successes", "%s (%s)" % (name, f.file))
        if t[0] != "call" or t[4] is None:
            continue
        p, fd = callee(t)
        if fd is not None and p.split("::")[-1] in ITER_LOSSY and ("iter" in p) and item_result(prog, fd):
            rep.bad("%s: %s over results" % (name, p.split("::")[-1]), "failing items are dropped", "%s (%s:%s)" % (name, f.file, t[6]))
        dst = t[3]
        if len(dst) != 1 or dst[0] == 0:
            if len(dst) != 1:
                continue
            ty = b.locals[0]
            if carries(ty):
                rep.count("results_returned")
            continue
        ty = b.locals[dst[0]]
        k = carries(ty)
        if k is None:
            continue
        if p is not None and (p.endswith("FromResidual::from_residual")):
            continue
        short = (p or "call").split("::")
        what = "::".join(short[-2:])
        n = seen[what] = seen.get(what, 0) + 1
        key = "%s %s: result of %s #%d" % (tag, name, what, n)
        rep.count("call_sites")
        try:
            r = Flow(prog, f).run(t[4], dst[0])
        except Lost as e:
            rep.und(key, str(e))
            continue
        if r is None:
            rep.ok(key)
        else:
            rep.bad("%s: result of %s #%d" % (name, what, n), "the failure is lost: %s" % r, "%s (%s:%s)" % (name, f.file, t[6]))


def check(rep, prog, tag):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if not f.j.get("body"):
            continue
        # formatting impls report fmt::Error only
        rep.fns.add(f.path)
        rep.attempt("%s %s" % (tag, f.path), lambda: check_fn(rep, prog, f, tag))


SHORT_IO = ("Write::write", "Write::write_vectored", "Read::read", "Read::read_vectored", "Write::write_buf", "Read::read_buf")


def count_used(prog, f, bi):
    """is the number of bytes a partial read or write reports ever looked at?"""
    b = f.body
    tr = {b.blocks[bi][1][3][0]}
    if 0 in tr:
        return True
    for _ in range(6):
        for st, t, c in b.blocks:
            if c:
                continue
            for s in st:
                if s[0] != "=":
                    continue
                hit = any(base(o) in tr for o in places(s[2])) or (s[2][0] in ("ref", "discr") and s[2][-1][0] in tr)
                if not hit or s[2][0] == "discr":
                    continue
                if s[2][0] not in ("use", "cast", "ref") or len(s[1]) > 1:
                    return True
                tr.add(s[1][0])
            if t[0] == "switch" and base(t[1]) in tr and b.locals[base(t[1])] in ("usize", "bool"):
                return True
            if t[0] == "call":
                h = [a for a in t[2] if base(a) in tr]
                p = callee(t)[0] or ""
                if not h:
                    continue
                if any(b.locals[base(a)] in ("usize", ("ref", False, "usize")) for a in h) and "fmt" not in p:
                    return True
                n = p.split("::")[-1]
                if n in ("branch", "unwrap", "expect", "map_err", "ok", "unwrap_or_default") and len(t[3]) == 1:
                    tr.add(t[3][0])
                elif n in ("map", "and_then") and len(t[2]) > 1 and ignores_arg(prog, b, t[2][1]):
                    pass
                elif n not in ("from_residual", "drop", "is_ok", "is_err"):
                    return True
    return 0 in tr


def ignores_arg(prog, b, op):
    c = closure_of(prog, b.locals[base(op)] if base(op) is not None else op[1].t)
    if c is None:
        return False
    txt = [o for st, t, cl in c.body.blocks for s in st if s[0] == "=" for o in places(s[2])]
    txt += [a for st, t, cl in c.body.blocks if t[0] == "call" for a in t[2]]
    refs = [s[2][2][0] for st, t, cl in c.body.blocks for s in st if s[0] == "=" and s[2][0] == "ref"]
    return not any(base(o) == 2 for o in txt) and 2 not in refs


def partial_io(rep, prog, tag, which):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if not f.j.get("body"):
            continue
        n = 0
        for bi, (st, t, c) in enumerate(f.body.blocks):
            if t[0] != "call" or c:
                continue
            p = callee(t)[0] or ""
            if not p.startswith(("core::io", "alloc::io", "std::io")):
                continue
            kind = next((x for x in SHORT_IO if p.endswith(x)), None)
            if kind is None:
                if which in p:
                    rep.count("complete_io_calls")
                continue
            if not kind.startswith(which):
                continue
            n += 1
            key = "%s: count reported by %s #%d" % (f.path, kind, n)
            if t[4] is not None and len(t[3]) == 1 and not count_used(prog, f, bi):
                rep.bad(key, "a partial transfer is taken for a complete one", "%s (%s:%s)" % (f.path, f.file, t[6]))
            else:
                rep.und(key, "partial transfers are not followed")
    rep.ok("%s: no partial %ss" % (tag, which.lower()))
