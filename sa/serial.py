"""Reading and writing of proofs and keys (C22-C24): the byte stream is a sequence of opaque point encodings and raw bytes; every read may
fail, every encoding may be invalid, every point may be the identity (free conditions)."""
from snark import *
import interp

READ, WRITE = ("std::io::Read", "alloc::io::read::Read", "core::io::read::Read"), ("std::io::Write", "core::io::write::Write", "alloc::io::write::Write")
LIMIT = 1 << 16          # elements that may be reserved ahead
READER, WRITER = Opq("reader"), Opq("writer")


class Hostile(Exception):
    pass


class IoEnv(SnarkEnv):
    summary = False
    stream = None            # round trip: list of tokens; None: hostile input
    lens = ()                # hostile: values of the successive length prefixes
    eof = None               # hostile: number of the read from which on every read fails
    wfail = False            # writes may fail
    hot = None               # hostile: only the reads and points numbered here may be bad

    def start(self, I):
        super().start(I)
        interp.SPLIT_GE = True
        self.reads = []      # (what, pc)
        self.writes = []     # (tokens, pc)
        self.decodes = []
        self.pos = 0
        self.nlen = 0
        self.reserved = []
        self.bad = None
        self.oks = {}

    def group_zero_test(self, g):
        if g.g == "Gt":
            return super().group_zero_test(g)
        if self.hot is not None and self.stream is not None:
            return False
        if self.hot is not None and g.t and all(k[0] == "pt" and k[1] not in self.hot for k in g.t if isinstance(k, tuple)):
            return False
        return None

    def alloc_hint(self, I, n):
        ns = [n] if isinstance(n, int) else [x for _, x in I.ivals(n)]
        for x in ns:
            if x > LIMIT:
                self.reserved.append((x, str(I.site())))
                raise Hostile("reserves space for %d elements claimed by the input" % x)

    # --------------------------------------------------------------- reading
    def fails(self, n):
        if self.stream is not None:
            return False
        if self.eof is not None and n >= self.eof:
            return True
        if self.hot is not None and n not in self.hot:
            return False
        return M.batom(("io", n))

    def result(self, n, good):
        """Result of the n-th read"""
        I = self.I
        bad = ERR(Opq("ioerr", "read %d" % n))
        f = self.fails(n)
        if f is True:
            return bad
        if f is False:
            return OK(good())
        return I.ite(f, lambda: bad, lambda: OK(good()))

    def take(self, what):
        n = len(self.reads)
        self.reads.append((what, self.I.pc))
        return n

    def read_exact(self, buf):
        I = self.I
        cur = I.strip(buf)
        if isinstance(cur, Seq):
            k = len(cur.i)
            if k == 4:
                n = self.take("u32")

                def fill():
                    M.wslice(I, buf, list(self.bytes4()))
                    return UNIT
                return self.result(n, fill)
            raise Unsupported("read of %d bytes" % k)
        if not isinstance(cur, Opq) or cur.k[0] != "repr":
            raise Unsupported("read into %r" % (cur,))
        n = self.take("point")

        def fill():
            r = buf
            while isinstance(I.rget(r), (Ref, Ptr)):
                r = I.rget(r)
            I.rset(r, self.token(n))
            return UNIT
        return self.result(n, fill)

    def token(self, n):
        if self.stream is None:
            return Opq("enc", n)
        if self.pos >= len(self.stream):
            raise Unsupported("end of the stream")
        t = self.stream[self.pos]
        self.pos += 1
        if isinstance(t, int):
            self.bad = "a point is read where a length was written"
            raise Hostile(self.bad)
        return t

    def bytes4(self):
        if self.stream is None:
            v = self.lens[self.nlen] if self.nlen < len(self.lens) else 0
            self.nlen += 1
            return v.to_bytes(4, "big")
        out = self.stream[self.pos:self.pos + 4]
        self.pos += 4
        if len(out) != 4 or any(not isinstance(x, int) for x in out):
            self.bad = "a length is read where a point was written"
            raise Hostile(self.bad)
        return out

    def decode(self, mode, t, arg):
        """CtOption of decoding"""
        I = self.I
        g = M.gname(t)
        g = g.replace("Affine", "")
        v = I.strip(arg)
        if isinstance(v, U):
            return I.cases([(c, lambda x=x: self.decode(mode, t, x)) for c, x in v.a])
        if isinstance(v, Opq) and v.k[0] == "repr":
            v = Opq("enc", "unread")
        if not isinstance(v, Opq) or v.k[0] not in ("enc", "wenc"):
            raise Unsupported("decoding %r" % (v,))
        self.decodes.append((mode, g, v))
        if v.k[0] == "wenc":
            kind, e = v.k[1], v.k[2]
            same = kind == ("bytes" if "bytes" in mode else "uncompressed") and e.g == g
            if not same:
                self.bad = "a %s encoding of %s is decoded as %s of %s" % (kind, e.g, mode, g)
                raise Hostile(self.bad)
            return Adt("subtle::CtOption", 0, (e, True))
        ok = True if self.hot is not None and isinstance(v.k[1], int) and v.k[1] not in self.hot else M.batom(("valid", v.k[1], mode, g))
        return Adt("subtle::CtOption", 0, (GE.base(g, ("pt", v.k[1])), ok))

    # --------------------------------------------------------------- writing
    def emit(self, toks):
        I = self.I
        n = len(self.writes)
        self.writes.append((list(toks), I.pc))
        if not self.wfail:
            return OK(UNIT)
        return I.ite(M.batom(("wio", n)), lambda: ERR(Opq("ioerr", "write %d" % n)), lambda: OK(UNIT))

    def write_all(self, v):
        v = self.I.strip(v)
        if isinstance(v, Seq):
            v = [self.I.strip(x) for x in v.i]
            if any(not isinstance(x, int) for x in v):
                raise Unsupported("bytes written")
            return self.emit(v)
        if isinstance(v, Opq) and v.k[0] == "wenc":
            return self.emit([v])
        raise Unsupported("write of %r" % (v,))

    # --------------------------------------------------------------- hooks
    def default(self, t):
        if isinstance(t, tuple) and t[0] == "proj" and t[2] in ("Repr", "Uncompressed"):
            return Opq("repr", M.gname(t[3][0]), t[2])
        return super().default(t)

    def trait_call(self, f, args):
        I = self.I
        if f.tr in READ:
            if I.strip(args[0]) != READER:
                raise Unsupported("another reader")
            if f.n == "read_exact":
                return self.read_exact(args[1])
            if f.n == "by_ref":
                return args[0]
            raise Unsupported("Read::%s" % f.n)
        if f.tr in WRITE:
            if I.strip(args[0]) != WRITER:
                raise Unsupported("another writer")
            if f.n == "write_all":
                return self.write_all(args[1])
            if f.n == "flush":
                return OK(UNIT)
            if f.n == "by_ref":
                return args[0]
            raise Unsupported("Write::%s" % f.n)
        if f.tr in ("byteorder::io::ReadBytesExt", "byteorder::ReadBytesExt"):
            end = M.tstr(f.a)
            if f.n != "read_u32":
                raise Unsupported(f.n)
            n = self.take("u32")
            return self.result(n, lambda: int.from_bytes(bytes(self.bytes4()), "big" if "BigEndian" in end else "little"))
        if f.tr in ("byteorder::io::WriteBytesExt", "byteorder::WriteBytesExt"):
            end = M.tstr(f.a)
            if f.n != "write_u32":
                raise Unsupported(f.n)
            v = I.strip(args[1])
            if not isinstance(v, int):
                raise Unsupported("length %r" % (v,))
            return self.emit(list(v.to_bytes(4, "big" if "BigEndian" in end else "little")))
        if f.tr in ("group::GroupEncoding", "group::UncompressedEncoding"):
            if f.n in ("to_bytes", "to_uncompressed"):
                e = I.strip(args[0])
                return Opq("wenc", f.n[3:], GE(e.g, dict(e.t)))
            return self.decode(f.n, f.a[0], args[0])
        return super().trait_call(f, args)


class IRun(SRun):
    def __init__(self, prog, **kw):
        ring.rules.clear()
        self.prog = prog
        self.env = IoEnv(BLS_R)
        for k, v in kw.items():
            setattr(self.env, k, v)
        self.I = mkrun(prog, self.env, 10 ** 9)


def results(I, r):
    out = []
    for c, v in flat(TRUE, I.strip(r)):
        v = I.strip(v)
        if isinstance(v, Adt) and v.p.endswith("Result"):
            if v.v == 0:
                out.append((c, "ok", v.f[0]))
            else:
                for d, e in flat(c, I.strip(v.f[0])):
                    e = I.strip(e)
                    if not (isinstance(e, Opq) and e.k[0] == "ioerr"):
                        raise Unsupported("error %r" % (e,))
                    out.append((d, "err", e.k[1]))
        else:
            raise Unsupported("not a Result: %r" % (v,))
    return out


def irun(rep, key, R, fn, where):
    try:
        r = fn()
    except Diverge:
        pn = R.real_panics()
        rep.bad(key, "panics: %s" % (pn and pn[0][0]), pn and str(pn[0][2]) or where)
        return None
    except Hostile as e:
        rep.bad(key, str(e), R.env.reserved and R.env.reserved[0][1] or where)
        return None
    finally:
        rep.seen(R.I)
    if R.real_panics():
        pn = R.real_panics()[0]
        rep.bad(key, "may panic: %s" % pn[0], str(pn[2]))
        return None
    return results(R.I, r)


# ---------------------------------------------------------------- the documented formats
VKF = [("alpha_g1", "G1"), ("beta_g1", "G1"), ("beta_g2", "G2"), ("gamma_g2", "G2"), ("delta_g1", "G1"), ("delta_g2", "G2")]
QF = [("h", "G1"), ("l", "G1"), ("a", "G1"), ("b_g1", "G1"), ("b_g2", "G2")]


def layout(what, n):
    """[(field, index or None, group)] and lengths inline: ("len", field)"""
    if what == "Proof":
        return [("a", None, "G1"), ("b", None, "G2"), ("c", None, "G1")]
    out = [(f, None, g) for f, g in VKF] + [("len", "ic", n["ic"])] + [("ic", i, "G1") for i in range(n["ic"])]
    if what == "Parameters":
        for q, g in QF:
            out += [("len", q, n[q])] + [(q, i, g) for i in range(n[q])]
    return out


def get(R, what, v, field, i):
    if what == "Parameters" and field not in [q for q, _ in QF]:
        v = R.field(v, "vk")
    x = R.field(v, field)
    if i is None:
        return x
    s = R.I.seq(x).i
    return R.I.strip(s[i]) if i < len(s) else None


def sizes_of(R, what, v):
    if what == "Proof":
        return {}
    vk = R.field(v, "vk") if what == "Parameters" else v
    out = {"ic": len(R.I.seq(R.field(vk, "ic")).i)}
    if what == "Parameters":
        for q, g in QF:
            out[q] = len(R.I.seq(R.field(v, q)).i)
    return out


def read(R, what, checked):
    args = [READER] + ([checked] if what == "Parameters" else [])
    return R.fn("groth16::%s::read" % what, *args)


def label(what, n, checked):
    return "%s%s%s" % (what, " with %s" % ", ".join("%s=%d" % x for x in sorted(n.items())) if n else "", "" if checked is None else
                       ", %s" % ("checked" if checked else "unchecked"))


def conds(what, n, checked, i, group, field, mode_ok):
    pass


# ---------------------------------------------------------------- C22
def check_read(rep, prog, what, n, checked, hot=None):
    """every acceptance condition of the reader on hostile input"""
    key = "reading " + label(what, n, checked) + (", bad input only at %s" % (sorted(hot),) if hot else "")
    where = "groth16::%s::read" % what
    lay = layout(what, n)
    R = IRun(prog, lens=tuple(x[2] for x in lay if x[0] == "len"), hot=hot)
    o = irun(rep, key, R, lambda: read(R, what, checked), where)
    if o is None:
        return
    hot = set(range(len(lay))) if hot is None else hot
    if len(R.env.reads) != len(lay):
        return rep.bad(key, "%d reads, expected %d" % (len(R.env.reads), len(lay)), where)
    okc = FALSE
    for c, k, v in o:
        if k == "ok":
            okc = bdd.or_(okc, c)
    nq = {}
    bad = None
    for c, k, v in o:
        if k == "ok":
            if sizes_of(R, what, v) != n:
                bad = bad or "an accepted value has %r elements, the input %r" % (sizes_of(R, what, v), n)
                continue
            for j, (f, i, g) in enumerate(lay):
                if f == "len":
                    continue
                e = get(R, what, v, f, i)
                if not isinstance(e, GE) or not same_ge(e, GE.base(g, ("pt", j))):
                    bad = bad or "%s%s is %.100r, not the element read at position %d" % (f, "" if i is None else "[%d]" % i, e, j)
    if bad:
        return rep.bad(key, bad, where)

    def atomn(k):
        return bdd.atom(k)
    full = TRUE
    for j, x in enumerate(lay):
        if j in hot:
            full = bdd.and_(full, bdd.not_(atomn(("io", j))))
        if x[0] == "len":
            continue
        f, i, g = x
        query = what == "Parameters" and f in [q for q, _ in QF]
        strong = "from_bytes" if what == "Proof" else "from_uncompressed"
        weak = "from_uncompressed_unchecked"
        mode = weak if query and not checked else strong
        if j not in hot:
            if not any(mo in (mode, strong) and gg == g and vv.k == ("enc", j) for mo, gg, vv in R.env.decodes):
                return rep.bad(key, "%s[%s] is not decoded with %s" % (f, i, mode), where)
            continue
        v = atomn(("valid", j, mode, g))
        sv = atomn(("valid", j, strong, g))
        # checked validity implies unchecked validity
        nme = "%s%s" % (f, "" if i is None else "[%d]" % i)
        if bdd.and_(okc, bdd.not_(v)) != FALSE and bdd.and_(okc, bdd.not_(sv)) != FALSE:
            return rep.bad(key, "an input is accepted although %s did not pass %s" % (nme, mode), where)
        idn = atomn(("gz", g, ("pt", j)))
        must = what == "Proof" or f == "ic" or query
        if must and bdd.and_(okc, idn) != FALSE:
            return rep.bad(key, "an input is accepted although %s is the identity" % nme, where)
        full = bdd.and_(full, bdd.and_(bdd.and_(v, sv), bdd.not_(idn)))
    if bdd.and_(full, bdd.not_(okc)) != FALSE:
        return rep.bad(key, "an input with only valid, non-identity points is refused", where)
    allio = TRUE
    for j in sorted(hot):
        allio = bdd.and_(allio, bdd.not_(atomn(("io", j))))
    for c, k, v in o:
        if k == "err" and not v.startswith("read ") and v != "InvalidData":
            return rep.bad(key, "bad points are reported as %s" % v, where)
        if k == "err" and v.startswith("read ") and bdd.and_(c, allio) != FALSE:
            return rep.bad(key, "a read error is reported although no read failed", where)
        if k == "ok" and bdd.and_(c, bdd.not_(allio)) != FALSE:
            return rep.bad(key, "a value is returned although a read failed", where)
    for j, (w, pc) in enumerate(R.env.reads):
        if bdd.and_(okc, bdd.not_(pc)) != FALSE:
            return rep.bad(key, "accepted inputs exist for which read %d is skipped" % j, where)
    rep.ok(key)


# ---------------------------------------------------------------- C23
def sample(R, what, n):
    b = lambda g, *k: GE.base(g, k)
    if what == "Proof":
        return adt(R.prog, "groth16::Proof", {"a": b("G1", "pa"), "b": b("G2", "pb"), "c": b("G1", "pc")})
    vk = {f: b(g, f) for f, g in VKF}
    vk["ic"] = Seq([b("G1", "ic", i) for i in range(n["ic"])])
    vk = adt(R.prog, "groth16::VerifyingKey", vk)
    if what == "VerifyingKey":
        return vk
    q = {x: Ptr("Arc", R.I.cell(Seq([b(g, x, i) for i in range(n[x])]))) for x, g in QF}
    q["vk"] = vk
    return adt(R.prog, "groth16::Parameters", q)


def check_roundtrip(rep, prog, what, n, checked):
    key = "writing and reading " + label(what, n, checked)
    W = IRun(prog)
    where = "groth16::%s::write" % what
    v = sample(W, what, n)
    o = irun(rep, key, W, lambda: W.fn(where, W.I.ref(v), WRITER), where)
    if o is None:
        return
    if len(o) != 1 or o[0][1] != "ok":
        return rep.bad(key, "writing returns %r" % (o,), where)
    toks = [t for ts, pc in W.env.writes for t in ts]
    want = []
    for f, i, g in layout(what, n):
        if f == "len":
            want += list(g.to_bytes(4, "big"))
        else:
            want.append(("bytes" if what == "Proof" else "uncompressed", get(W, what, v, f, i)))
    d = None
    if len(toks) != len(want):
        d = "%d items are written, the format has %d" % (len(toks), len(want))
    else:
        for j, (t, w) in enumerate(zip(toks, want)):
            if isinstance(w, int):
                if t != w:
                    d = d or "item %d is %r, expected the length byte %d" % (j, t, w)
            elif not isinstance(t, Opq) or t.k[1] != w[0] or not same_ge(t.k[2], w[1]) or t.k[2].g != w[1].g:
                d = d or "item %d is %.150r, expected the %s encoding of %.100r" % (j, t, w[0], w[1])
    rep.verdict(key + " (format)", d is None, d, where)
    R = IRun(prog, stream=toks)
    if len(toks) > 400:
        R.env.hot = ()
    rw = "groth16::%s::read" % what
    try:
        o = irun(rep, key, R, lambda: read(R, what, checked), rw)
    except Unsupported as e:
        if "end of the stream" in str(e):
            return rep.bad(key, "the reader wants more than was written", rw)
        raise
    if o is None:
        return
    d = None
    noid = TRUE
    for f, i, g in layout(what, n):
        if f != "len" and R.env.hot is None:
            k, = get(W, what, v, f, i).t
            noid = bdd.and_(noid, bdd.not_(bdd.atom(("gz", g, k))))
    o = [x for x in o if bdd.and_(x[0], noid) != FALSE]
    if len(o) != 1 or o[0][1] != "ok":
        d = "reading back returns %.200r" % (o,)
    elif R.env.pos != len(toks):
        d = "only %d of %d items are read back" % (R.env.pos, len(toks))
    elif sizes_of(R, what, o[0][2]) != n:
        d = "%r elements are read back, %r were written" % (sizes_of(R, what, o[0][2]), n)
    else:
        for f, i, g in layout(what, n):
            if f != "len":
                x, y = get(R, what, o[0][2], f, i), get(W, what, v, f, i)
                if not same_ge(x, y):
                    d = d or "%s%s comes back as %.150r" % (f, "" if i is None else "[%d]" % i, x)
    rep.verdict(key, d is None, d, rw)


def check_write_errors(rep, prog, what, n):
    key = "failing writes of " + label(what, n, None)
    W = IRun(prog, wfail=True)
    where = "groth16::%s::write" % what
    v = sample(W, what, n)
    o = irun(rep, key, W, lambda: W.fn(where, W.I.ref(v), WRITER), where)
    if o is None:
        return
    okc = FALSE
    for c, k, e in o:
        if k == "ok":
            okc = bdd.or_(okc, c)
    for j in range(len(W.env.writes)):
        if bdd.and_(okc, bdd.atom(("wio", j))) != FALSE:
            return rep.bad(key, "success is reported although write %d fails" % j, where)
    rep.ok(key)


# ---------------------------------------------------------------- C24
def check_hostile(rep, prog, what, lens, eof, checked):
    key = "hostile %s, length prefixes %r, ends at read %s%s" % (what, list(lens), eof, "" if checked is None else ", checked" if checked else ", unchecked")
    where = "groth16::%s::read" % what
    R = IRun(prog, lens=tuple(lens), eof=eof)
    o = irun(rep, key, R, lambda: read(R, what, checked), where)
    if o is None:
        return
    rep.verdict(key, all(k == "err" for c, k, v in o), "a value is returned for a truncated input", where)


# ---------------------------------------------------------------- C31
class EqEnv(IoEnv):
    def group_zero_test(self, g):
        if g.is_id():
            return True
        a, b = repr(sorted(g.nz().items(), key=repr)), repr(sorted((-g).nz().items(), key=repr))
        return M.batom(("eq", g.g, min(a, b)))


def tagged(R, what, n, tag, over=()):
    b = lambda g, *k: GE.base(g, k + (("shared",) if k not in over else (tag,)))
    if what == "Proof":
        return adt(R.prog, "groth16::Proof", {"a": b("G1", "a", None), "b": b("G2", "b", None), "c": b("G1", "c", None)})
    vk = {f: b(g, f, None) for f, g in VKF}
    vk["ic"] = Seq([b("G1", "ic", i) for i in range(n["ic"])])
    vk = adt(R.prog, "groth16::VerifyingKey", vk)
    if what == "VerifyingKey":
        return vk
    q = {x: Ptr("Arc", R.I.cell(Seq([b(g, x, i) for i in range(n[x])]))) for x, g in QF}
    q["vk"] = vk
    return adt(R.prog, "groth16::Parameters", q)


def check_eq(rep, prog, what, n, m, mode):
    """mode: "all" = every component free on both sides, else the list of components that may differ"""
    key = "equality of %s (sizes %s and %s), %s" % (what, n, m, "all components free" if mode == "all" else "%s differ" % (mode,))
    where = "<groth16::%s as PartialEq>::eq" % what
    T = ("adt", "groth16::" + what, (ET,))
    lay = [x for x in layout(what, n) if x[0] != "len"]
    over = {(f, i) for f, i, g in lay} if mode == "all" else {tuple(x) for x in mode}
    over |= {(f, i) for f, i, g in layout(what, m) if f != "len"} if mode == "all" else set()
    for op in ("eq", "ne"):
        ring.rules.clear()
        R = IRun.__new__(IRun)
        R.prog, R.env = prog, EqEnv(BLS_R)
        R.I = mkrun(prog, R.env, 10 ** 9)
        x, y = tagged(R, what, n, "left", over), tagged(R, what, m, "right", over)
        try:
            r = R.I.call_trait("core::cmp::PartialEq", op, T, [R.I.ref(x), R.I.ref(y)], (T,))
        except Diverge:
            rep.bad(key, "comparison panics", where)
            return
        finally:
            rep.seen(R.I)
        want = TRUE
        if n != m:
            want = FALSE
        else:
            for f, i, g in lay:
                a, b = get(R, what, x, f, i), get(R, what, y, f, i)
                want = bdd.and_(want, M.bn(M.veq(R.I, a, b)))
        got = TRUE
        for c, v in flat(TRUE, R.I.strip(r)):
            got = bdd.and_(got, bdd.or_(bdd.not_(c), M.bn(v)))
        if op == "ne":
            got = bdd.not_(got)
        if got != want:
            d = bdd.xor(got, want)
            return rep.bad(key, "%s is %s under %s" % (op, "equal" if bdd.and_(d, got) != FALSE else "different", bdd.show(d)[:200]), where)
    rep.ok(key)
