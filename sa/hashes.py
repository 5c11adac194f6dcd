"""SHA-256 and BLAKE2s gadgets against the standards, bit by bit."""
import time
from ops import *

# ------------------------------------------------------------------ reference specifications over bits (FIPS 180-4, RFC 7693)


def primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % q for q in out):
            out.append(k)
        k += 1
    return out


def icbrt(x):
    r = round(x ** (1 / 3))
    while r ** 3 > x:
        r -= 1
    while (r + 1) ** 3 <= x:
        r += 1
    return r


def isqrt(x):
    import math
    return math.isqrt(x)


def iroot3(x):
    lo, hi = 0, 1 << ((x.bit_length() + 2) // 3 + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= x:
            lo = m
        else:
            hi = m - 1
    return lo


# first 32 bits of the fractional parts of the square (cube) roots of the first primes
SHA_IV = [isqrt(p << 64) & 0xffffffff for p in primes(8)]
SHA_K = [iroot3(p << 96) & 0xffffffff for p in primes(64)]
SIGMA = [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
         [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
         [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
         [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
         [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
         [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
         [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
         [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
         [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
         [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]]


class Words:
    """32-bit words as lists of 32 bits, least significant first"""
    def __init__(self, cs):
        self.cs = cs

    def const(self, c):
        return [(c >> i) & 1 for i in range(32)]

    def add(self, *ws):
        cols = {}
        for w in ws:
            for i, n in enumerate(w):
                d = cols.setdefault(i, {})
                d[n] = d.get(n, 0) + 1
        return self.cs.sum(cols, 0, 32)

    def xor(self, *ws):
        r = ws[0]
        for w in ws[1:]:
            r = [bdd.xor(a, b) for a, b in zip(r, w)]
        return r

    def rotr(self, w, n):
        return w[n:] + w[:n]

    def shr(self, w, n):
        return w[n:] + [FALSE] * n


def sha_compress(W, h, block):
    """block: 512 bits in message order"""
    w = [block[32 * i:32 * i + 32][::-1] for i in range(16)]
    for i in range(16, 64):
        s0 = W.xor(W.rotr(w[i - 15], 7), W.rotr(w[i - 15], 18), W.shr(w[i - 15], 3))
        s1 = W.xor(W.rotr(w[i - 2], 17), W.rotr(w[i - 2], 19), W.shr(w[i - 2], 10))
        w.append(W.add(w[i - 16], s0, w[i - 7], s1))
    a, b, c, d, e, f, g, hh = h
    for i in range(64):
        S1 = W.xor(W.rotr(e, 6), W.rotr(e, 11), W.rotr(e, 25))
        ch = [bdd.ite(x, y, z) for x, y, z in zip(e, f, g)]
        t1 = [hh, S1, ch, W.const(SHA_K[i]), w[i]]
        S0 = W.xor(W.rotr(a, 2), W.rotr(a, 13), W.rotr(a, 22))
        mj = [maj(x, y, z) for x, y, z in zip(a, b, c)]
        hh, g, f, e, d, c, b, a = g, f, e, W.add(d, *t1), c, b, a, W.add(S0, mj, *t1)
    return [W.add(x, y) for x, y in zip(h, (a, b, c, d, e, f, g, hh))]


def sha_pad(bits):
    n = len(bits)
    r = list(bits) + [TRUE]
    while len(r) % 512 != 448:
        r.append(FALSE)
    return r + [(n >> i) & 1 for i in reversed(range(64))]


def sha256_spec(W, bits, compress):
    p = sha_pad(bits)
    h = [W.const(c) for c in SHA_IV]
    for i in range(0, len(p), 512):
        h = compress(h, p[i:i + 512])
    return [b for w in h for b in w[::-1]]


def blake_compress(W, h, block, t, final):
    """block: 512 bits, bytes in order, least significant bit of each byte first"""
    m = [block[32 * i:32 * i + 32] for i in range(16)]
    iv = [W.const(c) for c in SHA_IV]
    v = list(h) + iv
    v[12] = W.xor(v[12], W.const(t & 0xffffffff))
    v[13] = W.xor(v[13], W.const(t >> 32))
    if final:
        v[14] = [bdd.not_(x) for x in v[14]]

    def G(a, b, c, d, x, y):
        v[a] = W.add(v[a], v[b], x)
        v[d] = W.rotr(W.xor(v[d], v[a]), 16)
        v[c] = W.add(v[c], v[d])
        v[b] = W.rotr(W.xor(v[b], v[c]), 12)
        v[a] = W.add(v[a], v[b], y)
        v[d] = W.rotr(W.xor(v[d], v[a]), 8)
        v[c] = W.add(v[c], v[d])
        v[b] = W.rotr(W.xor(v[b], v[c]), 7)
    for r in range(10):
        s = SIGMA[r]
        G(0, 4, 8, 12, m[s[0]], m[s[1]])
        G(1, 5, 9, 13, m[s[2]], m[s[3]])
        G(2, 6, 10, 14, m[s[4]], m[s[5]])
        G(3, 7, 11, 15, m[s[6]], m[s[7]])
        G(0, 5, 10, 15, m[s[8]], m[s[9]])
        G(1, 6, 11, 12, m[s[10]], m[s[11]])
        G(2, 7, 8, 13, m[s[12]], m[s[13]])
        G(3, 4, 9, 14, m[s[14]], m[s[15]])
    return [W.xor(x, y, z) for x, y, z in zip(h, v[:8], v[8:])]


def blake2s_spec(W, bits, pers, compress):
    h = [W.const(c) for c in SHA_IV]
    h[0] = W.xor(h[0], W.const(0x01010020))
    h[6] = W.xor(h[6], W.const(int.from_bytes(pers[:4], "little")))
    h[7] = W.xor(h[7], W.const(int.from_bytes(pers[4:], "little")))
    n = len(bits) // 8
    p = list(bits) + [FALSE] * (-len(bits) % 512 if bits else 512)
    nb = len(p) // 512
    for i in range(nb):
        last = i == nb - 1
        h = compress(h, p[512 * i:512 * i + 512], n if last else 64 * (i + 1), last)
    return [b for w in h for b in w]


# ------------------------------------------------------------------ obligations
def hash_run(prog, which, pat, n, pers, override=None):
    R = Run(prog, "setup")
    bits = [R.boolean(pat[i % len(pat)], "m%d" % i) for i in range(n)]
    R.begin()
    if override:
        R.env.over = override(R)
    args = [R.cs, R.I.ref(Seq(bits))]
    if which == "blake2s":
        args.append(R.I.gref(Seq(tuple(pers))))
    path = {"sha256": G + "sha256::sha256", "block": G + "sha256::sha256_block_no_padding", "blake2s": G + "blake2s::blake2s"}[which]
    try:
        r = R.call(path, args)
    except Diverge:
        r = None
    return R, bits, r


def hash_name(which, pat, n, pers):
    return "%s of %d bits (%s%s)" % (which, n, {"I": "allocated", "T": "ones", "F": "zeros"}.get(pat, "operands " + pat),
                                     "" if which != "blake2s" else ", personalisation " + bytes(pers).hex())


def check_hash(rep, prog, which, pat, n, pers=b"12345678", t=None):
    """full: every emitted constraint is reduced; output bits against the standard"""
    key = hash_name(which, pat, n, pers) + ("" if t is None else " compressed with byte counter %#x" % t)

    def counter(R):
        """the compression function itself, with another byte counter"""
        cpath = G + "blake2s::blake2s_compression"
        anchor(prog, cpath)
        at = [i for i, x in enumerate(prog.fn(cpath).ins) if x == "u64"]
        if len(at) != 1:
            raise Unsupported("counter argument not recognised")

        def f(I, args):
            args = list(args)
            args[at[0]] = t
            R.env.over = None
            return R.call(cpath, args)
        return {cpath: f}

    def go():
        R, bits, r = hash_run(prog, which, pat, n, pers, counter if t is not None else None)
        rep.seen(R.I)
        if r is None:
            rep.bad(key + " | panic", "every path panics: %s" % R.I.panics[-1][0], R.I.panics[-1][2])
            return
        oc = outcome(R.I, r)
        if [x[1] for x in oc] != ["ok"]:
            rep.bad(key + " | outcome", "%s" % [x[1:3] for x in oc])
            return
        ps = panics_of(R)
        if ps:
            rep.bad(key + " | panic", ps[0][0], ps[0][2])
        obs = leaves(observe(R, oc[0][2]))
        if len(obs) != 256:
            rep.bad(key + " | length", "%d output bits" % len(obs))
            return
        S = R.solver()
        rep.count("constraints", S.nproc)
        ev = Ev(R, S)
        o = ev.operands()
        W = Words(S.cs)
        inp = [kval(o, pat[i % len(pat)], "m%d" % i) for i in range(n)]
        if which == "block":
            exp = [b for w in sha_compress(W, [W.const(c) for c in SHA_IV], inp) for b in w[::-1]]
        elif which == "sha256":
            exp = sha256_spec(W, inp, lambda h, b: sha_compress(W, h, b))
        else:
            exp = blake2s_spec(W, inp, pers, lambda h, b, c, last: blake_compress(W, h, b, c if t is None else t, last))
        if S.unknown:
            rep.und(key, "%d constraints not reduced" % len(S.unknown))
            return
        wrong = []
        for i, (x, e) in enumerate(zip(obs, exp)):
            g = ev.b(x[1])
            if g is None or g != e:
                wrong.append((i, g, e))
        if not wrong and S.rel != TRUE:
            rep.bad(key + " | restricts its input", "the constraints exclude some inputs, %s" % bdd.show(bdd.not_(S.rel)), which)
            return
        if not wrong:
            rep.ok(key + ": 256 output bits equal the standard's")
            return
        F = Falsifier(S, R.I.log)
        for i, g, e in wrong[:6]:
            if g is None:
                rep.bad(key + " | output", "output bit %d is not forced" % i, where_of(R))
                return
            w = F.run(bdd.xor(g, e))
            if w is not None:
                rep.bad(key + " | output", "%d of 256 output bits differ from the standard (first: bit %d) on a satisfying assignment with input %s" % (
                    len(wrong), i, "".join(str(F.node(b, w[0])) for b in inp[:64])), where_of(R))
                return
        rep.und(key + " | output", "%d output bits are in a different canonical form" % len(wrong))
    rep.attempt(key, go)


class Blocks:
    """stand-in for the compression function: records its inputs, returns fresh allocated words"""
    def __init__(self, R, names, prog):
        self.R, self.calls = R, []
        self.names = names

    def fresh(self, k, j):
        R = self.R
        bits = []
        for i in range(32):
            key = ("aux", 10 ** 7 + (k * 8 + j) * 32 + i)
            v = Adt("bellman::Variable", 0, (Adt("bellman::Index", 1, (key[1],)),))
            ab = Adt(BIT, 0, field_order(R, BIT, {"variable": v, "value": NONE}))
            R.bitvars[key] = ("blk", k, j, i)
            bits.append(R.I.call_trait("core::convert::From", "from", ("adt", BOOL, ()), [ab], (("adt", BIT, ()),)))
        return R.call(U32 + "::from_bits", [R.I.ref(Seq(bits))])


def check_blocks(rep, prog, which, pat, n, pers=b"12345678"):
    """padding, length encoding, counters and chaining: the compression function is replaced by fresh words"""
    key = "%s: blocks" % hash_name(which, pat, n, pers)
    cpath = G + ("sha256::sha256_compression_function" if which == "sha256" else "blake2s::blake2s_compression")

    def go():
        if prog.fn(cpath) is None:
            raise MissingAnchor("no separate compression function")
        calls = []

        def override(R):
            B_ = Blocks(R, None, prog)

            def f(I, args):
                I_ = I
                hs, blk, ints, flags, href = None, None, [], [], None
                for a in args:
                    v = d = a
                    while isinstance(d, (Ref, Ptr)):
                        v, d = d, I.rget(d)
                    d = I.strip(d)
                    if isinstance(d, Seq):
                        it = d.i
                        t0 = I.strip(it[0]) if it else None
                        if isinstance(t0, Adt) and t0.p == U32 and len(it) == 8 and hs is None:
                            hs, href = it, v
                        elif isinstance(t0, Adt) and t0.p == U32:
                            blk = [b for w in it for b in I.seq(R.call(U32 + "::into_bits", [M.clone(I, w)])).i]
                        elif isinstance(t0, Adt) and t0.p == BOOL:
                            blk = list(it)
                        else:
                            raise Unsupported("compression argument of length %d" % len(it))
                    elif isinstance(d, bool) or isinstance(d, B):
                        flags.append(d)
                    elif isinstance(d, (int, W)) and not isinstance(d, bool):
                        ints.append(d)
                if hs is None or blk is None:
                    raise Unsupported("compression arguments not recognised")
                k = len(calls)
                hw = [[R.lc(b) for b in I.seq(R.call(U32 + "::into_bits", [M.clone(I, w)])).i] for w in hs]
                calls.append((hw, [R.lc(b) for b in blk], ints, flags))
                new = [B_.fresh(k, j) for j in range(8)]
                ret = repr(prog.fn(cpath).ret)
                out = UNIT
                if "uint32::UInt32" in ret:
                    out = Seq(new)
                elif isinstance(href, (Ref, Ptr)):
                    I.rset(href, Seq(new))
                else:
                    raise Unsupported("how the compression function returns its state")
                return OK(out) if "Result" in ret else out
            return {cpath: f}
        R, bits, r = hash_run(prog, which, pat, n, pers, override)
        rep.seen(R.I)
        if r is None:
            rep.bad(key + " | panic", "every path panics: %s" % R.I.panics[-1][0], R.I.panics[-1][2])
            return
        oc = outcome(R.I, r)
        if [x[1] for x in oc] != ["ok"]:
            rep.bad(key + " | outcome", "%s" % [x[1:3] for x in oc])
            return
        ps = panics_of(R)
        if ps:
            rep.bad(key + " | panic", ps[0][0], ps[0][2])
        S = R.solver()
        ev = Ev(R, S)
        o = ev.operands()
        W_ = Words(S.cs)
        inp = [kval(o, pat[i % len(pat)], "m%d" % i) for i in range(n)]
        exp = []

        def comp(h, b, t=None, fin=None):
            k = len(exp)
            exp.append((h, b, t, fin))
            return [[o[("blk", k, j, i)] if ("blk", k, j, i) in o else None for i in range(32)] for j in range(8)]
        want = sha256_spec(W_, inp, comp) if which == "sha256" else blake2s_spec(W_, inp, pers, comp)
        if len(calls) != len(exp):
            rep.bad(key + " | count", "%d blocks are compressed, expected %d" % (len(calls), len(exp)), cpath)
            return
        for k, ((hw, blk, ints, flags), (h, b, t, fin)) in enumerate(zip(calls, exp)):
            for j in range(8):
                for i in range(32):
                    if ev.b(hw[j][i]) != h[j][i]:
                        rep.bad(key + " | chaining", "block %d: bit %d of state word %d is wrong" % (k, i, j), cpath)
                        return
            if len(blk) != 512:
                rep.bad(key + " | message block", "block %d has %d bits" % (k, len(blk)), cpath)
                return
            for i in range(512):
                if ev.b(blk[i]) != b[i]:
                    rep.bad(key + " | message block", "block %d: bit %d is wrong" % (k, i), cpath)
                    return
            if t is not None:
                if len(ints) != 1 or len(flags) != 1:
                    raise Unsupported("counter arguments not recognised")
                if ints[0] != t:
                    rep.bad(key + " | counter", "block %d: counter %s, expected %d" % (k, ints[0], t), cpath)
                    return
                if flags[0] != fin:
                    rep.bad(key + " | final flag", "block %d: final flag %s" % (k, flags[0]), cpath)
                    return
        obs = leaves(observe(R, oc[0][2]))
        got = [ev.b(x[1]) for x in obs]
        if got != want:
            rep.bad(key + " | output order", "output bits are not the state words in order", which)
            return
        rep.ok(key + ": %d blocks, padding, state and output order" % len(exp))
    rep.attempt(key, go)
