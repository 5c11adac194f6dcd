"""Sizes and indices are not narrowed: in the engine's modules (no bytes are handled there) no 64-bit (or wider) integer is cast to 16 bits
or fewer, unless the operand is the result of a mask, shift or remainder, which bounds it. Runs cover sizes up to some thousands; a size cast to 16 bits would
still be exact there and wrong beyond."""

WIDE, SMALL = {"usize", "isize", "u64", "i64", "u128", "i128"}, {"u8", "i8", "u16", "i16"}


def check(rep, prog, modules):
    n = 0
    for f in prog.fns.values():
        if not any(("::" + m + "::") in "::" + f.path + "::" for m in modules) or f.body is None:
            continue
        defs = {}
        casts = []
        for st, t, c in f.body.blocks:
            for s in st:
                if s[0] != "=":
                    continue
                if len(s[1]) == 1:
                    defs.setdefault(s[1][0], []).append(s[2])
                if s[2][0] == "cast" and s[2][1] == "IntToInt":
                    n += 1
                    if s[2][3] in SMALL and s[2][4] in WIDE:
                        casts.append(s[2])
        for c in casts:
            o = c[2]
            if o[0] == "k":
                continue
            d = defs.get(o[1][0], []) if len(o[1]) == 1 else []
            if d and all(x[0] in ("bin", "cbin") and x[1] in ("BitAnd", "Shr", "ShrUnchecked", "Rem") for x in d):
                continue
            rep.bad("narrowing in %s" % f.path, "%s is cast to %s: sizes and indices beyond %s wrap" % (c[4], c[3], c[3]), f.path)
    rep.ok("no size narrowed below 32 bits in %s (%d casts)" % (", ".join(modules), n))
