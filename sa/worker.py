"""The worker pool (C28)."""
from pool import *
from gadgets import anchor, MissingAnchor
import models as M

W_ = "bellman::multicore::Worker"
WT = "bellman::multicore::Waiter"


class WRun:
    def __init__(self, prog, **kw):
        ring.rules.clear()
        self.prog = prog
        self.env = PoolEnv(**kw)
        self.I = mkrun(prog, self.env, 10 ** 8)
        self.w = self.I.ref(self.I.call_fn(anchor(prog, W_ + "::new"), (), []))
        self.runs = 0

    def task(self, name="r"):
        def go(*a):
            self.runs += 1
            self.I.log.append(Event("task", (name,), self.I.pc, (None, None)))
            return Poly.var(name)
        return self.env.native(go)

    def compute(self, clo):
        fn = anchor(self.prog, W_ + "::compute")
        return self.I.call_fn(fn, genv(fn), [self.w, clo])

    def wait(self, w):
        fn = anchor(self.prog, WT + "::wait")
        return self.I.call_fn(fn, genv(fn), [w])

    def drop(self, w, fn=None):
        fn = anchor(self.prog, W_ + "::compute")
        t = self.prog.norm(subst(fn.ret, genv(fn)))
        self.I.drop_value(w, t)

    def panics(self):
        return [x for x in self.I.panics if x[1] != FALSE]

    def where(self):
        return "%s: %s" % (self.panics()[0][2], self.panics()[0][0])


def schedules(mt):
    if not mt:
        return [("serial", {})]
    out = []
    for late in (False, True):
        for c0, cn in ((0, "idle pool"), (1 << 20, "backlog")):
            for t in (1, 4):
                out.append(("%s task, %s, %d threads" % ("late" if late else "early", cn, t),
                            dict(late=late, count0=c0, threads=t)))
    return out


def check_compute(rep, prog, cfg):
    for label, kw in schedules(cfg == "mt"):
        tag = "%s build, %s" % (cfg, label)
        # waited for
        R = WRun(prog, **kw)
        key = "result delivered, " + tag
        try:
            v = R.I.strip(R.wait(R.compute(R.task())))
            R.env.settle()
        except Diverge:
            rep.bad(key, "compute/wait cannot complete: " + R.where(), R.where())
            continue
        rep.seen(R.I)
        n = len([e for e in R.I.log if e.k == "task"])
        if R.panics():
            rep.bad(key, "panics: " + R.where(), R.where())
        else:
            rep.verdict(key, n == 1 and isinstance(v, Poly) and (v - Poly.var("r")).is_zero(),
                        "task ran %d times, wait returned %r" % (n, v), W_ + "::compute")
        rep.verdict("pending counter restored, " + tag, all(x == (kw.get("count0", 0)) for x in R.env.counter()),
                    "counter is %r after the task, was %r" % (R.env.counter(), kw.get("count0", 0)), W_ + "::compute")
        # two tasks, waited for in the other order
        R = WRun(prog, **kw)
        key = "two tasks keep their results, " + tag
        try:
            a = R.compute(R.task("r1"))
            b = R.compute(R.task("r2"))
            y, x = R.I.strip(R.wait(b)), R.I.strip(R.wait(a))
            R.env.settle()
            rep.verdict(key, not R.panics() and x == Poly.var("r1") and y == Poly.var("r2"), "results %r, %r" % (x, y))
        except Diverge:
            rep.bad(key, "cannot complete: " + R.where(), R.where())
        # abandoned
        R = WRun(prog, **kw)
        key = "abandoned result, " + tag
        try:
            w = R.compute(R.task())
            R.drop(w)
            R.env.settle()
        except Diverge:
            pass
        n = len([e for e in R.I.log if e.k == "task"])
        if R.panics():
            rep.bad(key, "the task panics when nobody waits for its result (the process aborts): " + R.where(), R.where())
        else:
            rep.verdict(key, n == 1, "task ran %d times" % n, W_ + "::compute")
            rep.verdict("pending counter restored after abandonment, " + tag,
                        all(x == (kw.get("count0", 0)) for x in R.env.counter()), "counter is %r" % (R.env.counter(),), W_ + "::compute")
    # ready-made result
    for kw in ({}, {"late": True}):
        R = WRun(prog, **kw)
        fn = anchor(prog, WT + "::done")
        try:
            v = R.I.strip(R.wait(R.I.call_fn(fn, genv(fn), [Poly.var("x")])))
            rep.verdict("ready result, %s build, %s" % (cfg, kw), not R.panics() and v == Poly.var("x"), "wait returned %r" % (v,), WT + "::done")
        except Diverge:
            rep.bad("ready result, %s build, %s" % (cfg, kw), "cannot complete: " + R.where(), R.where())
    if cfg == "mt":
        for late in (False, True):
            R = WRun(prog, late=late, pool=True)
            key = "waiting inside the pool is refused, %s task" % ("late" if late else "early")
            w = R.compute(R.task())
            n0 = len(R.I.log)
            try:
                R.wait(w)
                rep.bad(key, "wait() inside a pool thread blocks on a task that may need that thread", WT + "::wait")
            except Diverge:
                rep.verdict(key, not any("deadlock" in x[0] for x in R.panics()), R.where(), WT + "::wait")


def check_scope(rep, prog, cfg, tier):
    sizes = list(range(0, 40)) + [63, 64, 65, 127, 255, 256, 1000, 4096, (1 << 20) + 3, (1 << 32) - 1, (1 << 64) - 1]
    threads = (1, 2, 3, 4, 5, 7, 8, 16, 32, 61, 128) if cfg == "mt" else (1,)
    for t in threads:
        bad = None
        key = "scope hands out usable chunk sizes, %s build, %d threads" % (cfg, t)
        for n in sizes:
            R = WRun(prog, threads=t)
            got = []

            def body(*a):
                got.append(a)
                return Poly.var("res")
            fn = anchor(prog, W_ + "::scope")
            try:
                r = R.I.call_fn(fn, genv(fn), [R.w, n, R.env.native(body)])
            except Diverge:
                bad = bad or "scope(%d) panics: %s" % (n, R.where())
                continue
            rep.seen(R.I)
            if len(got) != 1:
                bad = bad or "scope(%d) ran its body %d times" % (n, len(got))
                continue
            c = R.I.strip(got[0][-1])
            if not isinstance(c, int):
                raise Unsupported("chunk size %r" % (c,))
            if c < 1:
                bad = bad or "chunk size %d for %d elements: chunks(0) panics" % (c, n)
            if not (isinstance(R.I.strip(r), Poly) and R.I.strip(r) == Poly.var("res")):
                bad = bad or "scope(%d) does not return its body's result" % n
            if R.panics():
                bad = bad or R.where()
        rep.verdict(key, bad is None, bad, W_ + "::scope")
        # any number of elements (symbolic word) where the division is a shift
        if t & (t - 1) == 0:
            key = "chunk size is positive for every number of elements, %s build, %d threads" % (cfg, t)

            def go():
                R = WRun(prog, threads=t)
                got = []

                def body(*a):
                    got.append((R.I.pc, a[-1]))
                    return UNIT
                fn = anchor(prog, W_ + "::scope")
                R.I.call_fn(fn, genv(fn), [R.w, wsym(64, "n"), R.env.native(body)])
                z = FALSE
                for pc, c in got:
                    z = bdd.or_(z, bdd.and_(pc, bn(M.veq(R.I, c, 0))))
                pan = [x for x in R.panics()]
                rep.verdict(key, z == FALSE and not pan, "chunk size can be 0" if z != FALSE else (pan and pan[0][0]), W_ + "::scope")
            rep.attempt(key, go)
        R = WRun(prog, threads=t)
        v = R.I.strip(R.I.call_fn(anchor(prog, W_ + "::log_num_threads"), (), [R.w]))
        rep.verdict("log_num_threads, %s build, %d threads" % (cfg, t), v == t.bit_length() - 1 and not R.panics(), "got %r" % (v,), W_ + "::log_num_threads")
    # tasks of a scope have run when it returns
    for rev in (False, True):
        R = WRun(prog, threads=4, reverse=rev)

        def body(sc, chunk):
            fn = None
            for i in range(3):
                R.env.spawn_on(R.I, sc, R.task(i))
            return UNIT
        fn = anchor(prog, W_ + "::scope")
        try:
            R.I.call_fn(fn, genv(fn), [R.w, 3, R.env.native(body)])
            n = sorted(e.a[0] for e in R.I.log if e.k == "task")
            rep.verdict("scope runs every task once, %s build%s" % (cfg, ", reversed" if rev else ""), n == [0, 1, 2] and not R.panics(), "ran %r" % (n,))
        except Diverge:
            rep.bad("scope runs every task once, %s build" % cfg, R.where())
