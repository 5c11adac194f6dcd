"""Abstract thread pool: rayon scopes and tasks, crossbeam channels, atomics, lazy statics.

A pool task runs either as soon as it is spawned or as late as possible (when someone waits for it, or after the caller has
finished); the tasks of a scope run in spawn order or in reverse. Both extremes are analysed."""
from envs import *
import models as M

THREADS = 4


class PoolEnv(FieldEnv):
    def __init__(self, p=BLS_R, threads=THREADS, late=False, reverse=False, pool=False, count0=0):
        super().__init__(p)
        self.threads, self.late, self.reverse = threads, late, reverse
        self.pool0 = pool                # the caller is itself a pool thread
        self.count0 = count0             # pending tasks of others when the analysed call starts
        self.drop_adts = ("crossbeam_channel::channel::Receiver", "crossbeam_channel::channel::Sender")
        self.natives = []
        self.chans = {}
        self.tasks = []
        self.atoms = {}
        self.over = {}

    def start(self, I):
        self.inpool = 1 if self.pool0 else 0
        self.atomc = [I.cell(None) for _ in range(8)]
        ring.roots[ring.var(("omega", self.twoadic))] = 1 << self.twoadic

    # ------------------------------------------------------------ hooks
    def override(self, f, args):
        if self.over:
            fn = self.I.prog.fns.get(f.key)
            if fn is not None and fn.path in self.over:
                return self.over[fn.path](self.I, args)
        return None

    def native(self, fn):
        self.natives.append(fn)
        return Opq("native", len(self.natives) - 1)

    def call_opaque(self, f, args):
        if isinstance(f, Opq) and f.k[0] == "native":
            return self.natives[f.k[1]](*args)
        return None

    def rigid_needs_drop(self, t):
        return False

    def drop_rigid(self, v, t):
        if isinstance(v, Opq):
            if v.k[0] == "rx":
                self.I.mem[self.chans[v.k[1]][1]] = False

    def binop(self, op, a, b):
        if isinstance(a, Adt) and isinstance(b, Adt) and a.p.startswith("log::Level") and b.p.startswith("log::Level"):
            x, y = [v.v + (v.p == "log::Level") for v in (a, b)]
            return {"Le": x <= y, "Lt": x < y, "Ge": x >= y, "Gt": x > y, "Eq": x == y, "Ne": x != y}.get(op)
        return None

    def extern(self, f, args):
        h = EXT.get(f.p)
        return h(self, self.I, f, args) if h else None

    # ------------------------------------------------------------ tasks
    def spawn(self, clo):
        if self.late:
            self.tasks.append((self.I.pc, clo))
        else:
            self.run_task(self.I.pc, clo)

    def run_task(self, pc, clo):
        I = self.I
        g = bdd.and_(pc, I.pc)
        if g == FALSE:
            return
        old = self.inpool
        self.inpool = 1

        def go():
            try:
                I.call_value(clo, [])
            except Diverge:
                I.log.append(Event("task-panic", (), I.pc, (I.site(), None)))
                raise
            return UNIT
        try:
            I.cases([(pc, go), (bdd.not_(pc), lambda: UNIT)])
        except Diverge:
            pass
        self.inpool = old

    def spawn_on(self, I, sc, clo):
        v = I.strip(sc)
        if isinstance(v, Opq) and v.k[0] == "scope":
            self.scopes[v.k[1]].append((I.pc, clo, sc))
            return
        fs = [f for f in I.prog.fns.values() if f.path.endswith("DummyScope::spawn")]
        if len(fs) != 1:
            raise Unsupported("scope %r" % (v,))
        I.call_fn(fs[0], genv(fs[0]), [sc, clo])

    def settle(self):
        """let the pending tasks run"""
        while self.tasks:
            ts = self.tasks
            self.tasks = []
            for pc, clo in (reversed(ts) if self.reverse else ts):
                self.run_task(pc, clo)

    def counter(self):
        """value of the pending-task counters"""
        return [self.I.mem[c] for k, c in self.atoms.items()]


EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


@ext("rayon_core::current_num_threads")
def _nt(E, I, f, a):
    return E.threads


@ext("rayon_core::thread_pool::current_thread_index", "rayon_core::current_thread_index")
def _ti(E, I, f, a):
    return SOME(0) if E.inpool else NONE


@ext("rayon_core::scope::scope", "rayon_core::scope::in_place_scope")
def _scope(E, I, f, a):
    old = E.inpool
    if f.p.endswith("::scope"):
        E.inpool = 1
    sid = I.cell(Seq(()))
    E.scopes = getattr(E, "scopes", {})
    n = len(E.scopes)
    E.scopes[n] = []
    sc = I.ref(Opq("scope", n))
    r = I.call_value(a[0], [sc])
    while E.scopes[n]:
        ts = E.scopes[n]
        E.scopes[n] = []
        for pc, clo, arg in (reversed(ts) if E.reverse else ts):
            g = bdd.and_(pc, I.pc)
            if g == FALSE:
                continue
            o2 = E.inpool
            E.inpool = 1
            if g == I.pc:
                I.call_value(clo, [arg] if arg is not None else [])
            else:
                I.cases([(pc, lambda: I.call_value(clo, [arg] if arg is not None else [])), (bdd.not_(pc), lambda: UNIT)])
            E.inpool = o2
    E.inpool = old
    return r


@ext("rayon_core::scope::Scope::spawn")
def _sspawn(E, I, f, a):
    s = I.strip(a[0])
    E.scopes[s.k[1]].append((I.pc, a[1], a[0]))
    return UNIT


@ext("rayon_core::spawn::spawn", "rayon_core::spawn::spawn_fifo")
def _spawn(E, I, f, a):
    E.spawn(a[0])
    return UNIT


@ext("rayon_core::join::join", "rayon_core::join")
def _join(E, I, f, a):
    old = E.inpool
    E.inpool = 1
    if E.reverse:
        y = I.call_value(a[1], [])
        x = I.call_value(a[0], [])
    else:
        x = I.call_value(a[0], [])
        y = I.call_value(a[1], [])
    E.inpool = old
    return Seq([x, y])


@ext("crossbeam_channel::channel::bounded", "crossbeam_channel::channel::unbounded")
def _bounded(E, I, f, a):
    n = len(E.chans)
    cap = M.usz(I, a[0]) if f.p.endswith("bounded") and a else None
    E.chans[n] = (I.cell(NONE), I.cell(True), cap)
    return Seq([Opq("tx", n), Opq("rx", n)])


def chan(E, I, v):
    v = I.strip(v)
    if isinstance(v, Opq) and v.k[0] in ("tx", "rx"):
        return E.chans[v.k[1]]
    raise Unsupported("channel %r" % (v,))


@ext("crossbeam_channel::channel::Sender::send", "crossbeam_channel::channel::Sender::try_send")
def _send(E, I, f, a):
    buf, alive, cap = chan(E, I, a[0])
    if cap == 0:
        raise Unsupported("rendezvous channel")

    def go():
        def put(x):
            if isinstance(x, Adt) and x.v == 1:
                if cap == 1:
                    M.panic(I, "deadlock: a second result is sent on a full channel")
                raise Unsupported("several messages in flight")
            I.mem[buf] = SOME(a[1])
            return OK(UNIT)
        return I.split(I.mem[buf], put)
    return I.ite(I.mem[alive], go, lambda: ERR(Opq("SendError")))


@ext("crossbeam_channel::channel::Receiver::recv", "crossbeam_channel::channel::Receiver::try_recv")
def _recv(E, I, f, a):
    E.settle()
    buf, alive, cap = chan(E, I, a[0])

    def get(x):
        if isinstance(x, Adt) and x.v == 1:
            I.mem[buf] = NONE
            return OK(x.f[0])
        return ERR(Opq("RecvError"))
    return I.split(I.mem[buf], get)


@ext("core::sync::atomic::Atomic::new")
def _anew(E, I, f, a):
    fn = I.site()
    k = len(E.atoms)
    c = E.atomc[k]
    E.atoms[k] = c
    I.mem[c] = E.count0 if E.count0 else a[0]
    return Opq("atomic", k)


def acell(E, I, v):
    v = I.strip(v)
    if isinstance(v, Opq) and v.k[0] == "atomic":
        return E.atomc[v.k[1]]
    raise Unsupported("atomic %r" % (v,))


def usub(x, y, w=64):
    return M.arith2(None, None, x, y) if False else (x + y) % (1 << w)


@ext(*["core::sync::atomic::Atomic::" + n for n in ("fetch_add", "fetch_sub", "swap", "store", "load")])
def _afetch(E, I, f, a):
    c = acell(E, I, a[0])
    n = f.p.split("::")[-1]
    old = I.mem[c]
    if n == "load":
        return old

    def upd(o):
        if n in ("swap", "store"):
            I.mem[c] = a[1]
        else:
            I.mem[c] = (o + (a[1] if n == "fetch_add" else -a[1])) % (1 << 64)
        return o if n != "store" else UNIT
    if isinstance(old, (int, W)) and not isinstance(old, int):
        raise Unsupported("symbolic counter")
    return I.split(old, upd)


@ext("lazy_static::lazy::Lazy::get")
def _lazy(E, I, f, a):
    memo = I.static_cells
    k = ("lazy", I.site().key if I.site() else None)
    if k not in memo:
        memo[k] = I.gref(I.call(a[1], []))
    return memo[k]


M.STD_CONSTS["lazy_static::lazy::Lazy::INIT"] = Opq("lazy")
M.STD_CONSTS["log::STATIC_MAX_LEVEL"] = Adt("log::LevelFilter", 5, ())


@ext("log::max_level")
def _lmax(E, I, f, a):
    return Adt("log::LevelFilter", 5, ())


M.FUNCS.pop("log::max_level", None)


IOKINDS = """NotFound PermissionDenied ConnectionRefused ConnectionReset HostUnreachable NetworkUnreachable ConnectionAborted
NotConnected AddrInUse AddrNotAvailable NetworkDown BrokenPipe AlreadyExists WouldBlock NotADirectory IsADirectory
DirectoryNotEmpty ReadOnlyFilesystem FilesystemLoop StaleNetworkFileHandle InvalidInput InvalidData TimedOut WriteZero
StorageFull NotSeekable QuotaExceeded FileTooLarge ResourceBusy ExecutableFileBusy Deadlock CrossesDevices TooManyLinks
InvalidFilename ArgumentListTooLong Interrupted Unsupported UnexpectedEof OutOfMemory InProgress TooManyOpenFiles
InputOutputError Other Uncategorized""".split()


@ext("core::io::error::Error::new", "std::io::error::Error::new")
def _ioerr(E, I, f, a):
    k = I.strip(a[0])
    if isinstance(k, Adt):
        return Opq("ioerr", IOKINDS[k.v] if k.v < len(IOKINDS) else "kind %d" % k.v)
    return Opq("ioerr", repr(k))
