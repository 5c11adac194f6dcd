"""Obligations, verdicts, evidence, known findings."""
import json, multiprocessing, os, resource, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KNOWN = os.path.join(VERIF, "known-findings.txt")


class TimeLimit(Exception):
    pass


def _alarm(*a):
    raise TimeLimit()


BUDGET = 780        # seconds for one check


def parallel(rep, jobs, procs=8, limit=400, mem=3 << 30):
    """jobs: [(name, fn(rep))]: run in forked workers, each with its own memory limit, every job with a time limit; outcomes are
    merged. A worker whose job ran out of memory is replaced."""
    from multiprocessing.connection import wait
    nxt = multiprocessing.Value("i", 0)
    live = {}

    def fork():
        r, s = multiprocessing.Pipe(False)
        sys.stdout.flush()
        pid = os.fork()
        if pid:
            s.close()
            live[r] = [pid, None]
            return
        try:
            r.close()
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            signal.signal(signal.SIGALRM, _alarm)
            while True:
                with nxt.get_lock():
                    i = nxt.value
                    nxt.value += 1
                if i >= len(jobs):
                    break
                name, fn = jobs[i]
                s.send(name)
                mine = Report(rep.pid, rep.tier, rep.rule)
                left = BUDGET - (time.time() - rep.t0)
                if left < 1:
                    mine.und(name, "time budget of the check")
                else:
                    signal.alarm(max(1, int(min(limit, left))))
                    try:
                        mine.attempt(name, lambda: fn(mine))
                    finally:
                        signal.alarm(0)
                s.send((mine.good, mine.viol, mine.undec, mine.counts, mine.fns))
                if any("analysis limit: memory" in u[1] for u in mine.undec):
                    break
            s.send(None)
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(0)
    for w in range(min(procs, len(jobs))):
        fork()
    while live:
        for r in wait(list(live)):
            try:
                m = r.recv()
            except EOFError:
                m = None
                if live[r][1] is not None:
                    rep.und(live[r][1], "the analysis process ended early")
            if m is None:
                os.waitpid(live.pop(r)[0], 0)
                r.close()
                if nxt.value < len(jobs):
                    fork()
            elif isinstance(m, str):
                live[r][1] = m
            else:
                live[r][1] = None
                good, viol, undec, counts, fns = m
                rep.good += good
                for v in viol:
                    rep.bad(*v)
                rep.undec += undec
                for k, n in counts.items():
                    rep.count(k, n)
                rep.fns |= fns
                if len(rep.viol) >= 10 and time.time() - rep.t0 > 60:
                    nxt.value = len(jobs)       # the verdict is clear


class Report:
    def __init__(self, pid, tier, rule, assumptions=()):
        self.pid = pid
        self.tier = tier
        self.rule = rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.good = []         # discharged obligations
        self.viol = []         # (key, message, where)
        self.undec = []        # (key, reason)
        self.counts = {}
        self.fns = set()

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def seen(self, I):
        """functions analysed by an interpreter run"""
        for k in I.fns_seen:
            f = I.prog.fns.get(k)
            if f is not None:
                self.fns.add(f.path)
        self.count("abstract_steps", I.steps)

    def ok(self, key):
        self.good.append(key)

    def bad(self, key, msg, where=""):
        if not any(k == key for k, _, _ in self.viol):
            self.viol.append((key, str(msg)[:1500], str(where)[:600]))

    def und(self, key, why):
        self.undec.append((key, str(why)[:400]))

    def verdict(self, key, good, msg="", where=""):
        """good: True / False / None (undecided)"""
        if good is True:
            self.ok(key)
        elif good is False:
            self.bad(key, msg, where)
        else:
            self.und(key, msg)

    def attempt(self, key, fn):
        """run fn; analysis limits become undecided obligations"""
        from interp import Unsupported, Diverge
        try:
            return fn()
        except Unsupported as e:
            self.und(key, "analysis limit: %s" % (e,))
        except Diverge:
            self.bad(key, "every path panics or diverges", key)
        except (MemoryError, SystemError):
            self.und(key, "analysis limit: memory")
        except TimeLimit:
            self.und(key, "analysis limit: time")
        except RecursionError:
            self.und(key, "analysis limit: recursion")
        except (KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError, RuntimeError,
                ZeroDivisionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.und(key, "analysis limit: %s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("SA_TRACE"):
                traceback.print_exc()
        return None

    def finish(self, floor=1, known=None):
        known = known_findings() if known is None else known
        kn = known.get(self.pid, {})
        new = [v for v in self.viol if v[0] not in kn]
        old = [v for v in self.viol if v[0] in kn]
        n = len(self.good) + len(self.viol) + len(self.undec)
        for k, m, w in old:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, kn[k]))
        cdir = os.path.join(VERIF, ".cache", "replay")
        os.makedirs(cdir, exist_ok=True)
        path = os.path.join(cdir, self.pid + ".txt")
        code = 0
        if n < floor:
            self.und("floor", "only %d of at least %d obligations were generated" % (n, floor))
        if new:
            with open(path, "w") as f:
                f.write("property %s\nrule: %s\n\n" % (self.pid, self.rule))
                for k, m, w in new:
                    f.write("violation: %s\n  %s\n  at: %s\n\n" % (k, m, w))
            for k, m, w in new[:20]:
                print("%s: %s\n    %s%s" % (self.pid, k, m, ("\n    at " + w) if w else ""))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            code = 1
        for k, r in self.undec[:20]:
            print("UNDECIDED property=%s %s: %s" % (self.pid, k, r))
        self.good.sort()
        samples = self.good[:3] + self.good[len(self.good) // 2:len(self.good) // 2 + 3] + self.good[-3:]
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other",
              "coverage": {
                  "explanation": self.rule,
                  "obligations": n, "discharged": len(self.good), "undecided": len(self.undec),
                  "floor": floor,
                  "violated": [list(v) for v in self.viol][:20],
                  "undecided_obligations": [list(u) for u in self.undec][:20],
                  "samples": samples,
                  "functions_analysed": sorted(self.fns)[:150],
                  "functions_analysed_count": len(self.fns),
                  **self.counts},
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            ev["coverage"]["functions_analysed"] = sorted(self.fns)[:40]
            ev["coverage"]["violated"] = [v[0] for v in self.viol][:20]
            s = json.dumps(ev, indent=1)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            f.write(s + "\n")
        print("%s: %d obligations, %d discharged, %d violated (%d known), %d undecided, %d functions, %.1fs" % (
            self.pid, n, len(self.good), len(self.viol), len(old), len(self.undec), len(self.fns), time.time() - self.t0))
        return code


def known_findings():
    """lines 'open: property=<id> key=<key> :: text' ; 'fixed:' lines suppress nothing"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("open: "):
                head, _, text = l[6:].partition(" :: ")
                pid, _, key = head.partition(" key=")
                out.setdefault(pid.replace("property=", "").strip(), {})[key.strip()] = text
    return out
