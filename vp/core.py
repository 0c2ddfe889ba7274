"""Monitors, workloads and verdicts.

A *monitor* (class Mon) is the oracle side: workloads run the real code and report every observation to it.
A workload is a function fn(mon, rng, idx, tier); case `idx` is reproducible from (seed, workload name, idx).
Verdicts are three-valued: violated (exit 1), held on what was observed (exit 0), inconclusive (exit 2).
"""
import os, sys, json, time, zlib, signal, pickle, traceback, collections
import numpy as np


class Violation(Exception):
    pass


class Inconclusive(Exception):
    pass


def short(x, n=400):
    try:
        if isinstance(x, np.ndarray):
            r = np.array2string(x, threshold=12, edgeitems=3, precision=17)
        else:
            r = repr(x)
    except Exception:
        r = object.__repr__(x)
    return r if len(r) <= n else r[:n] + '...'


class Mon:
    def __init__(self):
        self.events = collections.Counter()      # observations per monitor kind
        self.values = collections.Counter()      # individual numbers compared, per kind
        self.worst = {}                          # largest err/tol per kind
        self.keys = set()                        # distinct non-trivial situations seen
        self.regions = collections.Counter()     # how often each situation was seen
        self.samples = []
        self.notes = collections.Counter()
        self.ctx = {}
        self.longest = 0.0                       # processor time of the longest case

    # -- bookkeeping -------------------------------------------------------------------------
    def key(self, *k):
        self.keys.add(k)

    def region(self, name, n=1):
        self.regions[name] += n

    def sample(self, **info):
        if len(self.samples) < 3:
            self.samples.append({k: short(v, 200) for k, v in info.items()})

    def note(self, text):
        self.notes[text] += 1

    def fail(self, kind, msg, **info):
        lines = ['%s: %s' % (kind, msg)]
        for k, v in list(self.ctx.items()) + list(info.items()):
            lines.append('    %s = %s' % (k, short(v)))
        raise Violation('\n'.join(lines))

    # -- oracles -----------------------------------------------------------------------------
    def ok(self, kind, cond, msg='', **info):
        self.events[kind] += 1
        if not cond:
            self.fail(kind, msg or 'condition violated', **info)

    def eq(self, kind, got, want, msg='', **info):
        """Exact equality of plain Python/numpy values (scalars, tuples, strings)"""
        self.events[kind] += 1
        same = bool(got == want)
        if not same:
            self.fail(kind, msg or 'values differ', got=got, want=want, **info)

    def same(self, kind, got, want, msg='', **info):
        """Equal shape and equal elements (nan equals nan)"""
        self.events[kind] += 1
        g, w = np.asarray(got), np.asarray(want)
        if type(got) is not np.ndarray and isinstance(got, np.ndarray): g = got.view(np.ndarray)
        if type(want) is not np.ndarray and isinstance(want, np.ndarray): w = want.view(np.ndarray)
        if g.shape != w.shape:
            self.fail(kind, msg or 'shapes differ', got_shape=g.shape, want_shape=w.shape, **info)
        self.values[kind] += int(g.size)
        if not np.array_equal(g, w, equal_nan=(g.dtype.kind in 'fc' and w.dtype.kind in 'fc')):
            bad = np.argwhere(~(g == w))
            i = tuple(int(x) for x in bad[0]) if len(bad) else ()
            self.fail(kind, msg or 'elements differ', at=i, got=g[i], want=w[i], n_bad=len(bad), **info)

    def close(self, kind, got, want, tol, msg='', **info):
        """Equal shape, finite, and |got-want| <= tol everywhere"""
        self.events[kind] += 1
        g = got.view(np.ndarray) if isinstance(got, np.ndarray) else np.asarray(got)
        w = want.view(np.ndarray) if isinstance(want, np.ndarray) else np.asarray(want)
        if g.shape != w.shape:
            self.fail(kind, msg or 'shapes differ', got_shape=g.shape, want_shape=w.shape, **info)
        if g.size == 0:
            return
        if g.dtype.kind not in 'fciub':
            self.fail(kind, 'result is not numeric', dtype=g.dtype, **info)
        self.values[kind] += int(g.size)
        if not np.all(np.isfinite(g)):
            i = tuple(int(x) for x in np.argwhere(~np.isfinite(g))[0])
            self.fail(kind, msg or 'non-finite result', at=i, got=g[i], want=w[i], **info)
        err = np.abs(g - w)
        r = err / tol
        i = np.unravel_index(int(np.argmax(r)), r.shape) if r.ndim else ()
        worst = float(r[i])
        if worst > self.worst.get(kind, -1.0):
            self.worst[kind] = worst
        if not worst <= 1.0:
            t = np.broadcast_to(tol, r.shape)
            self.fail(kind, msg or 'wrong value', at=tuple(int(x) for x in i), got=g[i], want=w[i],
                      error=err[i], tolerance=t[i], **info)

    def raises(self, kind, exc, fn, *a, msg='', **kw):
        """fn(*a, **kw) must raise `exc` (a class or tuple of classes)"""
        self.events[kind] += 1
        try:
            r = fn(*a, **kw)
        except exc:
            return
        except Exception as e:
            self.fail(kind, msg or 'wrong kind of exception', expected=exc, got=type(e).__name__ + ': ' + str(e)[:200],
                      args=a, kwargs=kw)
        self.fail(kind, msg or 'no exception', expected=exc, returned=r, args=a, kwargs=kw)

    def state(self):
        return dict(events=self.events, values=self.values, worst=self.worst, keys=self.keys,
                    regions=self.regions, samples=self.samples, notes=self.notes, longest=self.longest)

    def merge(self, st):
        self.events.update(st['events']); self.values.update(st['values']); self.regions.update(st['regions'])
        self.notes.update(st['notes']); self.keys |= st['keys']
        self.longest = max(self.longest, st.get('longest', 0.0))
        for k, v in st['worst'].items():
            if v > self.worst.get(k, -1.0): self.worst[k] = v
        for s in st['samples']:
            if len(self.samples) < 6: self.samples.append(s)


class W:
    """A workload: fn(mon, rng, idx, tier), with fixed numbers of cases per tier."""
    def __init__(self, name, fn, quick, thorough, solo=False):
        self.name, self.fn, self.n = name, fn, dict(quick=quick, thorough=thorough)
        self.solo = solo      # run in the parent, alone (it starts processes or threads of its own)


def case_rng(seed, name, idx):
    return np.random.default_rng([seed & 0x7fffffff, zlib.crc32(name.encode()), idx])


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}
MAX_REPORTS = 5
FAILFAST = bool(os.environ.get('VP_FAILFAST'))     # used by tools/mutate.py: stop at the first violation


def available_gb():
    try:
        return next(int(l.split()[1]) for l in open('/proc/meminfo') if l.startswith('MemAvailable')) / 2**20
    except Exception:
        return 0.0


def cpu_seconds(pid):
    f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
    return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')


# one case never needs more than a few seconds of processor time (evidence: longest_case_cpu_s);
# a worker that burns this much in a single case is not going to come back
STUCK_CPU = dict(quick=240.0, thorough=1800.0)


def run_case(mon, w, seed, idx, tier):
    """Returns None, or the text of a violation"""
    mon.ctx = {}
    try:
        w.fn(mon, case_rng(seed, w.name, idx), idx, tier)
        return None
    except Violation as v:
        return str(v)
    except (Inconclusive, KeyboardInterrupt):
        raise
    except MemoryError as e:
        if available_gb() < 4: raise          # the sandbox is short of memory: that says nothing about the code
        return 'unexpected MemoryError with %.1f GB free: %s\n%s' % (available_gb(), e, traceback.format_exc()[-3000:])
    except Exception as e:
        return 'unexpected %s: %s\n%s\n%s' % (type(e).__name__, str(e)[:500],
            '\n'.join('    %s = %s' % (k, short(v)) for k, v in mon.ctx.items()), traceback.format_exc()[-3000:])


def worker(jobs, workloads, seed, tier, statusfile, resultfile):
    mon = Mon()
    found = []
    done = 0
    status = os.open(statusfile, os.O_RDWR | os.O_CREAT, 0o600)
    inconclusive = None
    try:
        for name, idx in jobs:
            c0 = time.process_time()
            os.pwrite(status, ('%-40s %10d' % (name, idx)).encode(), 0)
            v = run_case(mon, workloads[name], seed, idx, tier)
            done += 1
            mon.longest = max(mon.longest, time.process_time() - c0)
            if v is not None:
                found.append((name, idx, v))
                if len(found) >= MAX_REPORTS or FAILFAST:
                    break
    except (Inconclusive, MemoryError) as e:
        inconclusive = '%s: %s' % (type(e).__name__, e)
    with open(resultfile + '.tmp', 'wb') as f:
        pickle.dump((mon.state(), found, done, inconclusive), f)
    os.rename(resultfile + '.tmp', resultfile)


def run_workloads(wl, seed, tier, nproc, deadline, only=None, log=print):
    """Run everything; returns (mon, violations, cases, inconclusive reasons)"""
    work = os.environ['VP_WORK']
    workloads = {w.name: w for w in wl}
    mon = Mon()
    found, reasons, cases = [], [], 0
    for w in wl:
        if w.solo and (only is None or w.name == only):
            for idx in range(w.n[tier]):
                try:
                    v = run_case(mon, w, seed, idx, tier)
                except Inconclusive as e:
                    reasons.append('%s: %s' % (w.name, e)); break
                cases += 1
                if v is not None:
                    found.append((w.name, idx, v)); break
    signal.setitimer(signal.ITIMER_PROF, 0)       # set in main.py: import, warm-up and solo workloads are over
    jobs = [(w.name, i) for w in wl if not w.solo and (only is None or w.name == only) for i in range(w.n[tier])]
    if not jobs:
        return mon, found, cases, reasons
    nproc = max(1, min(nproc, len(jobs)))
    pids = {}
    sys.stdout.flush(); sys.stderr.flush()
    for k in range(nproc):
        mine = jobs[k::nproc]
        sf_, rf = os.path.join(work, 'status%d' % k), os.path.join(work, 'result%d' % k)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                worker(mine, workloads, seed, tier, sf_, rf)
            except BaseException:
                traceback.print_exc()
                code = 7
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        pids[pid] = (k, sf_, rf, mine)
    progress, checked = {}, time.time()
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > checked + 2:
                checked = time.time()
                for p, (k, sf_, rf, mine) in list(pids.items()):
                    where = open(sf_).read() if os.path.exists(sf_) else ''
                    try:
                        cpu = cpu_seconds(p)
                    except Exception:
                        continue
                    if where and progress.get(p, ('', 0))[0] == where:
                        if cpu - progress[p][1] > STUCK_CPU[tier]:
                            os.kill(p, signal.SIGKILL); os.waitpid(p, 0); del pids[p]
                            name, idx = where.split()
                            found.append((name, int(idx), 'this case did not return within %.0f s of processor time' % STUCK_CPU[tier]))
                    else:
                        progress[p] = (where, cpu)
            if FAILFAST and found:
                for p in pids: os.kill(p, signal.SIGKILL)
                for p in list(pids): os.waitpid(p, 0)
                break
            if time.time() > deadline:
                for p, (k, sf_, rf, mine) in pids.items():
                    where = open(sf_).read().strip() if os.path.exists(sf_) else '?'
                    reasons.append('watchdog: worker %d still in case %s' % (k, where))
                    os.kill(p, signal.SIGKILL)
                for p in list(pids): os.waitpid(p, 0)
                break
            time.sleep(0.02)
            continue
        if pid not in pids:
            continue
        k, sf_, rf, mine = pids.pop(pid)
        if os.path.exists(rf):
            state, fnd, done, inc = pickle.load(open(rf, 'rb'))
            mon.merge(state); found += fnd; cases += done
            if inc: reasons.append(inc)
        elif os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            where = open(sf_).read().split() if os.path.exists(sf_) else []
            if sig in CRASH and len(where) == 2:
                found.append((where[0], int(where[1]), 'the process was killed by %s while running this case (memory corruption or abort in compiled code)' % signal.Signals(sig).name))
            else:
                reasons.append('worker %d killed by signal %d in %s' % (k, sig, where))
        else:
            reasons.append('worker %d exited with %s' % (k, st))
    return mon, found, cases, reasons
