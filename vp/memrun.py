"""Runs the catalogue of calls (vp/calls.py) in one execution mode and records every result.

python -m vp.memrun MODE SEED TIER NCASES NPROC OUTDIR    (environment prepared by vp/props/c23.py)
Modes: fence-end, fence-begin (compiled code, guard-page allocator, different fill patterns), bounds (numba bounds checking), interp (no JIT)"""
import os, sys, pickle, signal, traceback, faulthandler


def main():
    mode, seed, tier, n, nproc, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
    import numpy as np
    import numba
    from vp import calls
    from vp.core import case_rng
    assert bool(numba.config.DISABLE_JIT) == (mode == 'interp') and bool(numba.config.BOUNDSCHECK) == (mode == 'bounds'), 'mode not in effect'
    fence = None
    if mode != 'interp':
        for i in range(3 * len(calls.BUILDERS)):
            try: calls.make(case_rng(999, 'warm', i), i).run()
            except Exception: pass
    if mode.startswith('fence'):
        sys.path.insert(0, os.environ['VP_WORK'])
        import vpfence as fence
    pids = []
    for k in range(nproc):
        pid = os.fork()
        if pid == 0:
            try:
                faulthandler.enable()
                if fence: fence.install(*((0, 0xff) if mode == 'fence-end' else (1, 0x3f)))
                st = os.open(os.path.join(out, 'status%d' % k), os.O_RDWR | os.O_CREAT, 0o600)
                res = []
                for idx in range(k, n, nproc):
                    os.pwrite(st, b'%-12d' % idx, 0)
                    c = calls.make(case_rng(seed, 'mem', idx), idx)
                    try: r = c.run()
                    except Exception as e: r = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:])
                    res.append((idx, c.name, r))
                os.pwrite(st, b'%-12d' % -1, 0)
                stats = fence.stats() if fence else (0, 0, 0)
                with open(os.path.join(out, 'result%d.tmp' % k), 'wb') as f: pickle.dump((res, stats), f)
                os.rename(os.path.join(out, 'result%d.tmp' % k), os.path.join(out, 'result%d' % k))
                os._exit(0)
            except BaseException:
                traceback.print_exc(); os._exit(9)
        pids.append(pid)
    codes = []
    for p in pids:
        _, st = os.waitpid(p, 0)
        codes.append(-os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st))
    with open(os.path.join(out, 'codes'), 'w') as f: f.write(' '.join(map(str, codes)))
    sys.stdout.flush(); os._exit(0)


main()
