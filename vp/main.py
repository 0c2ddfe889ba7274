import argparse, signal, importlib, json, os, sys, time, hashlib, traceback
t0 = time.time()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--procs', type=int, default=int(os.environ.get('VP_PROCS') or 8))
    a = ap.parse_args()
    home = os.environ['VP_HOME']
    evid = os.path.join(home, 'evidence')
    pid = a.prop
    # code that never returns while it is imported, compiled or first called: this much processor time ends the process
    # with SIGPROF, which check.sh reports (a normal run uses about a minute of it)
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_PROF, dict(quick=600, thorough=5400)[a.tier])
    from vp import core
    import spherical_functions as sf
    repo = os.path.realpath(os.environ.get('VP_REPO', '/repo'))
    if not os.path.realpath(sf.__file__).startswith(repo + os.sep):
        print('INCONCLUSIVE: imported %s, not the code in %s' % (sf.__file__, repo)); return 3
    mod = importlib.import_module('vp.props.' + pid.lower())
    t_import = time.time() - t0
    warm = getattr(mod, 'warmup', None)
    if warm: 
        try:
            warm(a.tier)
        except Exception as e:
            # the warm-up only compiles: the workloads meet the same problem, where it is reported properly
            print('warm-up: %s: %s' % (type(e).__name__, e))
    t_warm = time.time() - t0 - t_import
    if a.replay:
        r = json.load(open(a.replay))
        w = {w.name: w for w in mod.WORKLOADS}[r['workload']]
        mon = core.Mon()
        v = core.run_case(mon, w, r['seed'], r['idx'], r['tier'])
        if v is None:
            print('replay: no violation'); return 0
        print(v); print('VIOLATION property=%s replay=%s' % (pid, a.replay)); return 1
    limit = dict(quick=820, thorough=6 * 3600)[a.tier]
    mon, found, cases, reasons = core.run_workloads(mod.WORKLOADS, a.seed, a.tier, a.procs, t0 + limit, a.only)
    required = [k for k in getattr(mod, 'REQUIRED', []) if not mon.events.get(k)]
    if a.only: required = []
    wall = time.time() - t0
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level='exploration', wall_s=round(wall, 2),
              violations=len(found), assumptions=getattr(mod, 'ASSUMPTIONS', []),
              coverage=dict(evaluations=int(cases), distinct_nontrivial=len(mon.keys), rule=mod.RULE,
                            samples=mon.samples or [{'note': 'no sample'}],
                            monitor_events=dict(sorted(mon.events.items())),
                            values_compared=dict(sorted(mon.values.items())),
                            worst_error_over_tolerance={k: float('%.3g' % v) for k, v in sorted(mon.worst.items())},
                            situations=dict(sorted(mon.regions.items())),
                            notes=dict(mon.notes), cases_per_workload={w.name: w.n[a.tier] for w in mod.WORKLOADS},
                            longest_case_cpu_s=round(mon.longest, 2), import_s=round(t_import, 1), warmup_s=round(t_warm, 1),
                            monitors_not_reached=required, inconclusive=reasons))
    os.makedirs(evid, exist_ok=True)
    tmp = os.path.join(evid, pid + '.json.tmp')
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1, default=lambda o: o.item() if hasattr(o, 'item') else str(o))
    os.rename(tmp, os.path.join(evid, pid + '.json'))
    print('%s %s seed=%d: %d cases, %d distinct situations, %d observations, %d numbers compared, %.1f s (import %.1f, warm-up %.1f)' % (
        pid, a.tier, a.seed, cases, len(mon.keys), sum(mon.events.values()), sum(mon.values.values()), wall, t_import, t_warm))
    for k, v in sorted(mon.events.items()):
        print('   %-34s %9d events%s%s' % (k, v, '  %10d values' % mon.values[k] if mon.values[k] else '',
              '  worst err/tol %.3g' % mon.worst[k] if k in mon.worst else ''))
    for n, c in mon.notes.items(): print('   note: %s (%d)' % (n, c))
    known = json.load(open(os.path.join(home, 'known_findings.json'))) if os.path.exists(os.path.join(home, 'known_findings.json')) else {'findings': []}
    open_findings = [k for k in known['findings'] if k.get('status') == 'open' and k['property'] == pid]
    new = []
    seen = set()
    for w, idx, text in found:
        k = next((k for k in open_findings if k['match'] in text), None)
        if k is None: new.append((w, idx, text))
        elif k['id'] not in seen:
            seen.add(k['id']); print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if new:
        rd = os.path.join(evid, 'replays'); os.makedirs(rd, exist_ok=True)
        done = set()
        for w, idx, text in new:
            sig = (w, text.split('\n')[0][:60])
            if sig in done: continue
            done.add(sig)
            path = os.path.join(rd, '%s-%s-%d-%d.json' % (pid, w, a.seed, idx))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, workload=w, idx=idx, seed=a.seed, tier=a.tier, text=text), f, indent=1)
            print('--- %s case %d:' % (w, idx)); print(text)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            if len(done) >= 6: break
        return 1
    if reasons or required:
        for r in reasons: print('INCONCLUSIVE:', r)
        if required: print('INCONCLUSIVE: monitors never reached:', ', '.join(required))
        return 2
    return 0


try:
    code = main()
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    code = 3
sys.stdout.flush(); sys.stderr.flush()
os._exit(code)
