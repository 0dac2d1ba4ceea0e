#!/usr/bin/env python3
"""python3 sa/run.py <ID> [quick|thorough]

Decides one property from /repo's current source by static analysis.
exit 0  no obligation is violated
exit 1  VIOLATION line(s); the violating constructs are listed in the replay file
exit 2  the analysis has no answer (source does not compile, anchors vanished)
"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import threading  # noqa: E402


def known(pid):
    """finding entries: property=<id> rule=<rule> | <function> | <instance part> | <text>"""
    out = []
    path = os.path.join(os.path.dirname(HERE), 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % pid):
                parts = [x.strip() for x in line.split(' ', 2)[2].split('|')]
                if len(parts) >= 4:
                    out.append(parts)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    import registry
    import report
    import scen
    prop = registry.PROPS[pid]
    rep = report.Rep(pid)
    rep.tier = tier
    p = scen.prog()

    def work():
        sys.setrecursionlimit(20000)
        for fn in prop.checks:
            try:
                fn(p, rep)
            except Exception as ex:
                rep.add('unk', 'engine', fn.__name__, 'whole rule', '%s: %s' % (type(ex).__name__, ex))
    w = threading.Thread(target=work, daemon=True)
    w.start()
    w.join(850 - (time.time() - t0))
    if w.is_alive():
        rep.add('unk', 'time budget', 'run', 'remaining rules', 'not completed within the time limit')
    decided = sum(r['ok'] + r['bad'] for r in rep.rules.values())
    kf = known(pid)
    viol, listed = [], {}
    for o in rep.bad():
        for k in kf:
            if k[0] in o[1] and k[1] in o[2] and k[2] in o[3]:
                listed.setdefault(k[3], o)
                break
        else:
            viol.append(o)
    und = [o for o in rep.obl if o[0] == 'unk']
    ev = os.path.join(os.path.dirname(HERE), 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, pid + '-violations.txt')
    uniq = {}
    for o in viol:
        uniq.setdefault((o[1], o[2]), []).append(o)
    if viol:
        with open(replay, 'w') as f:
            for o in viol:
                f.write('rule: %s\n  at: %s\n  instance: %s\n  finding: %s\n' % o[1:])
    elif os.path.exists(replay):
        os.remove(replay)
    cov = {'explanation': prop.technique,
           'obligations': len(rep.obl), 'discharged': sum(r['ok'] for r in rep.rules.values()),
           'undecided': len(und), 'violated': len(viol), 'known_findings': len(listed),
           'rules': rep.rules, 'counts': rep.counts,
           'functions_analysed': len(rep.fns),
           'functions': sorted({str(x) for x in rep.fns})[:400]}
    if viol:
        cov['violated_obligations'] = [' | '.join(str(x) for x in o[1:]) for o in viol[:40]]
    if und:
        cov['undecided_obligations'] = [' | '.join(str(x)[:160] for x in o[1:]) for o in und[:40]]
    json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': prop.level,
               'coverage': cov, 'wall_s': round(time.time() - t0, 2),
               'assumptions': prop.assumptions, 'violations': len(viol)},
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations from %d functions: %d discharged, %d undecided, %d violated (%.1f s)' % (
        pid, len(rep.obl), len(rep.fns), cov['discharged'], len(und), len(viol), time.time() - t0))
    for k, r in rep.rules.items():
        print('  rule "%s": %d ok, %d undecided, %d violated' % (k, r['ok'], r['unk'], r['bad']))
    for k, v in rep.counts.items():
        print('  %s: %d' % (k, v))
    for o in und[:5]:
        print('  undecided: %s | %s | %s | %s' % tuple(str(x)[:160] for x in o[1:]))
    for t in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    if viol:
        for (rule, where), os_ in list(uniq.items())[:12]:
            print('  %s: rule "%s": %s: %s (%d instances)' % (where, rule, os_[0][3], str(os_[0][4])[:500], len(os_)))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if decided < prop.minimum:
        print('%s: only %d obligations decided (at least %d expected): no answer' % (pid, decided, prop.minimum))
        return 2
    return 0


def guarded():
    global rc
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code
    except BaseException:
        traceback.print_exc()
        rc = 2


rc = 2
threading.stack_size(512 * 1024 * 1024)
th = threading.Thread(target=guarded)
th.start()
th.join()
sys.stdout.flush()
os._exit(rc if isinstance(rc, int) else 2)
