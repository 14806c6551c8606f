#!/usr/bin/env python3
"""check.py <property> [--thorough] [--root DIR]: decide one property of ababe from its source."""
import json
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(12000)
warnings.simplefilter('ignore')

import threading
threading.stack_size(512 * 1024 * 1024)


def known():
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                pid, key, text = l[7:].split(' | ', 2)
                out[(pid.split('=')[1], key)] = text
    return out


def main():
    import rules
    args = [a for a in sys.argv[1:]]
    tier = 'quick'
    if '--thorough' in args:
        tier = 'thorough'
        args.remove('--thorough')
    root = '/repo'
    if '--root' in args:
        i = args.index('--root')
        root = args[i + 1]
        del args[i:i + 2]
    pid = args[0]
    t0 = time.time()
    res = rules.run(root, pid, tier)
    kn = known()
    viol, supp, und = [], [], []
    for f in res.findings:
        if f.status == 'violation':
            if (pid, f.key) in kn:
                supp.append(f)
            else:
                viol.append(f)
        elif f.status == 'undecided':
            und.append(f)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = {
        'explanation': res.explanation,
        'rules_applied': res.rules,
        'modules_parsed': res.nmodules,
        'functions_parsed': res.nfunctions,
        'obligations': len(res.findings),
        'discharged': sum(1 for f in res.findings if f.status == 'ok'),
        'undecided': len(und),
        'functions_inlined': sorted(res.inlined),
        'value_graph_nodes': res.size,
        'samples': [{'construct': f.construct, 'rule': f.rule, 'status': f.status, 'detail': f.detail[:300]}
                    for f in (viol + und + res.findings)[:40]],
    }
    cov.update(res.extra)
    doc = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
           'coverage': cov, 'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 2),
           'violations': len(viol)}
    with open(os.path.join(ev, pid + '.json'), 'w') as fh:
        json.dump(doc, fh, indent=1)
    for f in supp:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[(pid, f.key)]))
    for f in und:
        print('UNDECIDED property=%s %s [%s] %s' % (pid, f.construct, f.rule, f.detail[:300]))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)'
          % (pid, len(res.findings), cov['discharged'], len(und), len(viol), time.time() - t0))
    if res.broken:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, '; '.join(res.broken)))
        if not viol:
            return 2
    if viol:
        rp = os.path.join(ev, pid + '.replay.txt')
        with open(rp, 'w') as fh:
            for f in viol:
                fh.write('%s\n  rule: %s\n  %s\n' % (f.construct, f.rule, f.detail))
        for f in viol:
            print('  %s [%s] %s' % (f.construct, f.rule, f.detail[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    rc = [3]

    def body():
        try:
            rc[0] = main()
        except BaseException:
            import traceback
            traceback.print_exc()
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
