#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current sources.

exit 0: no violation (obligations that could not be decided are listed in the evidence)
exit 1: a violation, with a line VIOLATION property=<id> replay=<path>
exit 2: the analysis could not be set up (sources do not compile, an entry point is gone)
"""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)
import build    # noqa: E402
import props    # noqa: E402
import run      # noqa: E402

TECH = 'abstract interpretation of the compiled source (LLVM IR), comparison of the extracted transition graph with a specification'


def known_ids(pid):
    out = {}
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'known: property=(\w+) id=(\S+) (.*)', line.strip())
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3)
    return out


def setup():
    for p in (build.CLANG,):
        if not os.path.exists(p):
            print('ERROR: %s is missing' % p)
            return 2
    return 0


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        return setup()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    ev_dir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
    ev_path = os.path.join(ev_dir, pid + '.json')
    if os.path.exists(ev_path):
        os.remove(ev_path)
    try:
        obs = props.PROPS[pid](tier)
        res = run.run_all(obs)
    except build.BuildError as e:
        print('ERROR: the sources do not build for analysis:\n%s' % e)
        return 2
    kn = known_ids(pid)
    viol, errors, undec, proved, hits = [], [], [], 0, {}
    for r in res:
        if r['status'] == 'violated':
            viol.append(r)
        elif r['status'] == 'error':
            errors.append(r)
            undec.append(r)
        elif r['status'] == 'undecided':
            undec.append(r)
        else:
            proved += 1
        for k in r.get('known', {}):
            if k is None:
                continue
            hits.setdefault(k, []).append(r['name'])
    for k, names in sorted(hits.items()):
        if k in kn:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kn[k], '; '.join(names[:3]) + (' ...' if len(names) > 3 else '')))
        else:
            viol.append(dict(name=names[0], what='deviation %s of %s is not a listed finding' % (k, names[0]), where=None, status='violated'))
    seen = 0
    out_v = []
    for v in viol:
        seen += 1
        path = os.path.join(ev_dir, 'replay', '%s-%d.json' % (pid, seen))
        with open(path, 'w') as fh:
            json.dump({k: v.get(k) for k in ('name', 'rule', 'what', 'where', 'input', 'length', 'got', 'want', 'other')}, fh, indent=1, default=str)
        if seen <= 10:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s: %s' % (v['name'], v.get('what')))
            print('  at %s; code gives %s, expected %s' % (v.get('where'), v.get('got'), v.get('want')))
        out_v.append(dict(what=str(v.get('what')), where=v.get('where'), replay=path))
    tot = {}
    for r in res:
        for k, x in r.get('stats', {}).items():
            tot[k] = tot.get(k, 0) + x
    expl = ('%s. %d obligations: %d proved, %d violated, %d undecided. Rules: %s' % (
        TECH, len(res), proved, len(viol), len(undec), '; '.join(sorted({r['rule'] for r in res if r['rule']})[:6])))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other', wall_s=round(time.time() - t0, 2),
              coverage=dict(explanation=expl[:1800], counts=dict(obligations=len(res), proved=proved, undecided=len(undec), **tot)),
              obligations=[dict(name=r['name'], status=r['status'], **({'why': r['why']} if 'why' in r else {})) for r in res],
              known_findings=sorted(hits), violations=out_v)
    with open(ev_path, 'w') as fh:
        json.dump(ev, fh, indent=1)
    for r in undec[:20]:
        print('undecided: %s: %s' % (r['name'], r['why']))
    for r in errors:
        print('ERROR: %s: %s' % (r['name'], r['why']))
    print('%s %s: %d obligations, %d proved, %d undecided, %d violated, %.1f s' % (pid, tier, len(res), proved, len(undec), len(viol), time.time() - t0))
    if viol:
        return 1
    return 2 if errors and not proved else 0     # 2: no answer at all


if __name__ == '__main__':
    sys.exit(main())
