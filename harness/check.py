'''
The checks:  python3 check.py --prop C01 --tier quick        (seed: VERIF_SEED, default 1)
             python3 check.py --replay /verif/replay/<file>   re-run one recorded failing case
             python3 check.py --setup                         compile the Java part of the specification

exit 0: the property held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>": it is broken;
anything else: the check itself failed.
'''

import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import parts     # pylint: disable=wrong-import-position
import tlc       # pylint: disable=wrong-import-position

ROOT = os.path.dirname(HERE)
REPLAY = os.path.join(ROOT, 'replay')
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known-findings.txt')


def known_findings(prop):
    'lines "known: property=<id> case=<case id> clause=<clause> <text>"'

    rv = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('known: '):
                w = line.split()
                d = dict(x.split('=', 1) for x in w[1:4])
                if d['property'] == prop:
                    rv.append((d['case'], d['clause'], ' '.join(w[4:])))
    return rv


def main():
    'main'
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()

    if a.setup:
        tlc.ensure_java()
        return 0

    if a.replay:
        rec = json.load(open(a.replay))
        vs = parts.replay(rec)
        for v in vs:
            print(v['clause'], v['detail'])
        print('reproduced' if vs else 'not reproduced')
        return 1 if vs else 0

    t0 = time.time()
    res = parts.run_property(a.prop, a.tier, a.seed)
    known = known_findings(a.prop)
    bad, seen = [], []

    for v in res['violations']:
        hit = [k for k in known if k[0] == v['id'] and k[1] == v['clause']]
        if hit:
            seen.append((v, hit[0]))
        else:
            bad.append(v)

    for _, k in seen:
        print(f'KNOWN-FINDING: property={a.prop} {k[2]}')

    os.makedirs(EVID, exist_ok=True)
    cov = {'states': res['states'], 'transitions': res['transitions'],
           'traces_validated_against_impl': res['traces'], 'samples': res['samples'], 'parts': res['parts']}
    ev = {'property': a.prop, 'tier': a.tier, 'seed': int(a.seed), 'level': 'model_checking', 'coverage': cov,
          'assumptions': res['assumptions'], 'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    with open(os.path.join(EVID, f'{a.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for p in res['parts']:
        print(f"{a.prop} {p['part']}: {p['traces']} traces, {p['states']} states, verdicts {p['verdicts']}, {p['secs']} s")

    if bad:
        os.makedirs(REPLAY, exist_ok=True)
        first = None
        for k, v in enumerate(bad[:20]):
            path = os.path.join(REPLAY, f'{a.prop}-{k}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=a.prop, **v), f, indent=1, default=str)
            first = first or path
            print(f"  {v['id']}: {v['clause']} {v['detail']}"[:300])
        print(f'VIOLATION property={a.prop} replay={first}')
        return 1

    print(f'{a.prop} held on everything explored ({ev["wall_s"]} s)')
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
