'''Histories of requests for solution matrices: generation of data, run on the real objects (TimeElapse.tla).'''

from fractions import Fraction as F
import random
import re

import model
import tlc


def histories(cfg):
    'all request histories of the specification, as printed by TLC'
    r = tlc.run('TimeElapse', cfg)
    rv = []
    for line in re.findall(r'^"HISTORY\|(.*)"$', r.out, re.M):
        nums = [int(x) for x in re.findall(r'-?\d+', line)]
        rv.append(list(zip(nums[::2], nums[1::2])))
    return sorted(rv), r


def q(r, lo, hi, den=4):
    return F(r.randint(int(lo * den), int(hi * den)), den)


def amat(r, n):
    'a dynamics matrix'
    kind = r.choice(['rand', 'rand', 'rot', 'nil', 'diag', 'zero', 'affine', 'jordan', 'sparse'])
    m = [[F(0)] * n for _ in range(n)]
    if kind == 'rand':
        m = [[q(r, -1, 1) for _ in range(n)] for _ in range(n)]
    elif kind == 'rot' and n > 1:
        w = r.choice([F(1), F(-2), F(1, 2)])
        m[0][1], m[1][0] = w, -w
        for i in range(2, n):
            m[i][i] = q(r, -1, 1)
            m[i][0] = q(r, -1, 1)
    elif kind == 'nil':
        for i in range(n - 1):
            m[i][i + 1] = q(r, -2, 2)
    elif kind == 'diag' or kind == 'rot':
        for i in range(n):
            m[i][i] = q(r, -2, 1)
    elif kind == 'affine':
        m = [[q(r, -1, 1) for _ in range(n)] for _ in range(n - 1)] + [[F(0)] * n]
    elif kind == 'jordan':
        d = q(r, -1, 1)
        for i in range(n):
            m[i][i] = d
            if i + 1 < n:
                m[i][i + 1] = F(1)
    elif kind == 'sparse':
        for _ in range(n):
            m[r.randrange(n)][r.randrange(n)] = q(r, -2, 2)
    return m


def make(seed, name, index, hist, modes, wide):
    'a case: data for the history'
    r = random.Random(f'{seed}/{name}/{index}')
    ms = []
    for _ in range(modes):
        n = r.choice([1, 2, 2, 3, 3, 4])
        b = None
        if wide or r.random() < 0.7:
            k = r.choice([1, 1, 2, 3])
            b = [[r.choice([F(0), F(0), F(1), q(r, -2, 2)]) for _ in range(k)] for _ in range(n)]
        ms.append(dict(A=amat(r, n), B=b))
    if r.random() < 0.35:
        # the same history with longer gaps between its steps
        far, k = [0], 0
        for i in range(max([k for _, k in hist] + [1])):
            k += 1 if i == 0 and r.random() < 0.5 else r.choice([1, 2, 5, 9, 12])
            far.append(k)
        hist = [(m, k if k < 0 else far[k]) for m, k in hist]
        return dict(id=f'{name}-{index}', h=r.choice([F(1, 10), F(1, 20)]), modes=ms, hist=hist)

    return dict(id=f'{name}-{index}', h=r.choice([F(1), F(1, 2), F(1, 4), F(1, 10), F(3, 7)]), modes=ms, hist=hist)


def replay(case):
    'ask the real objects'
    import numpy as np
    import traceback
    from hylaa.hybrid_automaton import HybridAutomaton

    log = []
    held = []
    rv = {'status': 'ok', 'exc': '', 'kind': '', 'log': log}

    def rows(m):
        return [[model.dec(float(x)) for x in row] for row in np.asarray(m)]

    try:
        ha = HybridAutomaton()
        modes = []
        for i, m in enumerate(case['modes']):
            mode = ha.new_mode(f'm{i}')
            mode.set_dynamics(model.fmat(m['A']))
            if m['B'] is not None:
                k = len(m['B'][0])
                cons = [[1.0 if j == i else 0.0 for j in range(k)] for i in range(k)]
                cons += [[-x for x in row] for row in cons]
                mode.set_inputs(model.fmat(m['B']), cons, [1.0] * (2 * k))
            mode.init_time_elapse(float(case['h']))
            modes.append(mode)

        for m, k in case['hist']:
            te = modes[m - 1].time_elapse
            bm, ie = te.get_basis_matrix(1 if k == -1 else k)
            if k == -1:
                te.use_lgg_approx()
                log.append(dict(m=m, k=-1, bm=[], hasie=False, ie=[], same=True))
                # the set then starts to step
                k = 1
                bm, ie = te.get_basis_matrix(1)
            same = all(np.array_equal(a, b) for a, b in held)
            log.append(dict(m=m, k=k, bm=rows(bm), hasie=ie is not None, ie=[] if ie is None else rows(ie), same=same))
            held.append((bm, bm.copy()))
            if ie is not None:
                held.append((ie, ie.copy()))
    except Exception as e:  # pylint: disable=broad-except
        rv.update(status='exc', exc=f'{type(e).__name__}: {e}', kind=type(e).__name__, tb=traceback.format_exc(limit=-4))
    return rv


def tla_case(case, res):
    'for TimeElapseTrace'
    ms = []
    for m in case['modes']:
        ms.append(dict(A=[model.decs(r) for r in m['A']], hasB=m['B'] is not None,
                       B=[model.decs(r) for r in m['B']] if m['B'] is not None else []))
    return dict(id=case['id'], h=model.dec(case['h']), modes=ms, log=res.get('log', []), status=res['status'],
                exc=res.get('exc') or '')
