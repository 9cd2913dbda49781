'''
Scenario generators. Every scenario is determined by (seed, family, index).

The generators know nothing about the code under test; they only try to make scenarios in which things happen (guards
that are reached in the middle of a mode, invariants that cut, several successors, errors reached by part of a set).
'''

from fractions import Fraction as F
import math
import zlib
import random

import model


def rng_for(seed, family, index):
    return random.Random(f'{seed}/{family}/{index}')


# ---------------------------------------------------------------------------------------------------------------
# pieces

SHEARS = [None, None, [[1, 1], [0, 1]], [[1, 0], [-1, 1]], [[2, 1], [1, 1]], [[0, 1], [1, 0]]]
EXTRAS = [[[1, 1]], [[1, -2]], [[0, 1], [2, 1]]]


def pick_emb(r, kind=None, square=False, trivial=False):
    kind = kind or r.choice(['xyw', 'xyw', 'xyw', 'xy'])
    if trivial:
        return model.make_emb(kind)
    shear = r.choice(SHEARS)
    extra = None if square or r.random() < 0.6 else r.choice(EXTRAS)
    n = (3 if kind == 'xyw' else 2) + (len(extra) if extra else 0)
    perm = None
    if r.random() < 0.35:
        perm = list(range(n))
        r.shuffle(perm)
    return model.make_emb(kind, shear=shear, extra=extra, perm=perm)


def q(r, lo, hi, den=4):
    'random multiple of 1/den in [lo, hi]'
    return F(r.randint(math.ceil(lo * den), math.floor(hi * den)), den)


def dyn(r, has_w, kind=None):
    'affine dynamics 2x3'
    kind = kind or r.choice(['drift', 'drift', 'rot', 'node', 'shear', 'rand', 'rand'])
    z = F(0)
    if kind == 'zero':
        a = [[z, z, z], [z, z, z]]
    elif kind == 'drift':
        a = [[z, z, q(r, -3, 3, 2)], [z, z, q(r, -3, 3, 2)]]
        if a[0][2] == 0 and a[1][2] == 0:
            a[0][2] = F(1)
    elif kind == 'rot':
        w = r.choice([F(1), F(-1), F(1, 2), F(2), F(-3, 2)])
        d = r.choice([z, z, F(-1, 5), F(1, 10)])
        a = [[d, w, q(r, -1, 1)], [-w, d, q(r, -1, 1)]]
    elif kind == 'node':
        a = [[q(r, -2, -0.25), z, q(r, -1, 2)], [r.choice([z, F(1, 2)]), q(r, -2, -0.25), q(r, -1, 2)]]
    elif kind == 'shear':
        a = [[z, q(r, -2, 2, 2), q(r, -2, 2, 2)], [z, z, q(r, -2, 2, 2)]]
        if a[0][1] == 0:
            a[0][1] = F(1)
    else:
        a = [[q(r, -1.5, 1.5), q(r, -1.5, 1.5), q(r, -1.5, 1.5)], [q(r, -1.5, 1.5), q(r, -1.5, 1.5), q(r, -1.5, 1.5)]]

    if not has_w:
        a[0][2] = a[1][2] = z
        if kind == 'drift':
            a = [[z, F(1), z], [z, z, z]]
    return a


def fexp(a, h):
    'float one-step map of affine dynamics: 3x3 Taylor'
    m = [[float(x) * float(h) for x in row] for row in a] + [[0.0] * 3]
    res = [[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)]
    term = [row[:] for row in res]
    for k in range(1, 20):
        term = [[sum(term[i][t] * m[t][j] for t in range(3)) / k for j in range(3)] for i in range(3)]
        res = [[res[i][j] + term[i][j] for j in range(3)] for i in range(3)]
    return res


def fstep(m, p):
    return [m[0][0] * p[0] + m[0][1] * p[1] + m[0][2], m[1][0] * p[0] + m[1][1] * p[1] + m[1][2]]


def traj(a, h, p, n):
    m = fexp(a, h)
    rv = [p]
    for _ in range(n):
        rv.append(fstep(m, rv[-1]))
    return rv


NORMALS = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (1, -1), (-1, 1), (-1, -1), (2, 1), (1, 2), (-2, 1), (1, -2)]


def near(x, den=16):
    return F(round(x * den), den) + F(37, 10007)


def halfplane_reached(r, tr, step, back=None, normal=None):
    '''a half-plane a.p <= c entered (roughly) at the given step of the trajectory'''

    p, p0 = tr[step], tr[max(0, step - 1)]
    v = (p[0] - p0[0], p[1] - p0[1])
    cand = [nv for nv in NORMALS if nv[0] * v[0] + nv[1] * v[1] < -1e-3] or NORMALS
    a = normal or r.choice(cand)
    c = a[0] * p[0] + a[1] * p[1] + r.uniform(-0.1, 0.1)
    return [F(a[0]), F(a[1]), near(c)]


def halfplane_left(r, tr, step):
    'a half-plane left (roughly) after the given step'
    h = halfplane_reached(r, tr, step)
    return [-h[0], -h[1], -h[2] + F(1, 977)]


def clip_ok(h, p):
    return float(h[0]) * p[0] + float(h[1]) * p[1] <= float(h[2])


def init_set(r, c, kind=None, size=F(1, 2)):
    'half-planes (or a zonotope) of an initial set around the centre c'
    cx, cy = F(round(c[0] * 8), 8), F(round(c[1] * 8), 8)
    kind = kind or r.choice(['box', 'box', 'tri', 'seg', 'point', 'zono', 'diamond'])
    a, b = r.choice([size, size / 2]), r.choice([size, size / 2, size / 5])
    one, z = F(1), F(0)
    if kind == 'box':
        return {'cons': [[one, z, cx + a], [-one, z, -cx + a], [z, one, cy + b], [z, -one, -cy + b]]}
    if kind == 'tri':
        return {'cons': [[-one, z, -cx + a], [z, -one, -cy + b], [one, one, cx + cy + a]]}
    if kind == 'diamond':
        return {'cons': [[one, one, cx + cy + a], [-one, -one, -cx - cy + a], [one, -one, cx - cy + b],
                         [-one, one, -cx + cy + b]]}
    if kind == 'seg':
        d = r.choice([(1, 0), (0, 1), (1, 1), (1, -1)])
        nn = (-d[1], d[0])
        c0 = nn[0] * cx + nn[1] * cy
        c1 = d[0] * cx + d[1] * cy
        return {'cons': [[F(nn[0]), F(nn[1]), c0], [F(-nn[0]), F(-nn[1]), -c0], [F(d[0]), F(d[1]), c1 + a],
                         [F(-d[0]), F(-d[1]), -c1 + a]]}
    if kind == 'point':
        return {'cons': [[one, z, cx], [-one, z, -cx], [z, one, cy], [z, -one, -cy]]}
    gens = [[a, z], [z, b]]
    if r.random() < 0.6:
        gens.append([F(1, 8), r.choice([F(1, 8), F(-1, 8)])])
    if r.random() < 0.3:
        gens = gens[:1] + gens[2:]
    return {'center': [cx, cy], 'gens': gens}


def input_set(r):
    nv = r.choice([1, 1, 2])
    if nv == 1:
        B = [[r.choice([F(0), F(1)])], [r.choice([F(1), F(-1, 2)])]]
        a = q(r, 0.1, 0.6, 10)
        U = [[F(1), a], [F(-1), r.choice([a, F(0)])]]
    else:
        B = [[F(1), F(0)], [r.choice([F(0), F(1, 2)]), F(1)]]
        a = F(3, 10)
        U = r.choice([[[F(1), F(0), a], [F(-1), F(0), a], [F(0), F(1), a / 2], [F(0), F(-1), a]],
                      [[F(-1), F(0), F(0)], [F(0), F(-1), F(0)], [F(1), F(1), a]]])
    return B, U


def reset_map(r):
    z, o = F(0), F(1)
    return r.choice([
        [[o, z, F(r.randint(-2, 2))], [z, o, F(r.randint(-2, 2))]],
        [[z, o, z], [-o, z, z]],
        [[F(1, 2), z, F(1, 4)], [z, F(1, 2), z]],
        [[o, F(1, 2), z], [z, o, F(-1, 2)]],
        [[o, z, z], [z, z, F(1)]],
        [[z, z, F(-1)], [z, o, z]],
        [[-o, z, z], [z, F(3, 4), F(1, 2)]],
    ])


def mink_set(r):
    nv = r.choice([1, 2])
    if nv == 1:
        return {'D': [[r.choice([F(1), F(0)])], [F(1)]], 'C': [[F(1), F(1, 4)], [F(-1), F(1, 8)]]}
    return {'D': [[F(1), F(1, 2)], [F(0), F(1)]],
            'C': [[F(1), F(0), F(1, 5)], [F(-1), F(0), F(1, 5)], [F(0), F(1), F(1, 10)], [F(0), F(-1), F(1, 10)]]}


def apply_aff(R, p):
    return [float(R[0][0]) * p[0] + float(R[0][1]) * p[1] + float(R[0][2]),
            float(R[1][0]) * p[0] + float(R[1][1]) * p[1] + float(R[1][2])]


def shortfall(sid):
    'by what part of a step the last step ends after the time bound'
    return (F(0), F(0), F(0), F(1, 8), F(1, 2), F(0), F(31, 32))[zlib.crc32(str(sid).encode()) % 7]


# ---------------------------------------------------------------------------------------------------------------
# the general scenario

def scenario(r, sid, opt=None, **st):
    '''a random scenario. opt: dict of knobs:
      square: only square embeddings; kind: 'xy'/'xyw'; modes: number of modes; inputs: probability; resets, mink, loops,
      inv, err: probabilities; n: range of steps; dyn: list of dynamics kinds; inits: max number of initial sets;
      many: probability that a mode has several outgoing transitions; trivial: trivial embedding
    '''

    o = dict(square=False, kind=None, modes=(1, 3), inputs=0.2, resets=0.35, mink=0.3, loops=0.15, inv=0.6, err=0.7,
             n=(4, 9), dyn=None, inits=2, many=0.4, trivial=False, zero=0.06, initkind=None, maxtrans=3, guardtrue=0.06,
             size=F(1, 2), back=0.1, names=None, errreset=0.15, guard2=0.4, late=1, infeas=0.1, mixemb=True)
    o.update(opt or {})
    n = r.randint(*o['n'])
    h = r.choice([F(1, 4), F(1, 5), F(1, 10), F(1, 2), F(1, 8), F(3, 10)])
    while n * h > F(5, 2):
        h /= 2
    nm = r.randint(*o['modes'])

    one_emb = pick_emb(r, o['kind'], o['square'], o['trivial'])
    modes = []
    names = [chr(ord('a') + i) for i in range(8)]
    r.shuffle(names)
    for i in range(nm):
        # modes either share the embedding (identity resets possible) or have their own
        emb = one_emb if not o['mixemb'] or r.random() < 0.75 else pick_emb(r, o['kind'], o['square'], o['trivial'])
        k = r.choice(o['dyn']) if o['dyn'] else None
        if k is None and r.random() < o['zero']:
            k = 'zero'
        m = {'name': names[i], 'err': False, 'emb': emb, 'A': dyn(r, emb.has_w, k), 'inv': [], 'h': h}
        if r.random() < o['inputs']:
            m['B'], m['U'] = input_set(r)
        modes.append(m)

    # estimated entry points
    entry = [None] * nm
    entry[0] = [r.uniform(-2, 2), r.uniform(-2, 2)]
    order = list(range(nm))
    trans = []
    nerr = 1 if r.random() < o['err'] else 0
    err_index = nm

    def room():
        return len(trans) < 6

    for i in order:
        m = modes[i]
        if entry[i] is None:
            entry[i] = [r.uniform(-2, 2), r.uniform(-2, 2)]
        tr = traj(m['A'], h, entry[i], n)
        m['traj'] = tr
        if r.random() < o['inv']:
            s = r.randint(max(1, n // 3), n)
            hp = halfplane_left(r, tr, s)
            if clip_ok(hp, entry[i]) or r.random() < 0.15:
                m['inv'].append(hp)
            if r.random() < 0.3:
                hp = halfplane_left(r, tr, r.randint(1, n))
                if clip_ok(hp, entry[i]) and _compat(m['inv'] + [hp]):
                    m['inv'].append(hp)

        outs = []
        if i + 1 < nm:
            outs.append(i + 1)
        if r.random() < o['many'] and nm > 1:
            outs.append(r.choice([j for j in range(nm) if j >= i or r.random() < o['back']] or [nm - 1]))
        if r.random() < o['loops']:
            outs.append(i)
        if nerr and r.random() < (0.9 if i == nm - 1 else 0.4):
            outs.append(err_index)
        r.shuffle(outs)

        for dst in outs[:o['maxtrans']]:
            if not room():
                break
            s = r.randint(min(o['late'], max(1, n - 1)), max(1, n - 1)) if i else r.randint(1, max(1, n - 1))
            if dst == i and s < 2:
                s = min(2, n)
            guard = [] if r.random() < o['guardtrue'] else [halfplane_reached(r, tr, s)]
            if guard and r.random() < o['guard2']:
                g2 = halfplane_left(r, tr, min(n, s + r.randint(0, 2)))
                g2[2] += F(1, 4)
                if _compat(guard + [g2]):
                    guard.append(g2)
            R, mk = None, None
            derr = dst == err_index
            if derr:
                if r.random() < o['errreset']:
                    R = reset_map(r)
            else:
                need = modes[dst]['emb'] is not m['emb']
                if need or r.random() < o['resets']:
                    R = reset_map(r) if r.random() < 0.8 or not need else [[F(1), F(0), F(0)], [F(0), F(1), F(0)]]
                    if r.random() < o['mink']:
                        mk = mink_set(r)
                if not m['emb'].has_w and modes[dst]['emb'].has_w and R is None:
                    R = [[F(1), F(0), F(0)], [F(0), F(1), F(0)]]
            trans.append({'src': i, 'dst': dst, 'guard': guard, 'R': R, 'mink': mk})
            if not derr and entry[dst] is None:
                p = tr[min(s, n)]
                entry[dst] = apply_aff(R, p) if R is not None else p

    if nerr:
        modes.append({'name': r.choice(['bad', 'err', 'zz', '_e']), 'err': True})

    init = []
    for k in range(r.randint(1, o['inits'])):
        mi = 0 if k == 0 or nm == 1 else r.randrange(nm)
        c = entry[mi]
        if k > 0:
            c = [c[0] + r.uniform(-0.5, 0.5), c[1] + r.uniform(-0.5, 0.5)]
        ini = init_set(r, c, o['initkind'], o['size'])
        ini['mode'] = mi
        init.append(ini)
    if r.random() < o['infeas'] and len(init) > 0:
        # an initial set outside of the invariant, or an empty one
        extra = init_set(r, [entry[0][0] + 0.2, entry[0][1]], 'box')
        extra['mode'] = 0
        if modes[0]['inv']:
            # move it to the other side of the invariant
            a, b, c = modes[0]['inv'][0]
            d = (c - a * F(round(entry[0][0] * 8), 8) - b * F(round(entry[0][1] * 8), 8)) / (a * a + b * b) + 4
            extra['cons'] = [[p[0], p[1], p[2] + (p[0] * a + p[1] * b) * d] for p in extra['cons']]
            init.insert(r.randrange(len(init) + 1), extra)

    for m in modes:
        m.pop('traj', None)

    return {'id': sid, 'n': n, 'h': h, 'modes': modes, 'trans': trans, 'init': init, 'settings': model.settings(**st),
            'fmt': r.randint(0, 1), 'short': shortfall(sid)}


def _common(rows):
    'is there a common point of a x + b y <= c (Fourier-Motzkin)'
    for k in (1, 0):
        pos = [r for r in rows if r[k] > 0]
        neg = [r for r in rows if r[k] < 0]
        rows = [r for r in rows if r[k] == 0]
        rows += [[p[j] / p[k] - n[j] / n[k] for j in range(3)] for p in pos for n in neg]
    return all(r[2] >= 0 for r in rows)


def _compat(hps):
    'do the half-planes have a common point, with some room'
    if len(hps) > 2:
        return _common([[F(a), F(b), F(c) - F(1, 64) * (abs(F(a)) + abs(F(b)))] for a, b, c in (h[:3] for h in hps)])
    if len(hps) == 2:
        a, b = hps
        if a[0] * b[1] == a[1] * b[0]:
            # parallel: opposite directions need room between them
            dot = a[0] * b[0] + a[1] * b[1]
            if dot < 0:
                la = math.hypot(a[0], a[1])
                lb = math.hypot(b[0], b[1])
                return float(a[2]) / la + float(b[2]) / lb > 0.01
    return True


# ---------------------------------------------------------------------------------------------------------------
# families

def stops(r):
    return r.choice([dict(stopconc=True, stopagg=False), dict(stopconc=False, stopagg=False),
                     dict(stopconc=True, stopagg=True), dict(stopconc=False, stopagg=True)])


def common(r, **kw):
    d = dict(urgent=r.random() < 0.25, strengthen=r.random() < 0.7, tt=r.random() < 0.7, skipzero=r.random() < 0.8,
             stopagg=False, stopconc=r.random() < 0.4, cex=False)
    d.update(kw)
    return d


def no_zero_loops(sc):
    'urgent guards with cycles may not terminate: drop the back transitions'
    if sc['settings']['urgent']:
        sc['trans'] = [t for t in sc['trans'] if t['dst'] > t['src']]
    return sc


def f_exact(r, sid):
    return no_zero_loops(scenario(r, sid, None, **common(r, agg='none')))


def f_exact_inputs(r, sid):
    return no_zero_loops(scenario(r, sid, dict(inputs=0.9, n=(3, 6), zero=0.2), **common(r, agg='none')))


def f_exact_resets(r, sid):
    return no_zero_loops(scenario(r, sid, dict(resets=0.9, mink=0.6, modes=(2, 3), n=(3, 6), loops=0.3), **common(r, agg='none')))


def agg_settings(r, kind, **kw):
    return common(r, agg=kind, deagg=False, pop=r.choice(['min', 'avg', 'max']), addguard=r.random() < 0.7,
                  samepath=r.random() < 0.7, **kw)


def f_box(r, sid):
    return no_zero_loops(scenario(r, sid, dict(square=True, modes=(2, 4), many=0.6, mixemb=r.random() < 0.5),
                                  **agg_settings(r, 'box')))


def f_arnoldi(r, sid):
    return no_zero_loops(scenario(r, sid, dict(square=True, modes=(2, 4), many=0.6, mixemb=r.random() < 0.5),
                                  **agg_settings(r, 'arnoldi')))


def f_chull(r, sid):
    return no_zero_loops(scenario(r, sid, dict(modes=(2, 3), many=0.5, n=(3, 5), inputs=0.1, loops=0.0, back=0.0),
                                  **agg_settings(r, 'chull')))


def f_single(r, sid):
    'one mode, invariants that cut again and again, long runs'
    return scenario(r, sid, dict(modes=(1, 1), inv=1.0, n=(8, 20), err=0.5, loops=0, size=F(1)), **common(r, agg='none'))


def tt_scenario(r, sid, **st):
    """clocks that hit the boundary of the invariant exactly, where the guard is the opposite condition"""
    z = F(0)
    h = r.choice([F(1, 4), F(1, 2), F(1, 8)])
    n = r.randint(4, 8)
    nm = r.randint(1, 3)
    kindsh = r.random()
    if kindsh < 0.6:
        emb = model.make_emb('xyw', perm=r.choice([None, [2, 0, 1], [1, 2, 0]]))
    elif kindsh < 0.8:
        emb = model.make_emb('xyw', extra=r.choice(EXTRAS))
    else:
        emb = model.make_emb('xyw', shear=r.choice([[[1, 0], [1, 1]], [[1, 1], [0, 1]]]))
    names = ['a', 'b', 'c']
    r.shuffle(names)
    modes, trans = [], []
    x0 = q(r, -1, 1)
    x = x0
    err = r.random() < 0.7
    for i in range(nm):
        c = r.choice([F(1), F(1), F(2), F(-1), F(1, 2)])
        yrow = r.choice([[z, z, z], [z, z, F(1)], [z, F(-1), F(1)], [F(1), z, z], [z, F(1, 2), z], [z, z, F(-2)]])
        m = {'name': names[i], 'err': False, 'emb': emb, 'A': [[z, z, c], yrow], 'inv': [], 'h': h}
        steps = r.randint(1, n) if r.random() < 0.8 else n
        away = r.random() < 0.2
        K = x + c * h * steps
        sg = 1 if c > 0 else -1
        if away:
            # the boundary is behind the set: it starts on it and moves away
            K = x - sg * r.choice([z, F(1, 100000), F(1, 100000)])
            sg = -sg
        m['inv'].append([F(sg), z, sg * K])
        if r.random() < 0.25:
            m['inv'].append([F(-sg), z, -sg * (K - sg * (6 + abs(c) * h * n))])
        if r.random() < 0.12:
            m['inv'].append([z, F(1), F(3)])
        if r.random() < 0.12:
            m['B'], m['U'] = [[r.choice([F(1), z])], [F(1)]], [[F(1), F(1, 4)], [F(-1), F(1, 4)]]
        modes.append(m)
        outs = []
        if i + 1 < nm:
            outs.append(i + 1)
        if err and r.random() < 0.6:
            outs.append(nm)
        if r.random() < 0.3:
            outs.append(i)
        if r.random() < 0.3:
            outs.append(r.randrange(nm))
        r.shuffle(outs)
        for dst in outs[:3]:
            guard = [[F(-sg), z, -sg * K]]
            if r.random() < 0.2:
                guard[0][2] += r.choice([F(1, 16), F(-1, 16)])
            if r.random() < 0.35:
                guard.append([z, r.choice([F(1), F(-1)]), q(r, -1, 1) + F(37, 10007)])
                if r.random() < 0.5:
                    guard.reverse()
            R = None
            if dst == i or (dst < nm and r.random() < 0.4):
                R = r.choice([[[z, z, x0], [z, F(1), z]], [[F(1), z, z], [z, F(1), z]], [[z, z, x0], [z, z, F(1)]],
                              [[F(1), z, F(-1)], [z, F(1), F(1, 2)]]])
            trans.append({'src': i, 'dst': dst, 'guard': guard, 'R': R, 'mink': None})
        x = K if r.random() < 0.8 else x0
    if err:
        modes.append({'name': 'zbad', 'err': True})
    init = []
    for k in range(r.randint(1, 3)):
        y = q(r, -1, 1)
        flat = r.random() < 0.8
        w = z if flat else r.choice([F(1, 4), F(1, 100)])
        xs = x0 if k == 0 or r.random() < 0.5 else x0 - q(r, 0, 1)
        init.append({'mode': 0 if k == 0 or nm == 1 else r.randrange(nm),
                     'cons': [[F(1), z, xs + w], [F(-1), z, -xs], [z, F(1), y + F(1, 2)], [z, F(-1), -y]]})
    return {'id': sid, 'n': n, 'h': h, 'modes': modes, 'trans': trans, 'init': init, 'settings': model.settings(**st),
            'fmt': r.randint(0, 1), 'short': shortfall(sid)}


def f_tt(r, sid):
    kind = r.choice(['none', 'none', 'none', 'box', 'chull'])
    kw = dict(agg=kind)
    if kind != 'none':
        kw = dict(agg=kind, deagg=False, pop=r.choice(['min', 'avg', 'max']), addguard=r.random() < 0.7,
                  samepath=r.random() < 0.7)
    d = common(r, **kw)
    d['tt'] = r.random() < 0.9
    d['urgent'] = r.random() < 0.4
    sc = tt_scenario(r, sid, **d)
    if kind == 'box':
        # templates are exact for square embeddings only
        for m in sc['modes']:
            if not m['err']:
                m['emb'] = EMB_SQ
    return no_zero_loops(sc)


EMB_SQ = model.make_emb('xyw')

def f_stops(r, sid):
    """several ways into error modes, under all stop settings"""
    kind = r.choice(['none', 'none', 'box', 'box', 'chull'])
    kw = dict(agg=kind)
    opt = dict(err=1.0, many=0.7, modes=(1, 3), n=(3, 7), inputs=0.1)
    if kind != 'none':
        kw.update(deagg=False, pop=r.choice(['min', 'avg', 'max']), addguard=r.random() < 0.7, samepath=r.random() < 0.6)
        opt.update(square=True, modes=(2, 3))
    if kind == 'chull':
        opt.update(n=(3, 4), loops=0, back=0)
    d = common(r, **kw)
    d.update(stops(r))
    sc = scenario(r, sid, opt, **d)
    # further transitions into the error mode, also from modes met early
    err = [i for i, m in enumerate(sc['modes']) if m['err']][0]
    for i, m in enumerate(sc['modes']):
        if not m['err'] and r.random() < 0.7 and len(sc['trans']) < 6:
            ts = [t for t in sc['trans'] if t['src'] == i]
            base = r.choice(ts)['guard'] if ts else []
            g = [list(x) for x in base]
            if g:
                g[0][2] += r.choice([F(0), F(1, 4), F(-1, 4), F(1, 2)])
                if not _compat(g):
                    g = g[:1]
            t = {'src': i, 'dst': err, 'guard': g, 'R': None, 'mink': None}
            if g or r.random() < 0.1:
                sc['trans'].insert(r.randrange(len(sc['trans']) + 1), t)
    if r.random() < 0.3:
        # a second error mode
        sc['modes'].append({'name': 'bad2', 'err': True})
        for t in sc['trans']:
            if t['dst'] == err and r.random() < 0.5:
                t['dst'] = len(sc['modes']) - 1
    return no_zero_loops(sc)


def f_cuts(r, sid):
    """invariants with several conditions, cutting again and again"""
    sc = scenario(r, sid, dict(modes=(1, 2), inv=0, n=(6, 14), inputs=0.35, size=F(1), err=0.5, resets=0.5,
                               dyn=['rot', 'node', 'shear', 'drift', 'rand']), **common(r, agg='none'))
    for i, m in enumerate(sc['modes']):
        if m['err']:
            continue
        ini = [x for x in sc['init'] if x['mode'] == i and 'cons' in x] or [x for x in sc['init'] if 'cons' in x]
        c = [r.uniform(-1, 1), r.uniform(-1, 1)]
        if ini:
            vs = poly_points(ini[0]['cons'])
            if vs:
                c = [sum(v[0] for v in vs) / len(vs), sum(v[1] for v in vs) / len(vs)]
        else:
            zs = [x for x in sc['init'] if 'center' in x]
            if zs:
                c = [float(zs[0]['center'][0]), float(zs[0]['center'][1])]
        tr = traj(m['A'], sc['h'], c, sc['n'])
        normals = r.sample(NORMALS, r.randint(2, 5))
        cand = []
        for a in normals:
            # passes close to the trajectory: cuts some part of the set at some steps
            k = r.randint(0, sc['n'])
            v = max(a[0] * p[0] + a[1] * p[1] for p in tr[:max(2, k)])
            cand.append([F(a[0]), F(a[1]), near(v + r.uniform(-0.15, 0.35))])
        # keep those the centre satisfies, so that the invariant is feasible
        m['inv'] = [h for h in cand if clip_ok(h, c)]
    return no_zero_loops(sc)


def poly_points(cons):
    """vertices of a small constraint system (floats)"""
    pts = []
    for i in range(len(cons)):
        for j in range(i):
            a, b = cons[i], cons[j]
            d = float(a[0] * b[1] - a[1] * b[0])
            if abs(d) < 1e-9:
                continue
            x = float(a[2] * b[1] - a[1] * b[2]) / d
            y = float(a[0] * b[2] - a[2] * b[0]) / d
            if all(float(h[0]) * x + float(h[1]) * y <= float(h[2]) + 1e-9 for h in cons):
                pts.append((x, y))
    return pts


def wide(r, sc, p):
    'conditions that also read the variable which is always 1'
    for x, i in [(m, 'inv') for m in sc['modes'] if not m['err']] + [(t, 'guard') for t in sc['trans']]:
        emb = x['emb'] if i == 'inv' else sc['modes'][x['src']]['emb']
        if emb.has_w:
            x[i] = [list(hp[:3]) + [r.choice([F(1), F(-1), F(1, 2)])] if r.random() < p else hp for hp in x[i]]
    return sc


def f_strengthen(r, sid):
    """identity resets into modes with invariants; guards that repeat or nearly repeat them"""
    d = common(r, agg='none')
    kind = r.choice(['none', 'none', 'box', 'chull'])
    opt = dict(modes=(2, 3), resets=0, inv=1.0, mixemb=False, many=0.5, n=(3, 7), inputs=0.1)
    if kind != 'none':
        d.update(agg=kind, deagg=False, pop=r.choice(['min', 'avg', 'max']), addguard=r.random() < 0.8, samepath=r.random() < 0.6)
        opt.update(square=True)
    if kind == 'chull':
        opt.update(n=(3, 4), loops=0, back=0)
    d['strengthen'] = r.random() < 0.85
    sc = scenario(r, sid, opt, **d)
    for t in sc['trans']:
        inv = sc['modes'][t['dst']].get('inv') or []
        if inv and r.random() < 0.6:
            hp = list(r.choice(inv))
            x = r.random()
            if x < 0.3:
                pass
            elif x < 0.5:
                hp[2] += F(1, 8)                       # weaker
            elif x < 0.7:
                hp[2] -= F(1, 8)                       # stronger
            elif x < 0.85:
                hp = [hp[1], hp[0], hp[2]]             # same bound, other direction
            else:
                hp = [hp[0], hp[1] + 1 if hp[1] == 0 else F(0), hp[2]]   # same bound, other sparsity
            if (hp[0] or hp[1]) and all(_compat([hp, g]) for g in t['guard']) and _compat(t['guard'] + [hp]) and len(t['guard']) < 3:
                t['guard'].append(hp)
    # a target invariant whose border goes through the set at the time of the jump, and a guard that nearly repeats it
    c = poly_points(model.init_cons(sc['init'][0]))
    m = sc['modes'][0]
    ts = [t for t in sc['trans'] if t['src'] == 0 and t['dst'] != 0 and t['R'] is None and not sc['modes'][t['dst']]['err']]
    if c and ts and r.random() < 0.6:
        t = r.choice(ts)
        p0 = [sum(v[0] for v in c) / len(c), sum(v[1] for v in c) / len(c)]
        k = r.randint(1, sc['n'] - 1)
        p = traj(m['A'], sc['h'], p0, sc['n'])[k]
        a = r.choice(NORMALS)
        hp = [F(a[0]), F(a[1]), near(a[0] * p[0] + a[1] * p[1] + r.uniform(-0.2, 0.2))]
        dst = sc['modes'][t['dst']]
        if all(_compat([hp, g]) for g in dst['inv']) and _compat(dst['inv'] + [hp]):
            dst['inv'] = dst['inv'] + [hp]
            g = hp[:2] + [hp[2] + r.choice([F(1, 16), F(1, 8), F(1, 4), F(1), F(-1, 16), F(0)])]
            if r.random() < 0.3:
                g = r.choice([[g[1], g[0], g[2]], [g[0] * 2, g[1] * 2, g[2]], [g[0], g[1], g[2]]])
            rest = [x for x in t['guard'][:r.randint(0, 1)] if _compat([x, g])]
            t['guard'] = r.choice([rest + [g], [g] + rest])
    wide(r, sc, r.choice([0, 0.2, 0.5]))
    return no_zero_loops(sc)


def f_zero(r, sid):
    """modes without dynamics, with and without inputs"""
    d = common(r, agg='none')
    d['skipzero'] = r.random() < 0.85
    sc = scenario(r, sid, dict(modes=(1, 3), inputs=0.35, n=(3, 6), many=0.6), **d)
    for m in sc['modes']:
        if not m['err'] and r.random() < 0.6:
            z = F(0)
            m['A'] = [[z, z, z], [z, z, z]]
    return no_zero_loops(sc)


def f_guards(r, sid):
    """several transitions, several conditions, jointly infeasible conditions, always-true guards, contact at entry"""
    d = common(r, agg='none')
    d['urgent'] = r.random() < 0.5
    sc = scenario(r, sid, dict(modes=(2, 4), many=0.9, loops=0.2, guard2=0.8, guardtrue=0.12, n=(3, 6), inputs=0.1, resets=0.5,
                               maxtrans=4), **d)
    for t in sc['trans']:
        x = r.random()
        if x < 0.15 and t['guard']:
            # two conditions that hold in different parts of the set
            g = t['guard'][0]
            a = r.choice(NORMALS)
            t['guard'] = [g, [F(a[0]), F(a[1]), near(r.uniform(-1, 1))]]
            if not _compat(t['guard']):
                t['guard'] = [g]
        elif x < 0.3 and t['guard']:
            # a slab
            g = t['guard'][0]
            t['guard'] = [g, [-g[0], -g[1], -g[2] + F(1, 20)]]
    wide(r, sc, r.choice([0, 0, 0.4]))
    return no_zero_loops(sc)


def f_cex(r, sid):
    """runs that reach an error mode, with everything a counterexample can contain"""
    kind = r.choice(['none'] * 5 + ['box', 'chull'])
    d = common(r, agg=kind, stopconc=r.random() < 0.85, cex=r.random() < 0.95)
    opt = dict(err=1.0, modes=(1, 3), n=(3, 8), inputs=0.35, resets=0.5, mink=0.4, loops=0.15, inits=3, inv=0.6)
    if kind != 'none':
        d.update(deagg=True, pop=r.choice(['min', 'avg', 'max']), addguard=True, samepath=True,
                 deaggpref=r.choice(['leaves', 'root', 'most']))
        opt.update(square=True, modes=(2, 3), n=(3, 5), loops=0, back=0, inputs=0.15)
    sc = scenario(r, sid, opt, **d)
    return no_zero_loops(sc)


def f_deaggin(r, sid):
    """aggregation that is undone, in modes with inputs, with quiet stretches that a replay jumps over"""
    return f_deagg(r, sid, dict(inputs=0.8, n=(5, 8), modes=(2, 3), inv=0.3, many=0.4, late=3))


def f_deagg(r, sid, more=()):
    """aggregation that is undone: several successors, errors behind aggregated sets"""
    kind = r.choice(['box', 'box', 'chull', 'arnoldi'])
    d = common(r, agg=kind, deagg=r.random() < 0.85, pop=r.choice(['min', 'avg', 'max']), addguard=r.random() < 0.7,
               samepath=r.random() < 0.6, deaggpref=r.choice(['leaves', 'root', 'most']))
    d['stopconc'] = r.random() < 0.3
    opt = dict(square=kind != 'chull', err=0.9, modes=(2, 4), n=(3, 6), loops=0.08, back=0.1, many=0.8, inputs=0.12,
               resets=0.3, inits=2, guard2=0.5)
    opt.update(more)
    if kind == 'chull':
        opt.update(modes=(2, 3), n=(3, 5), loops=0, back=0)
    sc = scenario(r, sid, opt, **d)
    if kind == 'chull':
        sc['trans'] = [t for t in sc['trans'] if t['dst'] > t['src']]      # hulls of hulls get large
    return no_zero_loops(sc)


def f_approx(r, sid):
    """the hull model"""
    d = common(r, agg=r.choice(['none', 'none', 'none', 'box', 'chull']), approx='chull', stopconc=r.random() < 0.3)
    opt = dict(n=(3, 6), modes=(1, 3), inputs=0.35, inv=0.8, loops=0.05, back=0, inits=2, size=F(1, 4), many=0.3)
    if d['agg'] != 'none':
        d.update(deagg=False, pop=r.choice(['min', 'avg', 'max']), addguard=r.random() < 0.7, samepath=r.random() < 0.6)
        opt.update(square=True, n=(3, 4), modes=(2, 2), loops=0, many=0)
    d['cex'] = r.random() < 0.5
    sc = scenario(r, sid, opt, **d)
    if r.random() < 0.35:
        sc['trans'] = [t for t in sc['trans'] if t['dst'] > t['src']]
    return no_zero_loops(sc)


def f_lgg(r, sid):
    """the continuous-time model; code variables are X and Y themselves"""
    d = common(r, agg=r.choice(['none', 'none', 'none', 'box', 'chull']), approx='lgg', stopconc=r.random() < 0.3)
    opt = dict(n=(2, 5), modes=(1, 2), inputs=0.5, inv=0.8, loops=0, back=0, inits=2, size=F(1, 4), many=0.3, trivial=True,
               kind='xy', zero=0.1, dyn=['rot', 'node', 'shear', 'rand', 'rand', 'drift'])
    if d['agg'] != 'none':
        d.update(deagg=False, pop=r.choice(['min', 'avg', 'max']), addguard=r.random() < 0.7, samepath=r.random() < 0.6)
        opt.update(n=(3, 4), modes=(2, 2), loops=0, many=0)
    d['cex'] = r.random() < 0.5
    sc = scenario(r, sid, opt, **d)
    sc['trans'] = [t for t in sc['trans'] if t['dst'] > t['src']]
    return no_zero_loops(sc)


def f_deaggapprox(r, sid):
    """aggregation that is undone, with an approximation model"""
    approx = r.choice(['chull', 'lgg'])
    d = common(r, agg='box', deagg=True, pop=r.choice(['min', 'avg', 'max']), addguard=r.random() < 0.7,
               samepath=r.random() < 0.6, deaggpref=r.choice(['leaves', 'root', 'most']), approx=approx)
    d['stopconc'] = r.random() < 0.3
    opt = dict(square=True, err=1.0, modes=(2, 2), n=(3, 4), loops=0, back=0, many=0.4, inputs=0.25, resets=0.3, inits=1,
               guard2=0.5, size=F(1, 4), inv=0.8)
    if approx == 'lgg':
        opt.update(trivial=True, kind='xy', dyn=['rot', 'node', 'shear', 'rand', 'rand', 'drift'])
    sc = scenario(r, sid, opt, **d)
    sc['trans'] = [t for t in sc['trans'] if t['dst'] > t['src']]
    return no_zero_loops(sc)


def f_sim(r, sid):
    """simulation of a number of points, with views for the result"""
    kind = r.choice(['none', 'box', 'box', 'arnoldi', 'chull'])
    d = common(r, agg=kind, skipzero=False, stopconc=False, tt=r.random() < 0.25, urgent=r.random() < 0.4)
    if kind != 'none':
        d.update(deagg=False, pop=r.choice(['min', 'avg', 'max']), addguard=r.random() < 0.7, samepath=r.random() < 0.6)
    wide = r.random() < 0.8
    opt = dict(square=True, mixemb=False, kind='xyw' if wide else 'xy', modes=(1, 4), n=(3, 9), inputs=0, mink=0, many=0.7,
               inv=0.7, infeas=0, inits=1, initkind='box', resets=0.4 if wide else 0, loops=0.15, errreset=0.2 if wide else 0,
               zero=0.1, guardtrue=0.1, back=0.2)
    if kind == 'chull':
        opt.update(n=(3, 4), modes=(1, 3), loops=0, back=0)
    sc = scenario(r, sid, opt, **d)
    sc['init'] = sc['init'][:1]
    emb = next(m['emb'] for m in sc['modes'] if not m['err'])
    ini = sc['init'][0]
    cons = ini['cons']

    # the box is in code variables
    box, hps = [], []
    c = [(cons[0][2] - cons[1][2]) / 2, (cons[2][2] - cons[3][2]) / 2]
    for row in emb.T:
        if row[0] == 0 and row[1] == 0:
            box.append([1.0, 1.0])
            continue
        mid = row[0] * c[0] + row[1] * c[1]
        lo, hi = mid - q(r, 0, 0.5, 8), mid + q(r, 0, 0.5, 8)
        box.append([float(lo), float(hi)])
        hps += [[row[0], row[1], hi], [-row[0], -row[1], -lo]]
    ini.clear()
    ini.update(mode=0, cons=hps, box=True)

    views, fun = [], []
    for _ in range(r.choice([1, 1, 2, 3])):
        view, fs = [], []
        for axis in range(2):
            x = r.random()
            if x < 0.25 and None not in view:
                view.append(None)
                fs.append([0, 0, 0, 1])
            elif x < 0.75:
                k = r.randrange(emb.n)
                view.append(k)
                fs.append(list(emb.T[k]) + [0] * (3 - len(emb.T[k])) + [0])
            else:
                v = [r.choice([-1, 0, 1, 2]) for _ in range(emb.n)]
                view.append([float(t) for t in v])
                f = [sum(t * emb.T[k][j] for k, t in enumerate(v)) for j in range(len(emb.T[0]))]
                fs.append(f + [0] * (3 - len(f)) + [0])
        views.append(view)
        fun.append(fs)
    num = r.randint(1, 5)
    skip = r.choice([0, 0, 0, 1, 2]) if num > 2 else 0
    sc['sim'] = dict(seed=r.randint(0, 1000), box=box, num=num, skip=skip, views=views, fun=fun, plain=r.random() < 0.8,
                     asdict=len(views) == 1 and r.random() < 0.1,
                     avoid=[k for k in range(len(sc['modes'])) if r.random() < 0.3] if r.random() < 0.3 else [],
                     cover=not d['tt'])
    sc['sim']['plain'] |= sc['sim']['asdict']
    return no_zero_loops(sc)


def picture(r, sc):
    """views for plotting: per view and axis, a dimension, a direction or time; either the same in all modes or one per mode.
    Returns (views for the code, the same as functions of the model's x and y)"""
    embs = [m.get('emb') for m in sc['modes']]
    real = [e for e in embs if e is not None]
    mixed = any(e.T != real[0].T for e in real)
    views, fun = [], []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        axes, fs = [], []
        times = r.choice([None, None, None, 0, 1])
        for axis in range(2):
            if times == axis:
                axes.append(None)
                fs.append([dict(t=True, f=[0, 0, 0])] * len(embs))
                continue
            per = mixed or r.random() < 0.2
            one, vals, f = None, {}, []
            for m, emb in zip(sc['modes'], embs):
                if emb is None:
                    f.append(dict(t=False, f=[0, 0, 0]))
                    continue
                if per or one is None:
                    k = r.randrange(emb.n)
                    one = k if r.random() < 0.6 else [float(r.choice([-1, 0, 1, 2, 0.5])) for _ in range(emb.n)]
                v = [F(one == k) for k in range(emb.n)] if isinstance(one, int) else [F(t) for t in one]
                g = [sum(t * emb.T[k][j] for k, t in enumerate(v)) for j in range(len(emb.T[0]))]
                f.append(dict(t=False, f=g + [0] * (3 - len(g))))
                vals[m['name']] = one
            axes.append(vals if per else one)
            fs.append(f)
        views.append(axes)
        fun.append(fs)
    return views, fun


def f_plot(r, sid):
    """runs of all kinds that store their plot"""
    kind = r.choice(['exact', 'exact_inputs', 'exact_resets', 'box', 'arnoldi', 'single', 'tt', 'zero', 'approx', 'lgg', 'guards'])
    sc = FAMILIES[kind](r, sid)
    sc['n'] = min(sc['n'], 6)
    views, fun = picture(r, sc)
    sc['plot'] = dict(views=views, fun=fun, plain=r.random() < 0.7, asks=r.randint(0, 4), seed=r.randint(0, 1000))
    return sc


def f_replot(r, sid):
    """runs that store their plot while aggregated sets are split"""
    sc = f_deagg(r, sid)
    sc['settings'].update(deagg=True, skipzero=False)
    views, fun = picture(r, sc)
    sc['plot'] = dict(views=views, fun=fun, plain=r.random() < 0.5, asks=0, seed=0)
    return sc


def reach_lines(m, h, verts, n):
    """for the set of each step: function of a direction, giving the lowest point of the set along it (floats)"""
    one = fexp(m['A'], h)
    us = [(0.0, 0.0)]
    if m.get('B') is not None:
        # effect of constant inputs: integral of the flow
        f = [[float(x) * float(h) for x in row] for row in m['A']]
        phi = [[1.0, 0.0], [0.0, 1.0]]
        term = [row[:] for row in phi]
        for k in range(2, 22):
            term = [[sum(term[i][t] * f[t][j] for t in range(2)) / k for j in range(2)] for i in range(2)]
            phi = [[phi[i][j] + term[i][j] for j in range(2)] for i in range(2)]
        b = [[float(x) for x in row] for row in m['B']]
        if len(b[0]) == 1:
            cs = [float(c[1]) / abs(float(c[0])) for c in m['U']]
            raw = [(cs[0],), (-cs[1],)]
        else:
            raw = poly_points(m['U'])
        bu = [[sum(b[i][j] * u[j] for j in range(len(u))) for i in range(2)] for u in raw]
        us = [tuple(float(h) * sum(phi[i][j] * v[j] for j in range(2)) for i in range(2)) for v in bu]

    rv = []
    cur = [list(v) for v in verts]
    add = []
    for _ in range(n + 1):
        def low(a, cur=cur, add=list(add)):
            pts = [min(ps, key=lambda p: a[0] * p[0] + a[1] * p[1]) for ps in [cur] + add]
            return [sum(p[0] for p in pts), sum(p[1] for p in pts)]
        rv.append(low)
        cur = [fstep(one, p) for p in cur]
        add = [[[one[0][0] * p[0] + one[0][1] * p[1], one[1][0] * p[0] + one[1][1] * p[1]] for p in ps] for ps in add] + [us]
    return rv


def exactly(x):
    'a decimal of nine digits'
    return F(round(x * 10**9), 10**9)


def f_near(r, sid):
    """conditions that the sets of the first mode miss or meet by very little"""
    sc = scenario(r, sid, dict(modes=(1, 2), inv=0.2, n=(3, 7), inits=1, infeas=0, loops=0, back=0, err=1.0, guardtrue=0,
                               resets=0.4, inputs=0.25, many=0.5, errreset=0.1), **common(r, agg='none', skipzero=False))
    m = sc['modes'][0]
    ini = sc['init'][0]
    m['inv'] = []
    verts = poly_points(model.init_cons(ini))
    if not verts:
        return sc
    low = reach_lines(m, sc['h'], verts, sc['n'])

    def extreme(a, ks):
        'the step at which the sets reach lowest, and the value'
        vals = [(a[0] * p[0] + a[1] * p[1], k) for k, p in ((k, low[k](a)) for k in ks)]
        return min(vals)

    def gap():
        return r.choice([1e-5, 3e-5, 1e-4, 4e-4, 1e-3, 5e-3]) * r.choice([1, -1])

    for t in sc['trans']:
        if t['src'] != 0:
            continue
        x = r.random()
        a = r.choice(NORMALS)
        if x < 0.5:
            # the lowest point of all sets, nearly
            v, k = extreme(a, range(1, sc['n'] + 1))
            t['guard'] = [[F(a[0]), F(a[1]), exactly(v + gap())]]
        elif x < 0.8:
            # two conditions that the set of some step satisfies only separately: a wedge that opens away from it
            v, k = extreme(a, range(1, sc['n'] + 1))
            p = low[k](a)
            g = gap()
            b = (-a[1], a[0])
            o = [p[0] + a[0] * g, p[1] + a[1] * g]
            rows = []
            for s in (1, -1):
                n = (a[0] * 2 + s * b[0], a[1] * 2 + s * b[1])
                rows.append([F(n[0]), F(n[1]), exactly(n[0] * o[0] + n[1] * o[1])])
            t['guard'] = rows
        else:
            # a step in the middle
            k = r.randint(1, sc['n'])
            p = low[k](a)
            t['guard'] = [[F(a[0]), F(a[1]), exactly(a[0] * p[0] + a[1] * p[1] + gap())]]

    for _ in range(r.choice([0, 1, 1, 2])):
        a = r.choice(NORMALS)
        k = r.randint(1, sc['n'])
        p = low[k]((-a[0], -a[1])) if r.random() < 0.6 else low[k](a)
        hp = [F(a[0]), F(a[1]), exactly(a[0] * p[0] + a[1] * p[1] + gap())]
        if any(clip_ok(hp, v) for v in verts) and _compat(m['inv'] + [hp]):
            m['inv'].append(hp)
    return no_zero_loops(sc)


FAMILIES = {k[2:]: v for k, v in list(globals().items()) if k.startswith('f_')}


def make(family, seed, index):
    r = rng_for(seed, family, index)
    sid = f'{family}-{seed}-{index}'
    return FAMILIES[family](r, sid)
