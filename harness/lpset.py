'''Operation sequences on symbolic sets: data for the schedules of LpOps.tla, run on the real objects, for LpSet.tla.'''

from fractions import Fraction as F
import random
import re

import gen
import model
import tlc
from model import dec, decs, flist, fmat

DIRS = model.DIRS


def parse(text):
    'a TLA+ value of tuples, sets, strings, integers, booleans -> python'
    tok = re.findall(r'<<|>>|[{}]|"[^"]*"|\\"[^"\\]*\\"|-?\d+|TRUE|FALSE', text)
    pos = 0

    def val():
        nonlocal pos
        t = tok[pos]
        pos += 1
        if t in ('<<', '{'):
            end = '>>' if t == '<<' else '}'
            rv = []
            while tok[pos] != end:
                rv.append(val())
            pos += 1
            return rv
        if t in ('TRUE', 'FALSE'):
            return t == 'TRUE'
        if t[0] in '"\\':
            return t.strip('\\"')
        return int(t)

    return val()


def schedules(cfg, extra=(), stride=1, offset=0, per_trace=None, seed=1):
    '(inp, operations) as printed by TLC; per_trace: random continuations of every simulated prefix to keep'
    r = tlc.run('LpOps', cfg, extra=list(extra), must_complete=not extra)
    lines = re.findall(r'^"SCHEDULE\|(.*)\|(.*)"$', r.out, re.M)
    if per_trace is not None:
        groups = {}
        for a, b in lines:
            key = (a, b[:b.rstrip('>').rfind('<<')])
            groups.setdefault(key, []).append((a, b))
        rnd = random.Random(seed)
        lines = [x for key in sorted(groups) for x in rnd.sample(sorted(groups[key]), min(per_trace, len(groups[key])))]
    else:
        lines = sorted(lines)[offset::stride]
    return [(parse(a), parse(b)) for a, b in lines], r


# ---------------------------------------------------------------------------------------------------------------
# data

def lin_map(r, has_w):
    z, o = F(0), F(1)
    m = r.choice([[[o, z], [z, o]], [[z, o], [-o, z]], [[o, F(1, 2)], [z, o]], [[F(1, 2), z], [z, F(3, 2)]], [[o, z], [z, z]],
                  [[-o, z], [z, o]], [[F(4, 5), F(-3, 5)], [F(3, 5), F(4, 5)]], [[o, o], [o, -o]], [[z, z], [z, z]]])
    return [row + [F(r.randint(-4, 4), 4) if has_w else z] for row in m]


def halfplane(r):
    a = r.choice(gen.NORMALS)
    return [F(a[0]), F(a[1]), F(round(r.uniform(-0.5, 1.2) * (abs(a[0]) + abs(a[1])) * 16), 16) + F(37, 10007)]


def make(seed, name, index, inp, ops):
    'a case'
    r = random.Random(f'{seed}/{name}/{index}')
    modes = []
    # a template leaves the plane when there are more variables
    agg = any(op[0] == 'agg' for op in ops)
    for m in range(2):
        has_w = m == 1
        emb = gen.pick_emb(r, kind='xyw' if has_w else 'xy', square=not has_w or agg)
        md = dict(emb=emb, A=gen.dyn(r, has_w, r.choice(['drift', 'rot', 'node', 'shear', 'rand', 'zero'])), B=None)
        if inp[m]:
            md['B'], md['U'] = gen.input_set(r)
        modes.append(md)

    h = r.choice([F(1, 4), F(1, 2), F(1, 10)])
    todo = []
    for op in ops:
        k = op[0]
        if k == 'new':
            m, kind = op[2], op[3]
            emb = modes[m - 1]['emb']
            if kind == 'box' and emb.n > 3:
                kind = 'zono'
            d = dict(op=k, s=op[1], m=m, kind=kind)
            c = [r.uniform(-1, 1), r.uniform(-1, 1)]
            if kind == 'zono':
                i = gen.init_set(r, c, 'zono')
                d['pt'], d['gens'] = i['center'], i['gens']
            elif kind == 'box':
                lo = [F(r.randint(-6, 6), 4) for _ in range(emb.n)]
                d['box'] = [[x, x + F(r.choice([0, 1, 2, 4]), 4)] for x in lo]
            elif kind in ('cons', 'lo'):
                d['H'] = gen.init_set(r, c, r.choice(['box', 'tri', 'diamond', 'seg', 'point']))['cons']
            else:
                kk = r.choice([1, 2])
                d['D'] = [[F(r.randint(-4, 4), 4) for _ in range(kk)] for _ in range(2)]
                a, b = F(r.randint(0, 3), 4), F(r.randint(0, 4), 4)
                if kk == 1:
                    d['C'] = [[F(1), a], [F(-1), b]]
                else:
                    d['C'] = [[F(1), F(0), a], [F(-1), F(0), b], [F(0), F(1), b], [F(0), F(-1), a]]
                    if r.random() < 0.4:
                        d['C'].append([F(1), F(1), (a + b) / 2])
                    if r.random() < 0.3:
                        d['C'].append([F(2), F(-1), a + b])
        elif k in ('clone',):
            d = dict(op=k, s=op[2], src=[op[1]])
        elif k == 'map':
            d = dict(op=k, s=op[1], seed=r.random())
        elif k == 'scale':
            d = dict(op=k, s=op[1], a=r.choice([F(1, 2), F(2), F(-1), F(3, 2), F(0), F(-1, 4)]))
        elif k in ('cut', 'recut', 'late'):
            d = dict(op=k, s=op[1], H=halfplane(r))
            if k == 'late' and r.random() < 0.4:
                d['H2'] = halfplane(r)
        elif k == 'bloat':
            d = dict(op=k, s=op[1], a=F(r.choice([0, 1, 2, 5]), 10))
        elif k == 'step':
            d = dict(op=k, s=op[1], j=op[2])
        elif k == 'reset':
            d = dict(op=k, s=op[1], m=op[2], seed=r.random(), idr=r.random() < 0.3,
                     mink=gen.mink_set(r) if r.random() < 0.35 else None)
        else:
            d = dict(op=k, src=op[1], s=op[2], extra=r.choice([None, None, r.choice(gen.NORMALS)]))
        d['q'] = [r.random() for _ in range(4)]
        d['qH'] = halfplane(r)
        d['qp'] = [F(round(r.uniform(-1.2, 1.2) * 16), 16), F(round(r.uniform(-1.2, 1.2) * 16), 16)]
        d['direct'] = r.random() < 0.5
        todo.append(d)
    return dict(id=f'{name}-{index}', h=h, modes=modes, ops=todo, rseed=f'{seed}/{name}/{index}/run')


# ---------------------------------------------------------------------------------------------------------------
# the real objects

BLANK = dict(op='', s=1, src=[], m=1, H=[], F=[[dec(0)] * 3] * 2, a=dec(0), pt=[dec(0)] * 2, cols=[], j=0, mink=False,
             MD=model.ZB, MC=[], D=[], st=[], qs=[])


def replay(case):
    'run the operations'
    import traceback
    import numpy as np
    from scipy.sparse import csr_matrix
    import swiglpk as glpk
    import record
    record.quiet()
    from hylaa import lputil
    from hylaa.hybrid_automaton import HybridAutomaton, LinearConstraint
    from hylaa.stateset import StateSet

    sc = dict(modes=[dict(emb=m['emb']) for m in case['modes']])
    probe = record.Probe(sc)
    rnd = random.Random(case['rseed'])
    log = []
    rv = {'status': 'ok', 'exc': '', 'kind': '', 'log': log}

    ha = HybridAutomaton()
    modes = []
    for i, m in enumerate(case['modes']):
        mode = ha.new_mode(f'm{i}')
        mode.set_dynamics(fmat(model.code_A(m['emb'], m['A'])))
        if m['B'] is not None:
            mode.set_inputs(fmat(model.code_B(m['emb'], m['B'])), fmat([c[:-1] for c in m['U']]),
                            flist([c[-1] for c in m['U']]), allow_constants=True)
        mode.init_time_elapse(float(case['h']))
        modes.append(mode)

    slots = {}    # slot -> dict(lpi, m, ss, bm, ie, rows)

    def emb(m):
        return case['modes'][m - 1]['emb']

    def code_map(m, aff):
        e = emb(m)
        rows = [list(aff[0]), list(aff[1]), [F(0), F(0), F(1)]] if e.has_w else [list(aff[0][:2]), list(aff[1][:2])]
        return np.array(fmat(model.matmul(model.matmul(e.T, rows), e.L)))

    def fresh(lpi, m):
        return dict(lpi=lpi, m=m, ss=None, bm=None, ie=None, rows=[])

    def feasible(s):
        return slots[s]['lpi'].clone().is_feasible()

    def pins(m):
        e = emb(m)
        rows = [(list(n), F(0)) for n in e.N]
        if e.has_w:
            rows.append((list(e.L[2]), F(1)))
        return rows

    def new(d, rec):
        m, e, mode = d['m'], emb(d['m']), modes[d['m'] - 1]
        kind = d['kind']
        rec['op'], rec['m'] = 'new', m
        rec['F'] = [decs([1, 0, 0]), decs([0, 1, 0])]
        if kind == 'zono':
            rec['op'] = 'zono'
            rec['pt'], rec['cols'] = decs(d['pt']), [decs(g) for g in d['gens']]
            one = [F(1)] if e.has_w else []
            zero = [F(0)] if e.has_w else []
            center = flist([x[0] for x in model.matmul(e.T, [[v] for v in d['pt'] + one])])
            gens = [flist([x[0] for x in model.matmul(e.T, [[v] for v in list(g) + zero])]) for g in d['gens']]
            return lputil.from_zonotope(center, gens, mode)
        if kind == 'box':
            # a box over the code variables: the position of the affine variable is pinned
            box = [list(b) for b in d['box']]
            wpos = None
            if e.has_w:
                wpos = [k for k in range(e.n) if e.T[k][0] == 0 and e.T[k][1] == 0][0]
                box[wpos] = [F(1), F(1)]
            idx = [k for k in range(e.n) if k != wpos]
            rec['H'] = []
            for k, sgn in enumerate([(1, 0), (0, 1)]):
                lo, hi = box[idx[k]]
                rec['H'] += [decs([sgn[0], sgn[1], hi]), decs([-sgn[0], -sgn[1], -lo])]
            rec['F'] = [decs([e.L[k][idx[0]], e.L[k][idx[1]], e.L[k][wpos] if wpos is not None else 0]) for k in range(2)]
            return lputil.from_box([flist(b) for b in box], mode)
        if kind in ('cons', 'lo'):
            rows, rhs, types = [], [], []
            for hp in d['H']:
                a, b = model.code_row(e, hp)
                if kind == 'lo' and rnd.random() < 0.6:
                    rows.append([-x for x in a])
                    rhs.append(-b)
                    types.append(glpk.GLP_LO)
                else:
                    rows.append(a)
                    rhs.append(b)
                    types.append(glpk.GLP_UP)
            for a, b in pins(d['m']):
                if kind == 'lo':
                    rows.append(a)
                    rhs.append(b)
                    types.append(glpk.GLP_FX)
                else:
                    rows += [a, [-x for x in a]]
                    rhs += [b, -b]
                    types += [glpk.GLP_UP] * 2
            rec['H'] = [decs(hp) for hp in d['H']]
            mat = fmat(rows)
            if rnd.random() < 0.5:
                mat = csr_matrix(mat, dtype=float)
            if kind == 'lo':
                return lputil.from_constraints(mat, flist(rhs), mode, types=types, names=[f'v{k}' for k in range(e.n)])
            return lputil.from_constraints(mat, flist(rhs), mode)
        # {D y : y in C}
        kk = len(d['D'][0])
        rec['H'] = model._pad_set(d['C'], kk)
        rec['F'] = [decs(list(row) + [0] * (3 - len(row))) for row in d['D']]
        if kind == 'binp':
            bm = model.code_B(e, d['D'])
            return lputil.from_input_constraints(fmat(bm), fmat([c[:-1] for c in d['C']]), flist([c[-1] for c in d['C']]), mode)
        full = [list(d['D'][0]), list(d['D'][1])]
        const = [F(0), F(0)]
        if e.has_w:
            full.append([F(0)] * kk)
            const.append(F(1))
        zd = model.matmul(e.T, full)
        zc = [x[0] for x in model.matmul(e.T, [[v] for v in const])]
        rows, rhs, types = [], [], []
        for k in range(e.n):
            row = [F(1) if j == k else F(0) for j in range(e.n)] + [-x for x in zd[k]]
            rows.append(row)
            rhs.append(zc[k])
            types.append(glpk.GLP_FX)
        for cst in d['C']:
            rows.append([F(0)] * e.n + list(cst[:-1]))
            rhs.append(cst[-1])
            types.append(glpk.GLP_UP)
        if rnd.random() < 0.5:
            return lputil.from_constraints(fmat(rows), flist(rhs), mode, types=types, names=[f'v{k}' for k in range(e.n + kk)],
                                           dims=e.n)
        r2, b2 = [], []
        for row, b, t in zip(rows, rhs, types):
            r2.append(row)
            b2.append(b)
            if t == glpk.GLP_FX:
                r2.append([-x for x in row])
                b2.append(-b)
        return lputil.from_constraints(fmat(r2), flist(b2), mode, dims=e.n)

    def run(d, rec):
        k = d['op']
        s = d['s']
        args = d.get('src', [s])
        if k == 'new':
            slots[s] = fresh(new(d, rec), d['m'])
            return True
        if any(a not in slots for a in args) or (k != 'clone' and not all(feasible(a) for a in args)):
            return False
        v = slots.get(s)
        rec['op'] = k
        if k == 'clone':
            o = slots[d['src'][0]]
            slots[s] = dict(o, lpi=o['lpi'].clone(), ss=None, rows=list(o['rows']), ie=None if o['ie'] is None else list(o['ie']))
        elif k == 'map':
            aff = lin_map(random.Random(d['seed']), emb(v['m']).has_w)
            lputil.set_basis_matrix(v['lpi'], code_map(v['m'], aff))
            rec['F'] = [decs(row) for row in aff]
        elif k == 'scale':
            lputil.scale_with_bm(v['lpi'], float(d['a']))
            rec['a'] = dec(d['a'])
        elif k in ('cut', 'recut'):
            a, b = model.code_row(emb(v['m']), d['H'])
            vec = np.array(flist(a))
            rec['H'] = [decs(d['H'])]
            if k == 'cut' or not v['rows']:
                row = lputil.add_init_constraint(v['lpi'], vec, float(b), basis_matrix=v['bm'], input_effects_list=v['ie'])
                rec['op'] = 'cut'
            else:
                row, _ = lputil.try_replace_init_constraint(v['lpi'], v['rows'].pop(), vec, float(b), basis_mat=v['bm'],
                                                            input_effects_list=v['ie'])
            v['rows'].append(row)
        elif k == 'late':
            hs = [d['H']] + ([d['H2']] if 'H2' in d else [])
            rows = [model.code_row(emb(v['m']), x) for x in hs]
            lputil.add_curtime_constraints(v['lpi'], csr_matrix(fmat([a for a, _ in rows]), dtype=float),
                                           np.array(flist([b for _, b in rows])))
            rec['H'] = [decs(x) for x in hs]
        elif k == 'bloat':
            lputil.bloat(v['lpi'], float(d['a']))
            e = emb(v['m'])
            rec['a'] = dec(d['a'])
            rec['cols'] = [decs([e.L[0][j], e.L[1][j]]) for j in range(e.n)]
        elif k == 'step':
            if v['ss'] is None:
                if v['bm'] is not None:
                    return False
                v['ss'] = StateSet(v['lpi'], modes[v['m'] - 1])
            ss = v['ss']
            ss.step(ss.cur_step_in_mode + d['j'])
            v['bm'], v['ie'] = ss.basis_matrix, ss.input_effects_list
            rec['j'] = d['j']
        elif k == 'reset':
            src, dst = emb(v['m']), emb(d['m'])
            rr = random.Random(d['seed'])
            aff = lin_map(rr, src.has_w and dst.has_w)
            if d['idr'] and d['m'] == v['m']:
                aff = [[F(1), F(0), F(0)], [F(0), F(1), F(0)]]
            rc, const = model.code_R(src, dst, aff)
            mk = d['mink']
            D = [[] for _ in range(dst.n)]
            cons = []
            if mk:
                md = [list(mk['D'][0]), list(mk['D'][1])] + ([[F(0)] * len(mk['D'][0])] if dst.has_w else [])
                D = model.matmul(dst.T, md)
                cons = [list(x) for x in mk['C']]
            if const is not None:
                D = [row + [x] for row, x in zip(D, const)]
                cons = [x[:-1] + [F(0), x[-1]] for x in cons]
                kk = len(D[0])
                cons += [[F(0)] * (kk - 1) + [F(1), F(1)], [F(0)] * (kk - 1) + [F(-1), F(-1)]]
            kw = {}
            if D[0]:
                kw = dict(minkowski_csr=csr_matrix(fmat(D), dtype=float),
                          minkowski_constraints_csr=csr_matrix(fmat([x[:-1] for x in cons]), dtype=float),
                          minkowski_constraints_rhs=np.array(flist([x[-1] for x in cons])))
            if not (d['idr'] and d['m'] == v['m']):
                kw['reset_csr'] = csr_matrix(fmat(rc), dtype=float)
            lputil.add_reset_variables(v['lpi'], d['m'] - 1, 0, successor_has_inputs=case['modes'][d['m'] - 1]['B'] is not None, **kw)
            slots[s] = fresh(v['lpi'], d['m'])
            rec['m'] = d['m']
            rec['F'] = [decs(row) for row in aff]
            if mk:
                rec['mink'], rec['MD'], rec['MC'] = True, model._pad_cols(mk['D']), model._pad_set(mk['C'], len(mk['D'][0]))
        else:
            m = slots[d['src'][0]]['m']
            if any(slots[a]['m'] != m for a in d['src']):
                return False
            lpis = [slots[a]['lpi'] for a in d['src']]
            mode = modes[m - 1]
            if k == 'hull':
                lpi = lputil.aggregate_chull(lpis, mode)
            elif k == 'sum':
                lpi = lputil.minkowski_sum(lpis, mode)
            else:
                e = emb(m)
                mat = [[F(1) if i == j else F(0) for j in range(e.n)] for i in range(e.n)]
                dirs = [[row[0], row[1]] for row in e.T if row[0] != 0 or row[1] != 0]
                if d['extra']:
                    mat.append(model.code_dir(e, d['extra']))
                    dirs.append(list(d['extra']))
                lpi = lputil.aggregate(lpis, np.array(fmat(mat)), mode)
                rec['D'] = [decs(x) for x in dirs]
            slots[s] = fresh(lpi, m)
            rec['m'], rec['src'] = m, list(d['src'])
        if k == 'clone':
            rec['src'] = list(d['src'])
        return True

    def look(d, rec):
        'what is seen of all handles, and queries'
        for s in sorted(slots):
            lpi = slots[s]['lpi']
            one = dict(s=s, feas=True, sup=[], off=dec(0))
            use = lpi if d['direct'] else lpi.clone()
            if use.is_feasible():
                m = slots[s]['m'] - 1
                one['sup'] = [dec(probe.supp(use, v)) for v in probe.dirs[m]]
                off = 0.0
                e = emb(m + 1)
                for k, v in enumerate(probe.nulls[m]):
                    expect = 0.0
                    if e.has_w and k >= len(probe.nulls[m]) - 2:
                        expect = 1.0 if k == len(probe.nulls[m]) - 2 else -1.0
                    off = max(off, abs(probe.supp(use, v) - expect))
                one['off'] = dec(off)
            else:
                one['feas'] = False
            rec['st'].append(one)

        s = d['s']
        if s not in slots or not feasible(s):
            return
        lpi, e = slots[s]['lpi'], emb(slots[s]['m'])
        base = dict(q='', s=s, H=decs([0, 0, 0]), pt=decs([0, 0]), ans='', vec=[], a=dec(0))
        if d['q'][0] < 0.5:
            a, b = model.code_row(e, d['qH'])
            ans = lputil.check_intersection(lpi, LinearConstraint(fmat([a]), float(b)))
            rec['qs'].append(dict(base, q='meets', H=decs(d['qH']), ans='none' if ans is None else ('yes' if ans else 'no')))
        if d['q'][1] < 0.4:
            z = [x[0] for x in model.matmul(e.T, [[v] for v in list(d['qp']) + ([F(1)] if e.has_w else [])])]
            ans = lputil.is_point_in_lpi(flist(z), lpi)
            rec['qs'].append(dict(base, q='point', pt=decs(d['qp']), ans='yes' if ans else 'no'))
        if d['q'][2] < 0.4:
            vec = lputil.get_box_center(lpi)
            rec['qs'].append(dict(base, q='centre', vec=[] if vec is None else [dec(float(x)) for x in vec]))
        if d['q'][3] < 0.4:
            rec['qs'].append(dict(base, q='radius', a=dec(float(lputil.compute_radius_inf(lpi)))))

    d = None
    try:
        for d in case['ops']:
            rec = dict(BLANK, s=d['s'], st=[], qs=[])
            if run(d, rec):
                look(d, rec)
                log.append(rec)
    except Exception as ex:  # pylint: disable=broad-except
        rv.update(status='exc', exc=f'{d["op"]} after {len(log)}: {type(ex).__name__}: {ex}', kind=type(ex).__name__,
                  tb=traceback.format_exc(limit=-4))
    return rv


def tla_case(case, res):
    'for LpSet'
    ms = []
    for m in case['modes']:
        e = m['emb']
        ms.append(dict(A=model._aff(m['A']), hasU=m['B'] is not None,
                       B=model._pad_cols(m['B']) if m['B'] is not None else model.ZB,
                       U=model._pad_set(m['U'], len(m['B'][0])) if m['B'] is not None else [],
                       T=[decs(list(row) + ([] if e.has_w else [0])) for row in e.T]))
    return dict(id=case['id'], h=dec(case['h']), modes=ms, dirs=[decs(x) for x in DIRS], log=res.get('log', []),
                status=res['status'], exc=res.get('exc') or '')
