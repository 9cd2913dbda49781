'''
Scenario model: a small hybrid automaton over the model plane (X, Y), with exact rational data, and its embedding into
the (possibly higher-dimensional) state space of the real code.

A scenario is written down once, in model coordinates, as plain dicts of Fractions / ints / strings. Two consumers
exist: to_json() renders it for the TLA+ specification (decimals, see spec/Dec.tla) and build() constructs the real
hylaa objects through the public API only.

Embedding of a mode: code state z = T (X, Y, W)^T with W = 1 the affine variable (T: n x 3), or z = T (X, Y)^T (T: n x 2)
for modes without one. L is a left inverse of T, N spans the rows with N T = 0.
'''

from fractions import Fraction as F
import math

E12 = 10**12
E9 = 10**9


def dec(x):
    'Fraction / int / float -> [h, l] decimal, rounded to nearest 1e-12'

    if isinstance(x, float):
        if math.isnan(x):
            return [2000000, 0]
        x = max(-1.9e6, min(1.9e6, x))
        x = F(x)

    v = F(x) * E12
    v = (2 * v.numerator + v.denominator) // (2 * v.denominator)
    lim = 19 * 10**17
    v = max(-lim, min(lim, v))
    return [v // E9, v % E9]


def undec(d):
    'decimal -> float'
    return (d[0] * E9 + d[1]) / E12


def decs(xs):
    return [dec(x) for x in xs]


def matmul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), F(0)) for j in range(len(b[0]))] for i in range(len(a))]


def fmat(m):
    return [[float(x) for x in row] for row in m]


def flist(v):
    return [float(x) for x in v]


class Emb:
    'embedding of the model plane into code space'

    def __init__(self, T, L, N, has_w, kind):
        self.T, self.L, self.N, self.has_w, self.kind = T, L, N, has_w, kind
        self.n = len(T)


def _inv2(m):
    det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return [[F(m[1][1]) / det, F(-m[0][1]) / det], [F(-m[1][0]) / det, F(m[0][0]) / det]]


def make_emb(kind, shear=None, perm=None, extra=None):
    '''kind: 'xy' or 'xyw'; shear: 2x2 unimodular integer matrix; extra: list of rows (combos of X, Y[, W]) appended as
    additional code variables; perm: permutation of the code variables'''

    s = shear or [[1, 0], [0, 1]]
    si = _inv2(s)
    has_w = kind == 'xyw'
    w = 3 if has_w else 2

    rows = [[F(s[i][0]), F(s[i][1])] + ([F(0)] if has_w else []) for i in range(2)]
    left = [[si[0][0], si[0][1]], [si[1][0], si[1][1]]]

    if has_w:
        rows.append([F(0), F(0), F(1)])
        left = [left[0] + [F(0)], left[1] + [F(0)], [F(0), F(0), F(1)]]

    base = len(rows)
    nulls = []
    extra = extra or []

    for i, e in enumerate(extra):
        e = [F(x) for x in e] + [F(0)] * (w - len(e))
        rows.append(e)
        for lrow in left:
            lrow.append(F(0))

    n = len(rows)
    for i, e in enumerate(extra):
        e = [F(x) for x in e] + [F(0)] * (w - len(e))
        # null row: z_{base+i} - e L z = 0
        comb = matmul([e], left)[0]
        row = [-c for c in comb]
        row[base + i] += 1
        nulls.append(row)

    if perm:
        rows = [rows[p] for p in perm]
        left = [[lrow[p] for p in perm] for lrow in left]
        nulls = [[r[p] for p in perm] for r in nulls]

    return Emb(rows, left, nulls, has_w, kind)


def code_row(emb, hp):
    'model half-plane (a, b, c) -> (row over code variables, rhs); "w" in hp moves part of c into the W column'

    a, b, c = F(hp[0]), F(hp[1]), F(hp[2])
    w = F(hp[3]) if len(hp) > 3 and emb.has_w else F(0)
    vec = [a, b] + ([w] if emb.has_w else [])
    return matmul([vec], emb.L)[0], c + w


def code_dir(emb, d):
    'direction over (X, Y) -> direction over code variables'
    vec = [F(d[0]), F(d[1])] + ([F(0)] if emb.has_w else [])
    return matmul([vec], emb.L)[0]


def code_A(emb, A):
    'affine model dynamics (2x3) -> code A matrix'
    if emb.has_w:
        m = [list(A[0]), list(A[1]), [F(0)] * 3]
    else:
        assert A[0][2] == 0 and A[1][2] == 0
        m = [list(A[0][:2]), list(A[1][:2])]
    return matmul(matmul(emb.T, m), emb.L)


def code_B(emb, B):
    m = [list(B[0]), list(B[1])] + ([[F(0)] * len(B[0])] if emb.has_w else [])
    return matmul(emb.T, m)


def code_R(src, dst, R):
    '''affine model map (2x3) -> code reset matrix plus the constant part that the matrix cannot produce (only when the
    source has no W); the constant part is a list over dst code variables, or None'''

    const = None
    if src.has_w:
        m = [list(R[0]), list(R[1])]
        if dst.has_w:
            m.append([F(0), F(0), F(1)])
        return matmul(matmul(dst.T, m), src.L), None

    m = [list(R[0][:2]), list(R[1][:2])] + ([[F(0), F(0)]] if dst.has_w else [])
    col = [[F(R[0][2])], [F(R[1][2])]] + ([[F(1)]] if dst.has_w else [])
    if any(x[0] != 0 for x in col):
        const = [r[0] for r in matmul(dst.T, col)]
    return matmul(matmul(dst.T, m), src.L), const


# ---------------------------------------------------------------------------------------------------------------
# JSON for the specification

def _hp(h):
    return decs([h[0], h[1], h[2]])


def _aff(R):
    return [decs(R[0]), decs(R[1])]


def _pad_set(cons, nv):
    'constraints over nv variables (rows + rhs) -> half-planes over exactly two variables (second pinned to 0)'
    if nv == 1:
        return [decs([c[0], 0, c[1]]) for c in cons] + [decs([0, 1, 0]), decs([0, -1, 0])]
    return [decs(c) for c in cons]


def _pad_cols(B):
    return [decs(list(r) + [0] * (2 - len(r))) for r in B]


ZB = [[dec(0), dec(0)], [dec(0), dec(0)]]


def emb_of(sc, mode_index):
    return sc['modes'][mode_index]['emb']


def template_dirs(sc, t):
    'model-space directions of the aggregation template after transition t: code axes, guard rows through the reset'

    tr = sc['trans'][t]
    dst = emb_of(sc, tr['dst'])
    src = emb_of(sc, tr['src'])
    axes = [[r[0], r[1]] for r in dst.T if r[0] != 0 or r[1] != 0]
    guards = []

    for h in tr['guard']:
        g, _ = code_row(src, h)
        if tr['R'] is None:
            d = g
        else:
            rc, _ = code_R(src, dst, tr['R'])
            d = [sum((rc[i][k] * g[k] for k in range(len(g))), F(0)) for i in range(len(rc))]
        m = [sum((dst.T[i][j] * d[i] for i in range(dst.n)), F(0)) for j in range(2)]
        if m[0] != 0 or m[1] != 0:
            guards.append(m)

    return axes, guards


DIRS = [(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1), (1, -1), (-1, 1),
        (2, 1), (-2, -1), (1, 2), (-1, -2), (2, -1), (-2, 1), (1, -2), (-1, 2)]


def to_json(sc):
    'the scenario for the specification'

    modes = []
    for m in sc['modes']:
        if m['err']:
            modes.append({'name': m['name'], 'err': True, 'A': _aff([[0, 0, 0], [0, 0, 0]]), 'inv': [], 'hasU': False, 'B': ZB,
                          'U': [], 'zero': True, 'cA': [], 'cinv': [], 'cT': [], 'axes': []})
            continue

        emb = m['emb']
        ca = code_A(emb, m['A'])
        cinv = [code_row(emb, h) for h in m['inv']]
        modes.append({
            'name': m['name'],
            'err': False,
            'A': _aff(m['A']),
            'inv': [_hp(h) for h in m['inv']],
            'hasU': m.get('B') is not None,
            'B': _pad_cols(m['B']) if m.get('B') is not None else ZB,
            'U': _pad_set(m['U'], len(m['B'][0])) if m.get('B') is not None else [],
            'zero': all(x == 0 for row in ca for x in row),
            'cA': [decs(r) for r in ca],
            'cinv': [decs(list(r) + [c]) for r, c in cinv],
            'cT': [decs(list(r) + ([0] if not emb.has_w else [])) for r in emb.T],
            'axes': [decs([r[0], r[1]]) for r in emb.T if r[0] != 0 or r[1] != 0],
        })

    trans = []
    for i, t in enumerate(sc['trans']):
        src = emb_of(sc, t['src'])
        cg = [code_row(src, h) for h in t['guard']]
        mk = t.get('mink')
        axes, gdirs = ([], [])
        if not sc['modes'][t['dst']]['err']:
            axes, gdirs = template_dirs(sc, i)
        trans.append({
            'src': t['src'] + 1, 'dst': t['dst'] + 1,
            'guard': [_hp(h) for h in t['guard']],
            'idr': t['R'] is None,
            'R': _aff(t['R'] if t['R'] is not None else [[1, 0, 0], [0, 1, 0]]),
            'mink': mk is not None,
            'MD': _pad_cols(mk['D']) if mk else ZB,
            'MC': _pad_set(mk['C'], len(mk['D'][0])) if mk else [],
            'cguard': [decs(list(r) + [c]) for r, c in cg],
            'gdirs': [decs(d) for d in gdirs],
        })

    return {
        'id': sc['id'], 'T': dec(time_bound(sc)), 'h': dec(sc['h']),
        'modes': modes, 'trans': trans,
        'init': [{'mode': i['mode'] + 1, 'H': [_hp(h) for h in init_cons(i)]} for i in sc['init']],
        'set': sc['settings'],
        'dirs': [decs(d) for d in sc.get('dirs', DIRS)],
    }


def time_bound(sc):
    'the time bound: n steps, where the last one may end after the bound'
    return sc['h'] * sc['n'] - sc['h'] * sc.get('short', 0)


def init_cons(i):
    'half-planes of an initial set (a zonotope is turned into half-planes)'

    if 'cons' in i:
        return i['cons']

    cx, gens = i['center'], i['gens']
    rows = []
    dirs = []
    for g in gens:
        dirs.append((-F(g[1]), F(g[0])))
        dirs.append((F(g[1]), -F(g[0])))
    if len(dirs) <= 2 or all(dirs[0][0] * d[1] == dirs[0][1] * d[0] for d in dirs):
        dirs += [(F(1), F(0)), (F(-1), F(0)), (F(0), F(1)), (F(0), F(-1))]
    for d in dirs:
        if d[0] == 0 and d[1] == 0:
            continue
        c = d[0] * cx[0] + d[1] * cx[1] + sum((abs(d[0] * g[0] + d[1] * g[1]) for g in gens), F(0))
        rows.append([d[0], d[1], c])
    return rows


# ---------------------------------------------------------------------------------------------------------------
# the real thing

def build(sc):
    '''construct the real automaton and initial sets. Returns (ha, modes, transitions, init_list, settings)'''

    ha, modes, transitions = build_ha(sc)
    init = build_init(sc, modes)
    return ha, modes, transitions, init, build_settings(sc)


def build_ha(sc, store=None):
    'store: where the arrays come from that are given to the automaton (see session.Store)'
    import numpy as np
    from scipy.sparse import csr_matrix
    from hylaa.hybrid_automaton import HybridAutomaton

    fmt = sc.get('fmt', 0)

    vec = store.vec if store else flist

    def mat(rows, cols):
        if store:
            return store.mat(rows, cols)
        f = [flist(r) for r in rows]
        if not f:
            return csr_matrix((0, cols), dtype=float)
        return csr_matrix(f, dtype=float) if fmt else f

    ha = HybridAutomaton()
    modes = []
    for m in sc['modes']:
        mode = ha.new_mode(m['name'])
        modes.append(mode)
        if m['err']:
            continue
        emb = m['emb']
        mode.set_dynamics(mat(code_A(emb, m['A']), emb.n))
        if m['inv']:
            rows = [code_row(emb, h) for h in m['inv']]
            mode.set_invariant(mat([r for r, _ in rows], emb.n), vec([c for _, c in rows]))
        if m.get('B') is not None:
            cons = m['U']
            nv = len(m['B'][0])
            mode.set_inputs(mat(code_B(emb, m['B']), nv), mat([c[:-1] for c in cons], nv), vec([c[-1] for c in cons]),
                            allow_constants=True)

    transitions = []
    for t in sc['trans']:
        tr = ha.new_transition(modes[t['src']], modes[t['dst']])
        transitions.append(tr)
        src = emb_of(sc, t['src'])
        if not t['guard']:
            tr.set_guard_true()
        else:
            rows = [code_row(src, h) for h in t['guard']]
            tr.set_guard(mat([r for r, _ in rows], src.n), vec([c for _, c in rows]))

        if t['R'] is None:
            continue

        dst_err = sc['modes'][t['dst']]['err']
        dst = src if dst_err else emb_of(sc, t['dst'])
        rc, const = code_R(src, dst, t['R'])
        mk = t.get('mink')
        if mk is None and const is None:
            tr.set_reset(mat(rc, src.n))
        else:
            D = [[F(0)] * 0 for _ in range(dst.n)]
            cons = []
            if mk is not None:
                md = [list(mk['D'][0]), list(mk['D'][1])] + ([[F(0)] * len(mk['D'][0])] if dst.has_w else [])
                D = matmul(dst.T, md)
                cons = [list(c) for c in mk['C']]
            if const is not None:
                D = [row + [c] for row, c in zip(D, const)]
                cons = [c[:-1] + [F(0), c[-1]] for c in cons]
                k = len(D[0])
                cons.append([F(0)] * (k - 1) + [F(1), F(1)])
                cons.append([F(0)] * (k - 1) + [F(-1), F(-1)])
            rhs = vec([c[-1] for c in cons])
            tr.set_reset(mat(rc, src.n), mat(D, len(D[0])), mat([c[:-1] for c in cons], len(D[0])),
                         rhs if store else np.array(rhs, dtype=float))

    return ha, modes, transitions


def build_init(sc, modes):
    from hylaa.stateset import StateSet

    rv = []
    for i in sc['init']:
        rv.append(StateSet(init_lpi(sc, i, modes), modes[i['mode']]))
    return rv


def init_lpi(sc, i, modes):
    from hylaa import lputil

    emb = emb_of(sc, i['mode'])
    mode = modes[i['mode']]

    if 'center' in i:
        c = [F(i['center'][0]), F(i['center'][1])] + ([F(1)] if emb.has_w else [])
        center = flist([r[0] for r in matmul(emb.T, [[x] for x in c])])
        gens = []
        for g in i['gens']:
            v = [F(g[0]), F(g[1])] + ([F(0)] if emb.has_w else [])
            gens.append(flist([r[0] for r in matmul(emb.T, [[x] for x in v])]))
        return lputil.from_zonotope(center, gens, mode)

    rows, rhs = [], []
    for h in i['cons']:
        r, c = code_row(emb, h)
        rows.append(flist(r))
        rhs.append(float(c))
    pins = [list(r) for r in emb.N]
    for r in pins:
        rows += [flist(r), [-float(x) for x in r]]
        rhs += [0.0, 0.0]
    if emb.has_w:
        w = flist(emb.L[2])
        rows += [w, [-x for x in w]]
        rhs += [1.0, -1.0]

    if i.get('box'):
        # axis-aligned box through from_box (requires a trivial embedding)
        lo, hi = [None] * emb.n, [None] * emb.n
        for r, c in zip(rows, rhs):
            nz = [k for k, x in enumerate(r) if x != 0]
            assert len(nz) == 1, 'not a box'
            k = nz[0]
            if r[k] > 0:
                hi[k] = c / r[k]
            else:
                lo[k] = c / r[k]
        return lputil.from_box(list(zip(lo, hi)), mode)

    return lputil.from_constraints(rows, rhs, mode)


def build_settings(sc):
    from hylaa.settings import HylaaSettings
    from hylaa.aggstrat import Aggregated, Unaggregated

    s = sc['settings']
    st = HylaaSettings(float(sc['h']), float(time_bound(sc)))
    st.stdout = HylaaSettings.STDOUT_NONE
    st.process_urgent_guards = s['urgent']
    st.do_guard_strengthening = s['strengthen']
    st.optimize_tt_transitions = s['tt']
    st.skip_zero_dynamics_modes = s['skipzero']
    st.stop_on_aggregated_error = s['stopagg']
    st.stop_on_concrete_error = s['stopconc']
    st.make_counterexample = s.get('cex', True)
    st.approx_model = {'none': HylaaSettings.APPROX_NONE, 'chull': HylaaSettings.APPROX_CHULL,
                       'lgg': HylaaSettings.APPROX_LGG}[s['approx']]

    if s['agg'] == 'none':
        st.aggstrat = Unaggregated()
    else:
        kinds = {'box': Aggregated.AGG_BOX, 'arnoldi': Aggregated.AGG_ARNOLDI_BOX, 'chull': Aggregated.AGG_CONVEX_HULL}
        ag = Aggregated(kinds[s['agg']], deaggregate=s['deagg'])
        ag.pop_type = {'min': Aggregated.POP_LOWEST_MINTIME, 'avg': Aggregated.POP_LOWEST_AVGTIME,
                       'max': Aggregated.POP_LARGEST_MAXTIME}[s['pop']]
        ag.add_guard = s['addguard']
        ag.require_same_path = s['samepath']
        ag.deagg_preference = {'leaves': Aggregated.DEAGG_LEAVES_FIRST, 'root': Aggregated.DEAGG_ROOT_FIRST,
                               'most': Aggregated.DEAGG_MOST_STATES}[s['deaggpref']]
        st.aggstrat = ag

    return st


DEFAULT_SETTINGS = dict(urgent=False, strengthen=True, tt=True, skipzero=True, stopagg=False, stopconc=True, cex=True,
                        approx='none', agg='none', deagg=False, pop='avg', addguard=True, samepath=True,
                        deaggpref='most')


def settings(**kw):
    s = dict(DEFAULT_SETTINGS)
    s.update(kw)
    return s
