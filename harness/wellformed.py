'''
Models made of well-formed and ill-formed pieces (C18), as enumerated by TLC from spec/WellFormed.tla.
'''

import json
import random
import re

import tlc

def parse(s):
    'a printed TLA+ record'
    s = re.sub(r'(\w+) \|->', r'"\1":', s.replace('\\"', '"'))
    s = s.replace('[', '{').replace(']', '}').replace('<<', '[').replace('>>', ']')
    return json.loads(s.replace('TRUE', 'true').replace('FALSE', 'false'))


def models(cfg, extra=()):
    '(base, number of changes, model) as printed by TLC'
    r = tlc.run('WellFormed', cfg, extra=list(extra), must_complete=not extra)
    return sorted(set(re.findall(r'^"MODEL\|(\d+)\|(\d+)\|(.*)"$', r.out, re.M))), r


def make(seed, fam, index, lines):
    'a case'
    r = random.Random(f'well/{seed}/{fam}/{index}')
    if fam == 'one':
        line = lines[index]
    elif fam == 'plain':
        line = r.choice([ln for ln in lines if ln[1] == '0'])
    else:
        if MOST.get(fam, (None,))[0] is not lines:
            MOST[fam] = (lines, [ln for ln in lines if int(ln[1]) == {'two': 2, 'three': 3}[fam]])
        line = r.choice(MOST[fam][1])
    base = [ln for ln in lines if ln[0] == line[0] and ln[1] == '0']
    return dict(id=f'well-{fam}-{seed}-{index}', base=int(line[0]), changes=int(line[1]), model=parse(line[2]),
                plain=parse(base[0][2]) if base else None, seed=r.randint(0, 10**9))


MOST = {}


class Maker:
    'gives the pieces in random formats'

    def __init__(self, r):
        self.r = r

    def mat(self, f, shape, whole=True):
        'a matrix; f(i, j) are the entries'
        import numpy as np
        import scipy.sparse as sp
        a = np.array([[f(i, j) for j in range(shape[1])] for i in range(shape[0])], dtype=float).reshape(shape)
        kinds = ['array', 'csr', 'csc', 'coo', 'float32', 'lil', 'matrix', 'fortran']
        if shape[0] > 0 and shape[1] > 0:
            kinds += ['list', 'list']
        if whole:
            kinds += ['int', 'intcsr', 'intlist'] if shape[0] > 0 and shape[1] > 0 else []
        kind = self.r.choice(kinds)
        if kind == 'list':
            return a.tolist()
        if kind == 'int':
            return a.astype(int)
        if kind == 'intlist':
            return a.astype(int).tolist()
        if kind == 'intcsr':
            return sp.csr_matrix(a.astype(int))
        if kind == 'float32':
            return a.astype(np.float32)
        if kind == 'matrix':
            return np.asmatrix(a)
        if kind == 'fortran':
            return np.asfortranarray(a)
        return dict(csr=sp.csr_matrix, csc=sp.csc_matrix, coo=sp.coo_matrix, lil=sp.lil_matrix, array=np.array)[kind](a)

    def vec(self, xs, column=True):
        'a right-hand side'
        import numpy as np
        kinds = ['list', 'array', 'tuple', 'float32']
        if all(x == int(x) for x in xs):
            kinds += ['int', 'ints']
        if column and xs:
            kinds += ['column']
        kind = self.r.choice(kinds)
        if kind == 'int':
            return np.array(xs, dtype=int)
        if kind == 'ints':
            return [int(x) for x in xs]
        if kind == 'column':
            return np.array(xs, dtype=float).reshape(len(xs), 1)
        if kind == 'float32':
            return np.array(xs, dtype=np.float32)
        return dict(list=list, tuple=tuple, array=lambda v: np.array(v, dtype=float))[kind](xs)

    def cons(self, rows, cols, length, what, bound, away):
        '''conditions: pairs +x_j <= bound, -x_j <= bound (what = 1), one that cannot be met (0), or
        the first one moved to x <= away (2)'''
        def f(i, j):
            return (1 if i % 2 == 0 else -1) if j == (i // 2) % max(cols, 1) else 0
        rhs = [bound] * length
        if what == 2 and length:
            rhs[0] = away
            if length > 1:
                rhs[1] = 4 * abs(away) if away < 0 else -away
        if what == 0:
            if rows >= 2 and self.r.random() < 0.7:
                # the first two contradict each other
                if length >= 2:
                    rhs[0], rhs[1] = 1, -2
                return self.mat(f, (rows, cols)), self.vec(rhs)
            if length:
                rhs[0] = -1
            return self.mat(lambda i, j: 0 if i == 0 else f(i, j), (rows, cols)), self.vec(rhs)
        return self.mat(f, (rows, cols)), self.vec(rhs)


class Building:
    'the construction of a model and an analysis of it'

    def __init__(self, case):
        self.case, self.m = case, case['model']
        self.r = random.Random(case['seed'])
        self.make = Maker(self.r)
        self.ops = []
        self.stopped = False

    def piece(self, name, k, fn):
        'an operation that gives piece k; repeated with the well-formed piece if it is refused for being the only changed one'
        now, was = self.m[name][k], self.case['plain'][name][k] if self.case['plain'] else None
        if now == []:
            return
        if not self.op(f'{name} {k + 1}', lambda: fn(now)):
            if self.case['changes'] == 1 and was and was != now and self.r.random() < 0.8:
                self.stopped = False
                self.op(f'{name} {k + 1}', lambda: fn(was), True)

    def op(self, name, fn, mended=False):
        'an operation'
        if self.stopped:
            return True
        try:
            fn()
        except Exception as e:  # pylint: disable=broad-except
            self.ops.append((name, f'{type(e).__name__}: {e}' or 'x', mended))
            self.stopped = True
            return False
        self.ops.append((name, '', mended))
        return True

    def dynamics(self, mode):
        'set_dynamics'
        def f(d):
            mode.set_dynamics(self.make.mat(lambda i, j: 1 if j == i + 1 else -1 if i == d[0] - 1 and j == 0 else 0, tuple(d)))
        return f

    def invariant(self, mode):
        'set_invariant'
        return lambda c: mode.set_invariant(*self.make.cons(*c, 9, -7))

    def inputs(self, mode):
        'set_inputs'
        def f(u):
            b = self.make.mat(lambda i, j: 1 if i == j or u[5] == 3 else 0, (u[0], u[1]))
            c, rhs = self.make.cons(u[2], u[3], u[4], min(u[5], 1), 1, 0)
            if u[5] > 1:
                # an input that is a constant
                at = 2 * (u[3] - 1) if u[5] in (4, 5) else 0
                rhs = [1.0] * u[4]
                if at + 1 < u[4]:
                    rhs[at + 1] = -1.0
                if u[5] == 5:
                    c = self.make.mat(lambda i, j: 1 if (i, j) == (0, u[3] - 1) else (1 if i % 2 == 0 else -1) if j == (i // 2) % max(u[3], 1) else 0,
                                      (u[2], u[3]))
            allow = dict(allow_constants=True) if u[6] else {} if self.r.random() < 0.5 else dict(allow_constants=False)
            mode.set_inputs(b, c, rhs, **allow)
        return f

    def guard(self, t):
        'set_guard'
        def f(g):
            if g == [0]:
                t.set_guard_true()
            else:
                t.set_guard(*self.make.cons(*g, 9, -7))
        return f

    def reset(self, t):
        'set_reset'
        def f(r):
            mk = self.make
            args = [None] * 4
            if r[0]:
                args[0] = mk.mat(lambda i, j: 1 if i == j else 0, tuple(r[0]))
            if r[1]:
                args[1] = mk.mat(lambda i, j: 1 if i == j else 0, tuple(r[1]))
            cols = r[2][1] if r[2] else 1
            what = r[2][2] if r[2] else 1
            c, rhs = mk.cons(r[2][0] if r[2] else 0, cols, r[3][0] if r[3] else 0, what, 1, 0)
            if r[2]:
                args[2] = c
            if r[3]:
                import numpy as np
                rhs = np.array(rhs, dtype=float).reshape(r[3][0])
                args[3] = rhs if self.r.random() < 0.7 else rhs.tolist()
            if self.r.random() < 0.5:
                names = ('reset_csr', 'reset_minkowski_csr', 'reset_minkowski_constraints_csr', 'reset_minkowski_constraints_rhs')
                t.set_reset(**{n: a for n, a in zip(names, args) if a is not None or self.r.random() < 0.3})
            else:
                t.set_reset(*args)
        return f

    def initial(self, e, modes, other):
        'an initial set'
        from hylaa import lputil
        from hylaa.stateset import StateSet
        mode, dims, what = e
        if mode == 0:
            a = other.new_mode(f'o{len(other.modes)}')
            a.set_dynamics([[1 if i == j else 0 for j in range(dims)] for i in range(dims)])
            mode = a
        else:
            mode = modes[mode - 1]
        lo, hi = (20, 21) if what == 'away' else (1, 2)
        kind = self.r.choice(['box', 'cons', 'zono']) if what != 'empty' else 'cons'
        if kind == 'box':
            lpi = lputil.from_box([(lo, hi)] * dims, mode)
        elif kind == 'zono':
            lpi = lputil.from_zonotope([(lo + hi) / 2] * dims, [[0.5 if i == j else 0 for j in range(dims)] for i in range(dims)], mode)
        else:
            rows = [[s if i == j else 0 for j in range(dims)] for i in range(dims) for s in (1, -1)]
            rhs = [x for _ in range(dims) for x in ((hi, -lo) if what != 'empty' else (lo, -hi))]
            lpi = lputil.from_constraints(self.make.mat(lambda i, j: rows[i][j], (2 * dims, dims)) if self.r.random() < 0.3 else rows, rhs, mode)
        return lpi if what == 'lpi' else StateSet(lpi, mode)

    def go(self):
        'all of it'
        from hylaa.core import Core
        from hylaa.hybrid_automaton import HybridAutomaton
        from hylaa.settings import HylaaSettings
        from hylaa.aggstrat import Aggregated, Unaggregated
        m, r = self.m, self.r
        ha, other = HybridAutomaton(), HybridAutomaton()
        modes, trans = [], {}
        foreign = other.new_mode('foreign')
        foreign.set_dynamics([[0, 1], [-1, 0]])
        names = ['p', 'q', 'p' if m['dup'] else 'e']
        for k in range(3):
            self.op('mode', lambda k=k: modes.append(ha.new_mode(names[k])))
        if self.stopped:
            return

        def dyn(which):
            for k in which:
                self.piece('dyn', k, self.dynamics(modes[k]))

        def transition(k):
            t = m['tr'][k]
            if t:
                at = [foreign if x == 0 else modes[x - 1] for x in t]
                self.op('tr', lambda: trans.update({k: ha.new_transition(*at)}))

        def pieces(name, fn, objs):
            for k, x in objs:
                if not self.stopped:
                    self.piece(name, k, fn(x))

        late = []
        if m['order'] in ('gd', 'rs'):
            # the targets of transitions get their dynamics last
            late = sorted({t[1] - 1 for t in m['tr'] if t and t[1] > 0 and t[1] != t[0]})
        if m['order'] not in ('inv', 'inp'):
            dyn([k for k in range(3) if k not in late])
        if m['order'] == 'inv':
            pieces('inv', self.invariant, enumerate(modes))
            dyn(range(3))
        if m['order'] == 'inp':
            pieces('inp', self.inputs, enumerate(modes))
            dyn(range(3))
        todo = []
        if m['order'] != 'inv':
            todo.append(lambda: pieces('inv', self.invariant, [(k, x) for k, x in enumerate(modes) if k not in late]))
        if m['order'] != 'inp':
            todo.append(lambda: pieces('inp', self.inputs, [(k, x) for k, x in enumerate(modes) if k not in late]))

        def transitions():
            for k in range(2):
                transition(k)
            both = [lambda: pieces('gd', self.guard, list(trans.items())), lambda: pieces('rs', self.reset, list(trans.items()))]
            r.shuffle(both)
            for b in both:
                b()
        todo.append(transitions)
        r.shuffle(todo)
        for x in todo:
            x()
        dyn(late)
        pieces('inv', self.invariant, [(k, modes[k]) for k in late])
        pieces('inp', self.inputs, [(k, modes[k]) for k in late])
        if m['late']:
            k, d = m['late']
            self.op('dynamics', lambda: modes[k - 1].set_dynamics([[1 if j == i + 1 else 0 for j in range(d)] for i in range(d)]))
        if self.stopped:
            return

        def settings():
            st = HylaaSettings(0.25 * m['step'], m['time'])
            st.stdout = HylaaSettings.STDOUT_NONE
            st.optimize_tt_transitions = r.random() < 0.6
            st.do_guard_strengthening = r.random() < 0.6
            # an initial set that is used goes on for some steps
            used = any(e[2] == 'used' for e in m['init'])
            st.process_urgent_guards = not used and r.random() < 0.2
            st.stop_on_concrete_error = not used and r.random() < 0.4
            st.aggstrat = Unaggregated() if r.random() < 0.4 else Aggregated(r.choice([Aggregated.AGG_BOX, Aggregated.AGG_ARNOLDI_BOX]))
            return st

        sets, made = [], {}

        def initial():
            for k, e in enumerate(m['init']):
                sets.append(sets[-1] if e[2] == 'twice' else self.initial(e, modes, other))

        # the settings and the sets may be made in any order
        both = [lambda: self.op('settings', lambda: made.update(st=settings())), lambda: self.op('initial', initial)]
        r.shuffle(both)
        for b in both:
            b()
        if self.stopped:
            return
        used = [s for s, e in zip(sets, m['init']) if e[2] == 'used']
        if used:
            cores = []
            self.op('setup', lambda: (cores.append(Core(ha, made['st'])), cores[0].setup([used[0]])))
            if not self.stopped:
                self.op('run', lambda: self.run(cores[0]))
        if self.stopped:
            return
        what = sets if m['box'] == 'list' else tuple(sets)
        cores = []
        self.op('setup', lambda: (cores.append(Core(ha, made['st'])), cores[0].setup(what)))
        if not self.stopped:
            self.op('run', lambda: self.run(cores[0]))

    @staticmethod
    def run(core):
        'to the end'
        n = 0
        while not core.is_finished() and n < 150:
            core.do_step()
            n += 1


def replay(case):
    'carry out a case'
    import contextlib
    import io
    import record
    record.quiet()
    b = Building(case)
    with contextlib.redirect_stdout(io.StringIO()):
        b.go()
    return dict(status='ok', exc='', ops=b.ops)
