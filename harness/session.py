'''
Several analyses in one process (C17): schedules generated by TLC from spec/Session.tla are carried out on the real code,
and everything each analysis shows is recorded, in the session and alone in a process of its own.
'''

import copy
import json
import os
import random
import re
import select
import signal
import time

import gen
import model
import tlc

from model import dec

FAMS = ('exact', 'exact_inputs', 'exact_resets', 'box', 'arnoldi', 'tt', 'tt', 'strengthen', 'strengthen', 'zero', 'approx', 'lgg',
        'deagg', 'single', 'stops', 'cuts')

OFTEN = ('exact_inputs', 'approx', 'lgg', 'approx', 'lgg', 'strengthen', 'strengthen', 'box', 'box', 'arnoldi', 'arnoldi')


def parse(s):
    'a printed TLA+ value of sequences, strings and numbers'
    return json.loads(s.replace('<<', '[').replace('>>', ']').replace('\\"', '"'))


def schedules(cfg, extra=()):
    '(kinds, automata, operations) as printed by TLC'
    r = tlc.run('Session', cfg, extra=list(extra), must_complete=not extra)
    lines = sorted(set(re.findall(r'^"SCHEDULE\|(.*)\|(.*)\|(.*)"$', r.out, re.M)))
    return [tuple(parse(x) for x in ln) for ln in lines], r


# ---------------------------------------------------------------------------------------------------------------

def vary(r, sc):
    'the same automaton, analysed with other settings and from other sets'
    sc = copy.copy(sc)
    st = sc['settings'] = dict(sc['settings'])
    one = r.choice(['approx', 'approx', 'tt', 'strengthen', 'strengthen', 'urgent', 'skipzero', 'stopconc', 'agg', 'h', 'init']) if r.random() < 0.5 else None

    def change(what, p):
        return r.random() < p if one is None else what == one

    for key in ('tt', 'strengthen', 'urgent', 'skipzero', 'stopagg', 'stopconc', 'cex'):
        if change(key, 0.6 if key in ('tt', 'strengthen') else 0.2):
            st[key] = r.random() < 0.5 if one is None else not st[key]
    if change('agg', 0.3):
        st['agg'] = r.choice(['none', 'box', 'arnoldi'])
    if change('approx', 0.3):
        st['approx'] = r.choice(['chull', 'lgg', 'lgg'] if st['approx'] == 'none' else ['none'])
        sc['n'] = min(sc['n'], 4)
    if change('h', 0.4):
        sc['h'] = sc['h'] * r.choice([1, 2, 1, 1]) / r.choice([1, 2])
        sc['n'] = max(2, sc['n'] + r.randint(-2, 2))
    if change('init', 0.3) and len(sc['init']) > 1:
        sc['init'] = [sc['init'][r.randrange(len(sc['init']))]]
    return sc


def twin(r, sc):
    'another automaton that differs in one place'
    sc = copy.copy(sc)
    sc['modes'] = [copy.copy(m) for m in sc['modes']]
    sc['trans'] = [copy.copy(t) for t in sc['trans']]
    m = r.choice([m for m in sc['modes'] if not m['err']])
    x = r.choice(['rows', 'rows', 'columns', 'sign', 'input', 'inv', 'guard', 'reset'])
    (a, b, c), (d, e, f) = m['A']
    if x == 'rows':
        m['A'] = [[d, e, f], [a, b, c]]
    elif x == 'columns':
        m['A'] = [[b, a, c], [e, d, f]]
    elif x == 'sign':
        m['A'] = [[-a, b, c], [d, e, f]]
    elif x == 'input' and m.get('B') is not None:
        if r.random() < 0.5:
            m['B'] = m['B'][::-1]
        else:
            m['U'] = [list(u[:-1]) + [u[-1] * 2] for u in m['U']]
    elif x == 'inv' and len(m['inv']) == 1:
        m['inv'] = [m['inv'][0][:2] + [m['inv'][0][2] + model.F(1, 4)] + m['inv'][0][3:]]
    elif x == 'guard' and sc['trans']:
        t = r.choice(sc['trans'])
        if len(t['guard']) == 1:
            t['guard'] = [t['guard'][0][:2] + [t['guard'][0][2] + model.F(1, 4)] + t['guard'][0][3:]]
    elif x == 'reset' and sc['trans']:
        t = r.choice(sc['trans'])
        if t['R'] is not None:
            t['R'] = [t['R'][1], t['R'][0]]
    return sc


def make(seed, fam, index, scheds):
    'a case'
    r = random.Random(f'session/{seed}/{fam}/{index}')
    kinds, aut, sched = scheds[r.randrange(len(scheds))] if fam.startswith('long') else scheds[index % len(scheds)]
    base = {}
    runs = []
    same = r.random() < 0.4
    for i, (kind, a) in enumerate(zip(kinds, aut)):
        if a not in base:
            if base and same:
                # another automaton, of the same model
                base[a] = base[1]
            else:
                f = r.choice(FAMS if len(set(aut)) == len(aut) else FAMS + OFTEN)
                base[a] = gen.make(f, f'{seed}/{fam}', f'{index}-{a}')
                if f == 'strengthen' and len(set(aut)) < len(aut):
                    base[a]['settings'].update(agg='box', addguard=True)
            sc = base[a]
            if same and a > 1:
                if r.random() < 0.5:
                    sc = base[a] = twin(r, sc)
                if r.random() < 0.3:
                    sc = vary(r, sc)
        else:
            sc = base[a] if r.random() < 0.35 else vary(r, base[a])
        sc = copy.copy(sc)
        if sc['settings']['agg'] == 'chull':
            # the LP solver may not come back from nested hulls
            sc['settings'] = dict(sc['settings'], agg='box')
        if kind == 'bad':
            m = sc['init'][0]['mode']
            # outside of the invariant, or empty
            x, y, e = model.F(1), model.F(0), model.F(-1)
            if sc['modes'][m]['inv']:
                u, v, k = (model.F(z) for z in sc['modes'][m]['inv'][0][:3])
                x, y, e = u * (k + 3) / (u * u + v * v), v * (k + 3) / (u * u + v * v), model.F(1, 64)
            sc['init'] = [dict(mode=m, cons=[[1, 0, x + e], [-1, 0, e - x], [0, 1, y + e], [0, -1, e - y]])]
        emb = sc['modes'][sc['init'][0]['mode']]['emb']
        run = dict(kind=kind, aut=a, sc=sc, seed=r.randint(0, 3), plot=kind == 'run' and r.random() < 0.5)
        if kind == 'sim':
            c = [r.uniform(-1, 1), r.uniform(-1, 1)] + ([1.0] if emb.has_w else [])
            p = [sum(float(t) * x for t, x in zip(row, c)) for row in emb.T]
            run['box'] = [[x - 0.25 * r.random(), x + 0.25 * r.random()] for x in p]
            run['num'] = r.randint(1, 3)
        runs.append(run)
    return dict(id=f'session-{fam}-{seed}-{index}', kinds=kinds, aut=aut, sched=sched, runs=runs, bursts=[r.randint(1, 7) for _ in sched],
                arrays=r.randint(0, 3), share=r.random() < 0.5)


# ---------------------------------------------------------------------------------------------------------------

class Store:
    'the arrays of the user: equal ones are the same object'

    def __init__(self, style):
        self.style, self.kept = style, {}

    def get(self, key, value):
        'the array'
        if key not in self.kept:
            self.kept[key] = (value, value.copy())
        return self.kept[key][0]

    def mat(self, rows, cols):
        'a matrix'
        import numpy as np
        from scipy.sparse import csr_matrix
        f = [[float(x) for x in row] for row in rows]
        key = ('mat', cols, json.dumps(f))
        if self.style & 1 or not f:
            return self.get(key, csr_matrix(f, dtype=float) if f else csr_matrix((0, cols), dtype=float))
        return self.get(key, np.array(f, dtype=float))

    def vec(self, xs):
        'a right-hand side'
        import numpy as np
        f = [float(x) for x in xs]
        return self.get(('vec', json.dumps(f)), np.array(f, dtype=float))

    def unchanged(self):
        'are the arrays as they were given'
        for now, was in self.kept.values():
            if now.shape != was.shape or now.dtype != was.dtype:
                return False
            d = (now != was)
            if d.nnz if hasattr(d, 'nnz') else d.any():
                return False
        return True


LIMIT = 120


class Run:
    'one analysis'

    def __init__(self, run, ha, settings=None):
        import record
        self.run, self.sc = run, run['sc']
        self.ha, self.modes, self.transitions = ha
        self.rec = record.Recorder(self.sc)
        self.rec.ha, self.rec.modes, self.rec.transitions = ha
        self.out = []
        self.over = False
        self.core = None
        self.settings = settings

    def make(self):
        'construct the Core'
        from hylaa.core import Core
        from hylaa.settings import PlotSettings
        import io
        st = self.settings
        if st is None:
            st = model.build_settings(self.sc)
            st.random_seed = self.run['seed']
            st.plot.store_plot_result = self.run['plot']
            if self.run['kind'] == 'sim':
                st.plot.plot_mode = PlotSettings.PLOT_IMAGE
                st.plot.filename = io.BytesIO()
        this = self

        class Watched(Core):
            'shows everything'

            def setup(self, init):
                super().setup(init)
                this.look()

            def do_step(self):
                super().do_step()
                this.look()

        self.core = Watched(self.ha, st)
        return st

    def look(self):
        'record what can be seen now'
        core = self.core
        if core.doing_simulation:
            d, v = [], []
            for o in (core.sim_states or []):
                d.append(-1 if o is None else self.modes.index(o[0]))
                if o is not None:
                    d.append(int(o[2]))
                    v += [dec(float(x)) for x in o[1]]
            d.append(-2)
            for o in core.sim_waiting_list:
                d += [self.modes.index(o[0]), int(o[2])]
                v += [dec(float(x)) for x in o[1]]
        else:
            self.rec.event(core)
            ev = self.rec.log[-1]
            d, v = [], []
            flat(ev, d, v)
        self.out.append(dict(st='ok', d=d, v=v))
        if len(self.out) >= LIMIT:
            raise TooLong()

    def guarded(self, fn):
        'call it; an exception is something to see as well'
        if self.over:
            return
        try:
            fn()
        except TooLong:
            self.over = True
        except Exception as e:  # pylint: disable=broad-except
            self.out.append(dict(st=type(e).__name__, d=[], v=[], msg=str(e)[:200]))
            self.over = True

    def init(self):
        'the initial sets'
        return model.build_init(self.sc, self.modes)

    def whole(self):
        'an analysis or a simulation'
        if self.run['kind'] == 'sim':
            import matplotlib.pyplot as plt
            try:
                self.core.simulate(self.modes[self.sc['init'][0]['mode']], self.run['box'], self.run['num'])
            finally:
                plt.close('all')
        else:
            self.core.run(self.init())

    def advance(self, n):
        'up to n steps'
        for _ in range(n):
            if self.core.is_finished():
                break
            self.core.do_step()

    def do(self, op, burst):
        'an operation of the schedule; gives what was seen'
        at = len(self.out)
        if op == 'make':
            return [], self.make()
        if op == 'begin':
            self.guarded(lambda: self.core.setup(self.init()))
        elif op in ('run', 'sim'):
            self.guarded(self.whole)
        elif op == 'step':
            self.guarded(lambda: self.advance(burst))
        elif op == 'finish':
            self.guarded(lambda: self.advance(LIMIT))
        return self.out[at:], None

    def result(self):
        'what is left of the analysis'
        from hylaa.lpinstance import UnsatError
        core, d, v = self.core, [], []
        res = core.result
        if res is not None:
            d += [int(res.has_aggregated_error), int(res.has_concrete_error)]
            for seg in res.counterexample or []:
                d += [self.modes.index(seg.mode), int(seg.steps)]
                v += [dec(float(x)) for x in list(seg.start) + list(seg.end)] + [dec(float(x)) for u in seg.inputs for x in u]
            if res.plot_data is not None:
                for name in sorted(res.plot_data.mode_to_obj_list[0]) if res.plot_data.mode_to_obj_list else []:
                    for obj in res.plot_data.mode_to_obj_list[0][name]:
                        d.append(len(obj[0]) if isinstance(obj, (tuple, list)) else 0)
            for view in getattr(res, 'sim_lines', None) or []:
                for batch in view:
                    for line in batch:
                        d.append(len(line))
                        v += [dec(float(x)) for p in line for x in p]
        for op in list(self.rec.keep):
            if hasattr(op, 'poststate') and not self.rec.sc['modes'][self.rec.mode_index(op.poststate.mode)]['err']:
                feasible = op.poststate.lpi.clone().is_feasible()
                d.append(int(feasible))
                if feasible:
                    try:
                        sup, off = self.rec.probe.supports(op.poststate.lpi, self.rec.mode_index(op.poststate.mode))
                    except UnsatError:
                        # almost empty
                        sup, off = [], dec(0)
                    d.append(len(sup))
                    v += sup + [off]
        return dict(st='ok', d=d, v=v)


class TooLong(Exception):
    'enough steps'


def flat(x, d, v):
    'whole numbers and decimals of a record, in order'
    if isinstance(x, dict):
        for k in sorted(x):
            if k == 'off':
                v.append(x[k])
            elif k == 'sup':
                d.append(len(x[k]))
                v.extend(x[k])
            else:
                flat(x[k], d, v)
    elif isinstance(x, (list, tuple)):
        d.append(len(x))
        for y in x:
            flat(y, d, v)
    else:
        d.append(int(x))


def forked(fn, timeout):
    'the result of a function, from a process of its own'
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                out = dict(status='ok', val=fn())
            except BaseException as e:  # pylint: disable=broad-except
                import traceback
                out = dict(status='harness', exc=f'{type(e).__name__}: {e}', tb=traceback.format_exc(limit=-6))
            with os.fdopen(wr, 'w') as fh:
                json.dump(out, fh)
        finally:
            os._exit(0)
    os.close(wr)
    buf, end, late = b'', time.time() + timeout, False
    while True:
        ok, _, _ = select.select([rd], [], [], max(0, end - time.time()))
        if not ok:
            late = True
            os.kill(pid, signal.SIGKILL)
            break
        data = os.read(rd, 1 << 20)
        if not data:
            break
        buf += data
    os.close(rd)
    os.waitpid(pid, 0)
    if late:
        return dict(status='hang', exc=f'no result within {timeout} s')
    try:
        return json.loads(buf)
    except ValueError:
        return dict(status='crash', exc='process died')


def alone(run):
    'one analysis, step by step'
    this = Run(run, model.build_ha(run['sc']))
    this.make()
    if run['kind'] == 'sim' or run['plot']:
        this.guarded(this.whole)
    else:
        # a run without a plot is the same as its steps
        this.guarded(lambda: this.core.setup(this.init()))
        this.guarded(lambda: this.advance(LIMIT))
    return dict(events=this.out, res=this.result())


def together(case):
    'the whole session'
    store = Store(case['arrays']) if case['arrays'] < 3 else None
    has, runs, shared = {}, {}, {}
    out = []
    results = {}
    for (op, r), burst in zip(case['sched'], case['bursts']):
        spec = case['runs'][r - 1]
        if op == 'make':
            if spec['aut'] not in has:
                has[spec['aut']] = model.build_ha(spec['sc'], store)
            key = json.dumps([spec['sc']['settings'], str(spec['sc']['h']), str(model.time_bound(spec['sc'])), spec['seed'], spec['plot'], spec['kind'] == 'sim'])
            st = shared.get(key) if case['share'] and spec['kind'] != 'sim' else None
            runs[r] = Run(spec, has[spec['aut']], st)
        seen, made = runs[r].do(op, burst)
        if made is not None and case['share']:
            shared[key] = made
        if op in ('finish', 'run', 'sim', 'drop'):
            results[r] = runs[r].result()
        out.append(seen)
    end = {r: runs[r].result() for r in results}
    blank = dict(st='none', d=[], v=[])
    n = len(case['runs'])
    return dict(seen=out, after=[results.get(r, blank) for r in range(1, n + 1)], end=[end.get(r, blank) for r in range(1, n + 1)],
                given=store is None or store.unchanged())


def replay(case):
    'carry out a case'
    import record
    record.quiet()
    import hylaa.core  # pylint: disable=unused-import
    import matplotlib.pyplot  # pylint: disable=unused-import
    rv = dict(status='ok', exc='', solo=[], seen=[], after=[], end=[], given=True)
    for run in case['runs']:
        one = forked(lambda run=run: alone(run), 20)
        if one['status'] == 'harness':
            raise RuntimeError(one['exc'] + one['tb'])
        if one['status'] != 'ok':
            # not even alone does it come to an end
            rv['status'] = 'alone.' + one['status']
            return rv
        rv['solo'].append(one['val'])
    one = forked(lambda: together(case), 60)
    if one['status'] == 'harness':
        raise RuntimeError(one['exc'] + one['tb'])
    rv.update(status=one['status'], exc=one.get('exc', ''))
    if one['status'] == 'ok':
        rv.update(one['val'])
    return rv


def tla_case(case, res):
    'for the specification'
    return dict(id=case['id'], kind=case['kinds'], aut=case['aut'], sched=case['sched'], status=res['status'], exc=res.get('exc', ''),
                solo=[s['events'] for s in res.get('solo', [])], left=[s['res'] for s in res.get('solo', [])], seen=res.get('seen', []),
                after=res.get('after', []), end=res.get('end', []), given=res.get('given', True))
