'''
Runs the real code on a scenario and records what it did, one event per public step.

Only the public surface is used: Core(...), core.setup(), core.do_step(), core.is_finished(), core.result, and the
read-only views of the computation that plotting / tests use (aggdag.get_cur_state(), aggdag.waiting_list,
aggdag.roots). State sets are projected to support values by minimising over a clone of their LP, so that recording
does not disturb the analysis.
'''

import signal
import time
import traceback

import numpy as np

import model
from model import dec


class StepLimit(Exception):
    'too many steps'


def quiet():
    'silence all printing of the code under test'
    import hylaa.lpinstance as li
    li.LpInstance.print_normal = li.LpInstance.print_verbose = li.LpInstance.print_debug = staticmethod(lambda *_: None)
    sound_solver()


def sound_solver():
    '''the LP solver is taken to be correct, but GLPK 5.0 sometimes reports an optimal solution that breaks the constraints
    by far (dual simplex, right after it removed a perturbation): solve such an LP again'''

    import swiglpk as glpk
    if getattr(glpk, 'sound', False):
        return
    solve = glpk.glp_simplex
    ae, re = glpk.doubleArray(1), glpk.doubleArray(1)
    ai, ri = glpk.intArray(1), glpk.intArray(1)

    def good(lp):
        for cond in (glpk.GLP_KKT_PE, glpk.GLP_KKT_PB, glpk.GLP_KKT_DB):
            glpk.glp_check_kkt(lp, glpk.GLP_SOL, cond, ae.cast(), ai.cast(), re.cast(), ri.cast())
            if re[0] > 1e-5:
                return False
        return True

    def glp_simplex(lp, params):
        rv = solve(lp, params)
        for attempt in range(4):
            if rv != 0 or glpk.glp_get_status(lp) != glpk.GLP_OPT or good(lp):
                break
            if attempt == 1:
                glpk.glp_cpx_basis(lp)
            elif attempt == 2:
                glpk.glp_std_basis(lp)
            rv = solve(lp, params)
        return rv

    glpk.glp_simplex = glp_simplex
    glpk.sound = True


class Probe:
    'projects LPs to support values'

    def __init__(self, sc):
        self.sc = sc
        self.dirs = {}
        self.nulls = {}
        for i, m in enumerate(sc['modes']):
            emb = m.get('emb')
            if emb is None:
                continue
            dirs = sc.get('dirs', model.DIRS)
            self.dirs[i] = [np.array(model.flist(model.code_dir(emb, d))) for d in dirs]
            nulls = [model.flist(r) for r in emb.N]
            self.nulls[i] = [np.array(v) for v in nulls] + [-np.array(v) for v in nulls]
            if emb.has_w:
                w = np.array(model.flist(emb.L[2]))
                self.nulls[i] += [w, -w]

    def supp(self, lpi, vec):
        cols = [lpi.cur_vars_offset + k for k in range(lpi.dims)]
        res = lpi.minimize(direction_vec=-vec, columns=cols)
        return float(np.dot(res, vec))

    def supports(self, lpi, emb_index):
        'support values in the scenario directions, plus the worst deviation off the embedded plane'

        clone = lpi.clone()
        sup = [dec(self.supp(clone, v)) for v in self.dirs[emb_index]]
        off = 0.0
        emb = self.sc['modes'][emb_index]['emb']
        for k, v in enumerate(self.nulls[emb_index]):
            expect = 0.0
            if emb.has_w and k >= len(self.nulls[emb_index]) - 2:
                expect = 1.0 if k == len(self.nulls[emb_index]) - 2 else -1.0
            off = max(off, abs(self.supp(clone, v) - expect))
        return sup, dec(off)


class Recorder:
    'records one run of Core'

    def __init__(self, sc, max_steps=4000):
        self.sc = sc
        self.probe = Probe(sc)
        self.max_steps = max_steps
        self.op_ids = {}
        self.node_ids = {}
        self.keep = []
        self.log = []

    def mode_index(self, mode):
        return self.modes.index(mode)

    def op_id(self, op):
        if id(op) not in self.op_ids:
            self.keep.append(op)
            self.op_ids[id(op)] = len(self.op_ids) + 1
            return self.op_ids[id(op)], True
        return self.op_ids[id(op)], False

    def node_id(self, node):
        if node is None:
            return 0
        if id(node) not in self.node_ids:
            self.keep.append(node)
            self.node_ids[id(node)] = len(self.node_ids) + 1
        return self.node_ids[id(node)]

    def state_rec(self, state, src_index=None):
        'projection of a state set; src_index gives the embedding for error modes'
        mi = self.mode_index(state.mode)
        ei = src_index if self.sc['modes'][mi]['err'] else mi
        sup, off = self.probe.supports(state.lpi, ei)
        return {'mode': mi + 1, 'k': int(state.cur_step_in_mode), 'lo': int(state.cur_steps_since_start[0]),
                'hi': int(state.cur_steps_since_start[1]), 'conc': bool(state.is_concrete), 'sup': sup, 'off': off}

    def op_rec(self, op, oid):
        src = None
        if op.transition is not None:
            src = self.mode_index(op.transition.from_mode)
        r = self.state_rec(op.poststate, src)
        r['id'] = oid
        r['par'] = self.node_id(op.parent_node)
        r['tr'] = 0 if op.transition is None else self.transitions.index(op.transition) + 1
        return r

    def event(self, core):
        cur = core.aggdag.get_cur_state()
        wait, new = [], []
        for op in core.aggdag.waiting_list:
            oid, fresh = self.op_id(op)
            wait.append(oid)
            if fresh:
                new.append(self.op_rec(op, oid))

        if cur is None:
            c = {'has': False, 'mode': 0, 'k': 0, 'lo': 0, 'hi': 0, 'conc': False, 'sup': [], 'off': dec(0)}
        else:
            c = self.state_rec(cur)
            c['has'] = True

        ev = {'fin': bool(core.is_finished()), 'cur': c, 'wait': wait, 'new': new,
              'agg': bool(core.result.has_aggregated_error), 'conc': bool(core.result.has_concrete_error)}
        self.log.append(ev)

    def run(self, on_step=None, builder=None):
        'build, set up and step to completion. Returns the run record'

        from hylaa.core import Core
        sc = self.sc
        rv = {'status': 'ok', 'exc': ''}
        core = None
        t0 = time.time()

        try:
            self.ha, self.modes, self.transitions, init, st = (builder or model.build)(sc)
            core = Core(self.ha, st)
            self.core = core
            core.setup(init)
            self.event(core)
            if on_step:
                on_step(self, core)
            steps = 0
            while not core.is_finished():
                core.do_step()
                self.event(core)
                if on_step:
                    on_step(self, core)
                steps += 1
                if steps > self.max_steps:
                    raise StepLimit(f'no termination after {steps} steps')
        except Exception as e:  # pylint: disable=broad-except
            rv['status'] = 'exc'
            rv['exc'] = f'{type(e).__name__}: {e}'
            rv['kind'] = type(e).__name__
            if isinstance(e, StepLimit):
                rv['status'] = 'limit'
            rv['tb'] = traceback.format_exc(limit=-4)

        rv['log'] = self.log
        rv['secs'] = time.time() - t0
        self.core = core
        return rv
