'''The jobs that run the code under test (called in worker processes).'''

import record


def engine(sc, max_steps=600):
    'one recorded run of the reachability engine'
    record.quiet()
    return record.Recorder(sc, max_steps).run()


def _project(emb, z):
    'code point -> model point and deviation off the plane'
    import model
    v = [sum(float(emb.L[i][k]) * z[k] for k in range(emb.n)) for i in range(len(emb.L))]
    off = max([abs(sum(float(r[k]) * z[k] for k in range(emb.n))) for r in emb.N] + [0.0])
    if emb.has_w:
        off = max(off, abs(v[2] - 1))
    return model.decs(v[:2]), model.dec(off)


def _pad2(v):
    import model
    return model.decs((list(v) + [0.0, 0.0])[:2])


def cex(sc, max_steps=600):
    'a run with counterexample, and its replay'
    import contextlib
    import io
    import numpy as np
    import model
    from model import dec
    record.quiet()
    from hylaa.core import Core
    from hylaa import result as hres
    from hylaa import check_trace

    rv = {'status': 'ok', 'exc': '', 'kind': '', 'conc': False, 'has': False, 'segs': [], 'chk': [],
          'rep': {'status': 'none', 'exc': '', 'pts': [], 'offs': [], 'times': []}}
    try:
        ha, modes, transitions, init, st = model.build(sc)
        core = Core(ha, st)
        try:
            core.setup(init)
        except RuntimeError as e:
            if 'No feasible initial' in str(e):
                return rv
            raise
        k = 0
        while not core.is_finished() and k < max_steps:
            core.do_step()
            k += 1
        rv['conc'] = bool(core.result.has_concrete_error)
        ce = core.result.counterexample
        rv['has'] = bool(ce)
    except Exception as e:  # pylint: disable=broad-except
        import traceback
        rv.update(status='exc', exc=f'{type(e).__name__}: {e}', kind=type(e).__name__, tb=traceback.format_exc(limit=-4))
        return rv

    if not ce:
        return rv

    simple = True
    for seg in ce:
        d = dict(mode=0, steps=-1, shape=False, start=_pad2([]), end=_pad2([]), soff=dec(0), eoff=dec(0), inputs=[], tr=0,
                 y=_pad2([]), yoff=dec(0))
        rv['segs'].append(d)
        if seg.mode not in modes:
            continue
        mi = modes.index(seg.mode)
        d['mode'] = mi + 1
        d['steps'] = int(seg.steps)
        emb = sc['modes'][mi].get('emb')
        if emb is None:
            continue
        d['shape'] = len(seg.start) == emb.n and len(seg.end) == emb.n
        if d['shape']:
            d['start'], d['soff'] = _project(emb, seg.start)
            d['end'], d['eoff'] = _project(emb, seg.end)
        d['inputs'] = [_pad2(u) for u in seg.inputs]
        if sc['modes'][mi].get('B') is not None:
            simple = False
            d['shape'] = d['shape'] and all(len(u) == len(sc['modes'][mi]['B'][0]) for u in seg.inputs)
        if seg.outgoing_transition in transitions:
            ti = transitions.index(seg.outgoing_transition)
            d['tr'] = ti + 1
            mk = sc['trans'][ti].get('mink')
            nv = len(mk['D'][0]) if mk else 0
            y = list(seg.reset_minkowski_vars)
            d['y'] = _pad2(y[:nv])
            d['yoff'] = dec(max([abs(v - 1) for v in y[nv:]] + [0.0]))
            if y or seg.outgoing_transition.reset_minkowski_csr is not None:
                simple = False

    # the facilities that replay a counterexample
    if all(d['shape'] for d in rv['segs']):
        with contextlib.redirect_stdout(io.StringIO()):
            if simple:
                try:
                    pts, times = hres.replay_counterexample(ce, ha, st)
                    out = rv['rep']
                    out['status'] = 'ok'
                    idx = 0
                    embs = []
                    for d in rv['segs']:
                        embs += [sc['modes'][d['mode'] - 1]['emb']] * (d['steps'] + 1)
                    if len(pts) == len(embs) + 1:
                        embs.append(embs[-1])       # the point in the error mode
                    for idx, z in enumerate(pts):
                        if idx < len(embs) and len(z) == embs[idx].n:
                            a, b = _project(embs[idx], [float(v) for v in z])
                        else:
                            a, b = _pad2([]), dec(9)
                        out['pts'].append(a)
                        out['offs'].append(b)
                    out['times'] = [dec(float(t)) for t in times]
                except Exception as e:  # pylint: disable=broad-except
                    rv['rep'].update(status='exc', exc=f'{type(e).__name__}')

            for i, (seg, d) in enumerate(zip(ce, rv['segs'])):
                if d['steps'] < 1:
                    continue
                emb = sc['modes'][d['mode'] - 1]['emb']
                hasu = sc['modes'][d['mode'] - 1].get('B') is not None
                if hasu and len(seg.inputs) != d['steps']:
                    continue
                one = dict(seg=i + 1, status='ok', last=_pad2([]), err=dec(0), time=dec(0))
                rv['chk'].append(one)
                try:
                    nv = np.ones(emb.n)
                    h = float(sc['h'])
                    a_mat, b_mat = seg.mode.a_csr, seg.mode.b_csr
                    ss, tt, data = check_trace.check(a_mat, b_mat, h, h * d['steps'], np.array(seg.start, dtype=float),
                                                     [list(u) for u in seg.inputs] if hasu else None, nv,
                                                     float(np.dot(nv, seg.end)), stdout=False, quick=True,
                                                     approx_samples=40)
                    one['last'], _ = _project(emb, [float(v) for v in ss[-1]])
                    one['err'] = dec(float(data.abs_error))
                    one['time'] = dec(float(tt[-1]))
                except Exception as e:  # pylint: disable=broad-except
                    one['status'] = 'exc'
                    rv['tb'] = f'{type(e).__name__}: {e}'
    return rv


def nothing(_):
    'the code is not run'
    return {'status': 'ok', 'exc': ''}


def cover(sc, max_steps=800):
    'a run, with a snapshot of every node of the computation at every step it was seen at'
    import model
    from record import Probe
    record.quiet()
    from hylaa.core import Core

    rv = {'status': 'ok', 'exc': '', 'kind': '', 'fin': False, 'agg': False, 'conc': False, 'nodes': [], 'stale': False}
    nodes = {}
    ops = {}
    keep = []

    def walk(core):
        'the nodes that are part of the computation'
        todo, seen = list(core.aggdag.roots), []
        while todo:
            node = todo.pop()
            if any(node is x for x in seen):
                continue
            seen.append(node)
            todo += [op.child_node for op in node.op_list if getattr(op, 'child_node', None) is not None]
        return seen

    def look(core):
        'record what is new'
        live = walk(core)
        for node in live:
            state = node.stateset
            mi = modes.index(state.mode)
            if sc['modes'][mi]['err']:
                continue
            k = int(state.cur_step_in_mode)
            if id(node) not in nodes:
                keep.append(node)
                oids = []
                for op in node.parent_ops:
                    keep.append(op)
                    oids.append(ops.setdefault(id(op), len(ops) + 1))
                nodes[id(node)] = dict(mode=mi + 1, lo=int(state.cur_steps_since_start[0]) - k,
                                       hi=int(state.cur_steps_since_start[1]) - k, conc=bool(state.is_concrete),
                                       alive=True, last=k, ops=oids, snaps=[])
            d = nodes[id(node)]
            if not d['snaps'] or d['snaps'][-1]['k'] != k:
                # in a replay, a set may already have been intersected with the invariant when it is first seen
                # (with an approximation model, the second time at its first step)
                cut = (k > 0 or sc['settings']['approx'] != 'none') and any(hasattr(op, 'i_index') and op.step == k for op in node.op_list)
                if not cut and state.lpi.clone().is_feasible():
                    sup, off = probe.supports(state.lpi, mi)
                    d['snaps'].append({'k': k, 'sup': sup, 'off': off})
            d['last'] = max(k, int(node.op_list[-1].step)) if node.op_list else k
        # what is worked on, or waits, has to come from nodes that are part of the computation
        work = [core.aggdag.cur_node] + [op.parent_node for op in core.aggdag.waiting_list]
        if any(x is not None and not any(x is y for y in live) for x in work):
            rv['stale'] = True
        ids = {id(x) for x in live}
        for key, d in nodes.items():
            d['alive'] = key in ids

    try:
        ha, modes, _, init, st = model.build(sc)
        probe = Probe(sc)
        core = Core(ha, st)
        core.setup(init)
        n = 0
        look(core)
        while not core.is_finished():
            core.do_step()
            look(core)
            n += 1
            if n > max_steps:
                rv['fin'] = False
                break
        rv['fin'] = bool(core.is_finished())
        rv['conc'] = bool(core.result.has_concrete_error)
        rv['agg'] = bool(core.result.has_aggregated_error)
        rv['nodes'] = list(nodes.values())
    except Exception as e:  # pylint: disable=broad-except
        import traceback
        rv.update(status='exc', exc=f'{type(e).__name__}: {e}', kind=type(e).__name__, tb=traceback.format_exc(limit=-4))
    return rv


def simul(sc, max_steps=400):
    'a simulation, recorded after every step, and the state sets of the analysis of the same model'
    import io
    import numpy as np
    import model
    from model import dec, decs
    record.quiet()
    from hylaa.core import Core
    from hylaa.settings import PlotSettings

    sim = sc['sim']
    rv = {'status': 'ok', 'exc': '', 'kind': '', 'log': [], 'lines': [], 'drawn': [], 'nodes': [], 'cover': False}

    def point(emb, mode, pt, steps):
        'a recorded point'
        if len(pt) != emb.n:
            return dict(on=True, mode=mode, steps=int(steps), p=_pad2([]), off=dec(9))
        p, off = _project(emb, [float(v) for v in pt])
        return dict(on=True, mode=mode, steps=int(steps), p=p, off=off)

    class Recorded(Core):
        'records the points before the first and after every step'

        def look(self):
            'record'
            emb = next(m['emb'] for m in sc['modes'] if not m['err'])
            cur = [dict(on=False, mode=0, steps=0, p=_pad2([]), off=dec(0)) if o is None else point(emb, modes.index(o[0]) + 1, o[1], o[2])
                   for o in self.sim_states or []]
            wait = [point(emb, modes.index(o[0]) + 1, o[1], o[2]) for o in self.sim_waiting_list]
            rv['log'].append(dict(busy=bool(self.sim_states), cur=cur, wait=wait))
            if len(rv['log']) > max_steps:
                raise record.StepLimit(f'no termination after {max_steps} steps')

        def do_step(self):
            'a step'
            if not rv['log']:
                self.look()
            super().do_step()
            self.look()

    try:
        ha, modes, _, _, st = model.build(sc)
        st.random_seed = sim['seed']
        st.plot.plot_mode = PlotSettings.PLOT_IMAGE
        st.plot.filename = io.BytesIO()
        dims = [[v if not isinstance(v, list) else np.array(v, dtype=float) for v in view] for view in sim['views']]
        if len(dims) == 1 and sim['plain']:
            st.plot.xdim_dir, st.plot.ydim_dir = dims[0]
        else:
            from hylaa.settings import LabelSettings
            st.plot.xdim_dir = [d[0] for d in dims]
            st.plot.ydim_dir = [d[1] for d in dims]
            st.plot.label = [LabelSettings() for _ in dims]
        if sim['asdict']:
            names = [m['name'] for m in sc['modes']]
            st.plot.xdim_dir = {n: st.plot.xdim_dir for n in names}
        if sc['settings']['agg'] != 'none' and sim['avoid']:
            st.aggstrat.sim_avoid_modes = [sc['modes'][k]['name'] for k in sim['avoid']]
        core = Recorded(ha, st)
        res = core.simulate(modes[sc['init'][0]['mode']], sim['box'], sim['num'] if sim['skip'] == 0 else (sim['skip'], sim['num']))
        for view in res.sim_lines:
            rv['lines'].append([[[decs([float(p[0]), float(p[1])]) for p in line] for line in batch] for batch in view])
        for shapes in core.plotman.shapes:
            coll = shapes.parent_to_polys.get('sim_lines')
            paths = coll.get_paths() if coll is not None else []
            rv['drawn'].append([[decs([float(p[0]), float(p[1])]) for p in path.vertices] for path in paths])
        import matplotlib.pyplot as plt
        plt.close('all')
    except Exception as e:  # pylint: disable=broad-except
        import traceback
        rv.update(status='exc', exc=f'{type(e).__name__}: {e}', kind=type(e).__name__, tb=traceback.format_exc(limit=-6))
        if isinstance(e, record.StepLimit):
            rv['status'] = 'limit'
        return rv

    if sim['cover']:
        cov = cover(sc)
        if cov['status'] == 'ok' and cov['fin'] and len(cov['nodes']) <= 60:
            rv['nodes'], rv['cover'] = cov['nodes'], True
    return rv


def set_views(st, plot):
    'the plot settings for the views'
    import numpy as np
    from hylaa.settings import LabelSettings

    def conv(a):
        if isinstance(a, dict):
            return {k: conv(v) for k, v in a.items()}
        return np.array(a, dtype=float) if isinstance(a, list) else a

    st.plot.store_plot_result = True
    dims = [[conv(a) for a in view] for view in plot['views']]
    if len(dims) == 1 and plot['plain']:
        st.plot.xdim_dir, st.plot.ydim_dir = dims[0]
    else:
        st.plot.xdim_dir = [d[0] for d in dims]
        st.plot.ydim_dir = [d[1] for d in dims]
        st.plot.label = [LabelSettings() for _ in dims]


def stored(sc, data):
    'the stored polygons, by view and mode'
    from model import decs
    return [[[dict(k=int(o[2]), verts=[decs([float(p[0]), float(p[1])]) for p in o[0]]) for o in view[m['name']]] for m in sc['modes']]
            for view in data.mode_to_obj_list]


def plotted(sc, max_steps=600):
    'a run started with core.run that stores its plot, and questions about the plot'
    import random
    import model
    from model import decs
    record.quiet()
    from hylaa.core import Core

    plot = sc['plot']
    rec = record.Recorder(sc, max_steps)
    rv = {'status': 'ok', 'exc': '', 'kind': '', 'data': [], 'asks': []}

    class Recorded(Core):
        'records every step'

        def setup(self, init_state_list):
            'set up'
            super().setup(init_state_list)
            rec.event(self)

        def do_step(self):
            'a step'
            if len(rec.log) > max_steps:
                raise record.StepLimit(f'no termination after {max_steps} steps')
            super().do_step()
            rec.event(self)

    core = None
    try:
        rec.ha, rec.modes, rec.transitions, init, st = model.build(sc)
        set_views(st, plot)
        core = Recorded(rec.ha, st)
        res = core.run(init)
        r = random.Random(plot['seed'])
        rv['data'] = stored(sc, res.plot_data)
        names = [m['name'] for m in sc['modes']]
        for v, view in enumerate(res.plot_data.mode_to_obj_list):
            objs = [o for objs in view.values() for o in objs]
            # finding a point takes long (symbolic polygons)
            for _ in range(min(plot['asks'], 16 // len(objs)) if objs else 0):
                verts = r.choice(objs)[0]
                w = [r.random() for _ in verts]
                p = [sum(a * float(q[k]) for a, q in zip(w, verts)) / sum(w) for k in range(2)]
                if r.random() < 0.4:
                    p = [float(r.choice(verts)[k]) + r.uniform(-0.5, 0.5) for k in range(2)]
                got = res.plot_data.get_plot_data(p[0], p[1], v)
                rv['asks'].append(dict(v=v + 1, p=decs(p), found=got is not None, mode=names.index(got[1].mode.name) + 1 if got else 0,
                                       k=int(got[2]) if got else 0))
    except Exception as e:  # pylint: disable=broad-except
        import traceback
        rv.update(status='exc', exc=f'{type(e).__name__}: {e}', kind=type(e).__name__, tb=traceback.format_exc(limit=-4))
        if isinstance(e, record.StepLimit):
            rv['status'] = 'limit'
            rv['data'] = stored(sc, core.result.plot_data)
    rv['log'] = rec.log
    return rv


def replot(sc, max_steps=600):
    'a run that splits aggregated sets: what is shown after every step'
    import numpy as np
    import model
    from model import dec, decs
    record.quiet()
    from hylaa.core import Core

    plot = sc['plot']
    rv = {'status': 'ok', 'exc': '', 'kind': '', 'nv': len(plot['views']), 'nodes': [], 'ops': [], 'log': [], 'final': []}
    ops, states, keep = {}, {}, []
    old = [{} for _ in plot['views']]

    def index(table, obj):
        'number of an object, from 1'
        if id(obj) not in table:
            keep.append(obj)
            table[id(obj)] = len(table) + 1
        return table[id(obj)]

    def walk(core):
        'the nodes that are part of the computation'
        todo, seen = list(core.aggdag.roots), []
        while todo:
            node = todo.pop()
            if not any(node is x for x in seen):
                seen.append(node)
                todo += [op.child_node for op in node.op_list if getattr(op, 'child_node', None) is not None]
        return seen

    def number(state, parent_ops=None):
        'number of the node with a state; its origin is recorded when it is first seen'
        if id(state) not in states:
            n = index(states, state)
            d = dict(mode=modes.index(state.mode) + 1, ops=[], alive=True, seen=[], obj=state)
            rv['nodes'].append(d)
            for op in parent_ops or state.aggdag_op_list:
                if op is None:
                    continue
                if id(op) not in ops:
                    one = dict(tr=0, step=0, par=0)
                    rv['ops'].append(one)
                    index(ops, op)
                    if op.transition is not None:
                        one.update(tr=transitions.index(op.transition) + 1, step=int(op.step),
                                   par=number(op.parent_node.stateset, op.parent_node.parent_ops))
                d['ops'].append(ops[id(op)])
        return states[id(state)]

    def extent(state, view):
        'extent of the set itself along the axes of a view'
        rec = []
        for ax in view:
            if ax is None:
                lo, hi = (float(s) * float(sc['h']) for s in state.cur_steps_since_start)
            else:
                ax = ax[state.mode.name] if isinstance(ax, dict) else ax
                vec = np.array([float(ax == j) for j in range(state.lpi.dims)]) if isinstance(ax, int) else np.array(ax, dtype=float)
                lpi = state.lpi.clone()
                hi, lo = probe.supp(lpi, vec), -probe.supp(lpi, -vec)
            rec.append([dec(lo), dec(hi)])
        return rec

    def flush(core):
        'what has changed since the last step, after plotting'
        if not rv['log']:
            return
        for v, view in enumerate(core.result.plot_data.mode_to_obj_list):
            new = {id(o): o for objs in view.values() for o in objs}
            keep.extend(new.values())
            for o in [o for key, o in new.items() if key not in old[v]]:
                state, k = o[1], int(o[2])
                box = int(state.cur_step_in_mode) == k
                rv['log'][-1]['adds'][v].append(dict(n=number(state), k=k, verts=[decs([float(p[0]), float(p[1])]) for p in o[0]], box=box,
                                                     ext=extent(state, plot['views'][v]) if box else []))
            rv['log'][-1]['dels'][v] += [[number(o[1]), int(o[2])] for key, o in old[v].items() if key not in new]
            old[v] = new

    def look(core):
        'the nodes'
        for node in walk(core):
            d = rv['nodes'][number(node.stateset, node.parent_ops) - 1]
            k = int(node.stateset.cur_step_in_mode)
            if k not in d['seen'] and not sc['modes'][d['mode'] - 1]['err'] and node.stateset.lpi.clone().is_feasible():
                d['seen'].append(k)

    class Recorded(Core):
        'records every step'

        def do_step(self):
            'a step'
            flush(self)
            if len(rv['log']) > max_steps:
                raise record.StepLimit(f'no termination after {max_steps} steps')
            super().do_step()
            look(self)
            cur = self.aggdag.get_cur_state()
            rv['log'].append(dict(cur=0 if cur is None else number(cur), k=0 if cur is None else int(cur.cur_step_in_mode),
                                  adds=[[] for _ in plot['views']], dels=[[] for _ in plot['views']]))

    try:
        ha, modes, transitions, init, st = model.build(sc)
        probe = record.Probe(sc)
        set_views(st, plot)
        core = Recorded(ha, st)
        try:
            res = core.run(init)
        except RuntimeError as e:
            if 'No feasible initial' in str(e):
                rv['status'] = 'limit'
                rv['exc'] = 'no initial states'
                return rv
            raise
        flush(core)
        ids = {id(x.stateset) for x in walk(core)}
        for d in rv['nodes']:
            d['alive'] = id(d['obj']) in ids
        rv['final'] = [[[number(o[1]), int(o[2])] for objs in view.values() for o in objs] for view in res.plot_data.mode_to_obj_list]
    except Exception as e:  # pylint: disable=broad-except
        import traceback
        rv.update(status='exc', exc=f'{type(e).__name__}: {e}', kind=type(e).__name__, tb=traceback.format_exc(limit=-6))
        if isinstance(e, record.StepLimit):
            rv['status'] = 'limit'
    for d in rv['nodes']:
        del d['obj']
    return rv
