'''
The parts of the checks: what is generated, run, and given to which specification, per property.

A part is (name, module, families, clauses):
  families   {family: (number of cases quick, number of cases thorough)}
  clauses    function clause -> bool: does a divergence of this kind break the property?
'''

import fnmatch
import time

import elapse
import gen
import lpset
import model
import pool
import session
import text
import tlc
import wellformed

ASSUME = ['TLC evaluates the specification correctly', 'decimals of 12 digits (spec/Dec.tla), tolerance 2e-5 on support values',
          'contacts with boundaries closer than 2e-6 are left open']


def pats(*ps, no=()):
    'clause filter from fnmatch patterns'
    return lambda c: any(fnmatch.fnmatch(c, p) for p in ps) and not any(fnmatch.fnmatch(c, p) for p in no)


ANY = pats('*')
FAIL = ('exc', 'crash', 'hang', 'harness', 'nonterm')


class Part:
    'one batch: generated cases, run on the code under test, judged by a TLA+ module'

    CFG = None      # named after the module

    def __init__(self, name, module, families, clauses=ANY, timeout=120):
        self.name, self.module, self.families, self.clauses, self.timeout = name, module, families, clauses, timeout

    def indices(self, fam, count):
        'the cases of a family to run'
        return range(count)

    def make(self, family, seed, index):
        'a case (opaque to everything else)'
        return gen.make(family, seed, index)

    def job(self, case):
        'the job for the worker'
        return ('jobs.engine', (case,))

    def tla_case(self, case, res):
        'the case for the specification'
        return dict(id=case['id'], sc=model.to_json(case), log=res.get('log', []), status=res['status'],
                    exc=clean(res.get('exc')), kind=res.get('kind', ''), views=[], data=[], asks=[])

    def sample(self, case, res):
        'a short description of a case for the evidence file'
        return {'id': case['id'], 'events': len(res.get('log', []))}

    def run(self, tier, seed, only=None):
        'run the part'
        t0 = time.time()
        k = 0 if tier == 'quick' else 1
        cases = []
        for fam, counts in self.families.items():
            idx = [only[1]] if only and only[0] == fam else ([] if only else self.indices(fam, counts[k]))
            cases += [(fam, i, self.make(fam, seed, i)) for i in idx]

        # thorough runs go through in rounds, so that memory and batch files stay bounded
        rounds = [cases[i:i + 1024] for i in range(0, len(cases), 1024)]
        out = dict(part=self.name, cases=len(cases), traces=0, states=0, transitions=0, verdicts={}, violations=[],
                   samples=[])

        for rnd in rounds:
            self.run_round(rnd, seed, out)

        out['secs'] = round(time.time() - t0, 1)
        return out

    def run_round(self, cases, seed, out):
        'one round'
        ress = pool.run_jobs([self.job(c) for _, _, c in cases], timeout=self.timeout)
        tc = []
        meta = {}
        for (fam, i, case), res in zip(cases, ress):
            if res['status'] == 'harness':
                raise RuntimeError(f"harness failure on {case['id']}: {res.get('tb')}")
            if res['status'] == 'skipped':
                continue
            one = self.tla_case(case, res)
            meta[one['id']] = (fam, i, case, res)
            tc.append(one)

        rs = tlc.run_batch(self.module, self.CFG or self.module + '.cfg', tc)
        got, told = set(), set()
        for r in rs:
            out['states'] += r.distinct
            out['transitions'] += r.generated
            for line in r.verdicts:
                cid, clause, detail = line.split('|', 2)
                got.add(cid)
                key = clause if clause != 'ok' or not detail[:1].isalpha() else 'ok:' + detail.split(' ')[0]
                out['verdicts'][key] = out['verdicts'].get(key, 0) + 1
                fam, i, case, res = meta[cid]
                if clause != 'ok' and self.clauses(clause) and cid not in told:
                    told.add(cid)
                    out['violations'].append(dict(id=cid, clause=clause, detail=detail, part=self.name, family=fam,
                                                  index=i, seed=seed, tb=res.get('tb'), module=self.module))
        missing = set(meta) - got
        if missing:
            raise RuntimeError(f'no verdict for {sorted(missing)[:5]}')
        out['traces'] += len(got)
        for cid in list(meta)[:2]:
            if len(out['samples']) < 4:
                out['samples'].append(self.sample(meta[cid][2], meta[cid][3]))


def clean(s):
    'text that may appear inside a verdict line'
    return ''.join(ch if ch.isalnum() or ch in ' .,:=_-+<>()[]' else '_' for ch in (s or ''))[:160]


class CexPart(Part):
    'counterexamples'

    def job(self, case):
        return ('jobs.cex', (case,))

    def tla_case(self, case, res):
        blank = dict(conc=False, has=False, segs=[], chk=[], rep=dict(status='none', exc='', pts=[], offs=[], times=[]))
        keys = ('conc', 'has', 'segs', 'chk', 'rep')
        one = dict(id=case['id'], sc=model.to_json(case), status=res['status'], exc=clean(res.get('exc')),
                   kind=res.get('kind', ''), want=case['settings']['cex'])
        for k in keys:
            one[k] = res.get(k, blank[k])
        return one

    def sample(self, case, res):
        return {'id': case['id'], 'segments': [(d['mode'], d['steps']) for d in res.get('segs', [])]}


class CoverPart(Part):
    'exact sets against the finished computation'

    def job(self, case):
        return ('jobs.cover', (case,))

    def tla_case(self, case, res):
        one = dict(id=case['id'], sc=model.to_json(case), status=res['status'], exc=clean(res.get('exc')))
        for k in ('fin', 'agg', 'conc', 'stale'):
            one[k] = bool(res.get(k))
        one['nodes'] = res.get('nodes', [])
        return one

    def sample(self, case, res):
        return {'id': case['id'], 'nodes': len(res.get('nodes', [])), 'dead': sum(not d['alive'] for d in res.get('nodes', []))}


class WalkPart(CoverPart):
    'executions of single states against the finished computation'


class OwnWalkPart(Part):
    'executions of single states against what the specification computes (nothing of the code is run)'

    CFG = 'WalkOwn.cfg'

    def job(self, case):
        return ('jobs.nothing', (case,))

    def tla_case(self, case, res):
        return dict(id=case['id'], sc=model.to_json(case), status='ok', exc='', fin=True, agg=False, conc=False, nodes=[])

    def sample(self, case, res):
        return {'id': case['id']}


class SimPart(Part):
    'simulations'

    def job(self, case):
        return ('jobs.simul', (case,))

    def tla_case(self, case, res):
        sim = case['sim']
        return dict(id=case['id'], sc=model.to_json(case), status=res['status'], exc=clean(res.get('exc')), log=res.get('log', []),
                    lines=res.get('lines', []), drawn=res.get('drawn', []), nodes=res.get('nodes', []), cover=bool(res.get('cover')),
                    views=[[model.decs(f) for f in fs] for fs in sim['fun']],
                    avoid=[k + 1 for k in sim['avoid']] if case['settings']['agg'] != 'none' else [],
                    num=sim['num'] - sim['skip'], skip=sim['skip'])

    def sample(self, case, res):
        return {'id': case['id'], 'events': len(res.get('log', [])), 'points': case['sim']['num'] - case['sim']['skip'], 'nodes': len(res.get('nodes', []))}


class PlotPart(Part):
    'runs that store their plot'

    def job(self, case):
        return ('jobs.plotted', (case,))

    def tla_case(self, case, res):
        one = super().tla_case(case, res)
        if res.get('data'):
            views = [[[dict(t=ax['t'], f=model.decs(ax['f'])) for ax in axes] for axes in zip(*view)] for view in case['plot']['fun']]
            one.update(views=views, data=res['data'], asks=res['asks'])
        return one

    def sample(self, case, res):
        return {'id': case['id'], 'views': len(case['plot']['views']), 'polygons': sum(len(o) for v in res.get('data', []) for o in v)}


class ReplotPart(Part):
    'runs that store their plot while sets are split'

    def job(self, case):
        return ('jobs.replot', (case,))

    def tla_case(self, case, res):
        one = dict(id=case['id'], status=res['status'], exc=clean(res.get('exc')), nv=len(case['plot']['views']))
        for k in ('nodes', 'ops', 'log', 'final'):
            one[k] = res.get(k, [])
        return one

    def sample(self, case, res):
        return {'id': case['id'], 'nodes': len(res.get('nodes', [])), 'dead': sum(not d['alive'] for d in res.get('nodes', []))}


class ElapsePart(Part):
    'request histories for solution matrices; families are named after the configurations of TimeElapse.tla'

    SHAPE = dict(A=(1, False), B=(2, False), C=(1, True), D=(3, False))

    def run(self, tier, seed, only=None):
        self.hist = {}
        self.tlc = []
        fams = [only[0]] if only else list(self.families)
        for f in fams:
            cfg = self.families[f][0 if tier == 'quick' or only else 1]
            if only:
                cfg = only[2] if len(only) > 2 else cfg
            if cfg is None:
                self.hist[f] = []
                continue
            self.hist[f], r = elapse.histories(cfg + '.cfg')
            self.tlc.append(r)
        counts = {f: (len(self.hist[f]),) * 2 for f in fams}
        keep, self.families = self.families, counts
        try:
            out = super().run(tier, seed, only)
        finally:
            self.families = keep
        out['states'] += sum(r.distinct for r in self.tlc)
        out['transitions'] += sum(r.generated for r in self.tlc)
        out['histories'] = {f: len(h) for f, h in self.hist.items()}
        return out

    def make(self, family, seed, index):
        modes, wide = self.SHAPE[family[0]]
        return elapse.make(seed, 'elapse' + family, index, self.hist[family][index], modes, wide)

    def job(self, case):
        return ('elapse.replay', (case,))

    def tla_case(self, case, res):
        one = elapse.tla_case(case, res)
        one['exc'] = clean(one['exc'])
        return one

    def sample(self, case, res):
        return {'id': case['id'], 'history': case['hist']}


class SetPart(Part):
    'operation sequences on symbolic sets: short (all of them, sampled evenly) and long (simulated)'

    def run(self, tier, seed, only=None):
        k = 0 if tier == 'quick' else 1
        self.sched, self.tlc = {}, []
        for f in ([only[0]] if only else self.families):
            n = self.families[f][k]
            if f == 'short':
                self.sched[f], r = lpset.schedules('LpOps.cfg')
                stride = max(1, len(self.sched[f]) // n)
                if not only:
                    self.pick = list(range(int(seed) % stride, len(self.sched[f]), stride))
            else:
                self.sched[f], r = lpset.schedules('LpOpsSim.cfg', ('-simulate', f'num={n}', '-depth', '11', '-seed', str(seed)),
                                                   per_trace=1, seed=seed)
            self.tlc.append(r)
        keep = self.families
        self.families = {f: (len(s),) * 2 for f, s in self.sched.items()}
        try:
            out = super().run(tier, seed, only)
        finally:
            self.families = keep
        out['states'] += sum(r.distinct for r in self.tlc)
        out['transitions'] += sum(r.generated for r in self.tlc)
        out['schedules'] = {f: len(h) for f, h in self.sched.items()}
        return out

    def indices(self, fam, count):
        return self.pick if fam == 'short' else range(count)

    def make(self, family, seed, index):
        inp, ops = self.sched[family][index]
        return lpset.make(seed, 'sets-' + family, index, inp, ops)

    def job(self, case):
        return ('lpset.replay', (case,))

    def tla_case(self, case, res):
        one = lpset.tla_case(case, res)
        one['exc'] = clean(one['exc'])
        return one

    def sample(self, case, res):
        return {'id': case['id'], 'operations': [d['op'] for d in res.get('log', [])]}


class TextPart(Part):
    'models given as text; families are named after the configurations of TextWrite.tla'

    SRC = dict(short=('TextWriteF', 'TextWrite1'), harm=('TextWriteHF', 'TextWriteH'), long=('TextWriteSim',) * 2, longharm=('TextWriteSimH',) * 2)
    TRACES = (400, 6000)

    def run(self, tier, seed, only=None):
        self.trees, self.tlc = {}, []
        if only:
            tier = only[0].split('-')[1]
        k = 0 if tier == 'quick' else 1
        for f in ([only[0].split('-')[0]] if only else self.families):
            cfg = self.SRC[f][k] + '.cfg'
            sim = ('-simulate', f'num={self.TRACES[k]}', '-depth', '12', '-seed', str(seed)) if f.startswith('long') else ()
            self.trees[f], r = text.spellings(cfg, sim, 1 if sim else 8)
            self.tlc.append(r)
        keep = self.families
        self.families = {f'{f}-{tier}': (keep[f][k],) * 2 for f in self.trees}
        try:
            out = super().run(tier, seed, only)
        finally:
            self.families = keep
        out['states'] += sum(r.distinct for r in self.tlc)
        out['transitions'] += sum(r.generated for r in self.tlc)
        out['spellings'] = {f: len(t) for f, t in self.trees.items()}
        return out

    def make(self, family, seed, index):
        return text.make(seed, family, index, self.trees[family.split('-')[0]])

    def job(self, case):
        return ('text.replay', (case,))

    def tla_case(self, case, res):
        one = text.tla_case(case, res)
        one['exc'] = clean(one['exc'])
        return one

    def sample(self, case, res):
        return {'id': case['id'], 'kind': case['kind'], 'texts': case['texts']}


class SessionPart(Part):
    'several analyses in one process: schedules of two (all of them, sampled evenly) and of four (simulated)'

    SRC = dict(pairs=('Session2', 'Session22'), again=('Session2', 'Session22'), long=('SessionSim',) * 2)
    TRACES = (300, 3000)

    def run(self, tier, seed, only=None):
        self.sched, self.tlc = {}, []
        if only:
            tier = only[0].split('-')[1]
        k = 0 if tier == 'quick' else 1
        for f in ([only[0].split('-')[0]] if only else self.families):
            sim = ('-simulate', f'num={self.TRACES[k]}', '-depth', '30', '-seed', str(seed)) if f == 'long' else ()
            self.sched[f], r = session.schedules(self.SRC[f][k] + '.cfg', sim)
            if f == 'again':
                # an automaton that is analysed a second time
                self.sched[f] = [x for x in self.sched[f] if x[1] == [1, 1] and all(y in ('step', 'run') for y in x[0])]
            self.tlc.append(r)
        keep = self.families
        self.families = {f'{f}-{tier}': (keep[f][k],) * 2 for f in self.sched}
        try:
            out = super().run(tier, seed, only)
        finally:
            self.families = keep
        out['states'] += sum(r.distinct for r in self.tlc)
        out['transitions'] += sum(r.generated for r in self.tlc)
        out['schedules'] = {f: len(t) for f, t in self.sched.items()}
        return out

    def indices(self, fam, count):
        if not fam.startswith('pairs'):
            return range(count)
        n = len(self.sched[fam.split('-')[0]])
        stride = max(1, n // count)
        return range(0, n, stride)

    def make(self, family, seed, index):
        return session.make(seed, family, index, self.sched[family.split('-')[0]])

    def job(self, case):
        return ('session.replay', (case,))

    def tla_case(self, case, res):
        one = session.tla_case(case, res)
        one['exc'] = clean(one['exc'])
        return one

    def sample(self, case, res):
        return {'id': case['id'], 'schedule': case['sched'], 'views': [len(s) for s in res.get('seen', [])]}


class WellPart(Part):
    'models with changed pieces; families: one change (all of them), two changes and three changes (sampled)'

    SRC = dict(plain='WellFormed1.cfg', one='WellFormed1.cfg', two='WellFormed2.cfg', three='WellFormed3.cfg')

    def run(self, tier, seed, only=None):
        self.models, rs = {}, {}
        for f in ([only[0]] if only else self.families):
            sim = ('-simulate', 'num=3000', '-depth', '4', '-seed', str(seed)) if f == 'three' else ()
            self.models[f], rs[f] = wellformed.models(self.SRC[f], sim)
        out = super().run(tier, seed, only)
        out['states'] += sum(r.distinct for r in rs.values())
        out['transitions'] += sum(r.generated for r in rs.values())
        out['models'] = {f: len(t) for f, t in self.models.items()}
        return out

    def indices(self, fam, count):
        return range(len(self.models[fam]) if fam == 'one' else count)

    def make(self, family, seed, index):
        return wellformed.make(seed, family, index, self.models[family])

    def job(self, case):
        return ('wellformed.replay', (case,))

    def tla_case(self, case, res):
        ops = [dict(o=o, r=clean(r), m=m) for o, r, m in res.get('ops', [])]
        return dict(id=case['id'], model=case['model'], base=case['base'], ops=ops, status=res['status'], exc=clean(res.get('exc')))

    def sample(self, case, res):
        return {'id': case['id'], 'model': case['model'], 'operations': len(res.get('ops', []))}


# ---------------------------------------------------------------------------------------------------------------

UPPER = ('*upper', '*spurious', '*left.late', '*off', 'stop.late', '*conc')

PROPS = {
    'C01': [Part('engine runs', 'TraceEngine', dict(exact=(24, 400), exact_inputs=(24, 400), exact_resets=(16, 300),
                                                     box=(24, 400), arnoldi=(16, 300), chull=(16, 200), tt=(16, 200)),
                 pats('*', no=UPPER)),
            WalkPart('executions', 'Walk', dict(exact=(8, 300), exact_inputs=(8, 300), exact_resets=(8, 300), box=(10, 300),
                                                arnoldi=(8, 300), chull=(6, 200), tt=(6, 200))),
            OwnWalkPart('executions of the specification', 'Walk', dict(exact=(4, 100), exact_inputs=(3, 100), box=(6, 200), chull=(3, 100)))],
    'C02': [Part('engine runs', 'TraceEngine', dict(exact=(32, 500), exact_inputs=(40, 600), exact_resets=(32, 500), single=(24, 400)),
                 pats('*', no=('verdict*', 'stop*')))],
    'C03': [Part('engine runs', 'TraceEngine', dict(stops=(96, 1500), near=(24, 300)), pats('*', no=('*upper', '*lower', '*off'))),
            WalkPart('executions', 'Walk', dict(stops=(32, 600)))],
    'C04': [CexPart('counterexamples', 'Cex', dict(cex=(400, 6000)))],
    'C05': [Part('engine runs', 'TraceEngine', dict(box=(64, 900), arnoldi=(40, 600), chull=(40, 500)),
                 pats('agg*', 'pop*', 'worklist*', 'step*', *FAIL))],
    'C06': [CoverPart('final cover', 'Cover', dict(deagg=(200, 3000), deaggin=(64, 1000))),
            WalkPart('executions', 'Walk', dict(deagg=(48, 900)))],
    'C07': [Part('engine runs', 'TraceEngine', dict(exact=(24, 400), tt=(32, 600), box=(32, 500), single=(16, 300), stops=(16, 300)),
                 pats('*', no=('*upper', '*lower', '*off', 'guard*')))],
    'C08': [Part('engine runs', 'TraceEngine', dict(single=(56, 900), cuts=(56, 900), near=(48, 600)), pats('*', no=('verdict*', 'stop*')))],
    'C09': [Part('engine runs', 'TraceEngine', dict(tt=(64, 900), strengthen=(40, 600), zero=(40, 600)), ANY),
            WalkPart('executions', 'Walk', dict(tt=(24, 600), strengthen=(20, 400), zero=(16, 400))),
            OwnWalkPart('executions of the specification', 'Walk', dict(tt=(6, 150), strengthen=(5, 150), zero=(4, 150)))],
    'C10': [Part('engine runs', 'TraceEngine', dict(exact_resets=(40, 800), guards=(56, 900), box=(20, 400), near=(40, 600)),
                 pats('guard*', 'succ*', 'worklist*', 'pop*', 'verdict*', 'zero*', *FAIL))],
    'C11': [ElapsePart('matrices', 'TimeElapseTrace', dict(A=('TimeElapseA', 'TimeElapseA2'), B=('TimeElapseB', 'TimeElapseB2'),
                                                           C=('TimeElapseC', 'TimeElapseC2'), D=(None, 'TimeElapseD')))],
    'C12': [SetPart('sets', 'LpSet', dict(short=(700, 12000), long=(300, 6000)))],
    'C13': [Part('engine runs', 'TraceEngine', dict(approx=(64, 900), lgg=(64, 900))),
            CoverPart('final cover', 'Cover', dict(deaggapprox=(48, 600))),
            WalkPart('executions', 'Walk', dict(approx=(16, 400), lgg=(16, 400), deaggapprox=(10, 200))),
            OwnWalkPart('executions of the specification', 'Walk', dict(approx=(4, 100), lgg=(4, 100)))],
    'C15': [PlotPart('stored plots', 'TraceEngine', dict(plot=(144, 4000)), pats('plot*', *FAIL)),
            ReplotPart('plots of split sets', 'PlotTrace', dict(replot=(160, 3000)))],
    'C16': [TextPart('text', 'TextTrace', dict(short=(900, 20000), harm=(500, 10000), long=(400, 6000), longharm=(400, 6000)))],
    'C17': [SessionPart('sessions', 'SessionTrace', dict(pairs=(150, 3000), again=(350, 3000), long=(60, 1500)), timeout=400)],
    'C18': [WellPart('models', 'WellFormedTrace', dict(plain=(300, 3000), one=(1, 1), two=(2500, 60000), three=(500, 3000)), timeout=60)],
    'C14': [SimPart('simulations', 'SimTrace', dict(sim=(240, 4000)))],
}


def run_property(prop, tier, seed):
    'run all parts of a property'
    rv = dict(violations=[], states=0, transitions=0, traces=0, samples=[], parts=[], assumptions=ASSUME)
    for p in PROPS[prop]:
        o = p.run(tier, seed)
        rv['violations'] += o.pop('violations')
        rv['states'] += o['states']
        rv['transitions'] += o['transitions']
        rv['traces'] += o['traces']
        rv['samples'] += o.pop('samples')
        rv['parts'].append(o)
    return rv


def replay(rec):
    'run one recorded case again'
    for p in PROPS[rec['property']]:
        if p.name == rec['part']:
            return p.run('quick', rec['seed'], only=(rec['family'], rec['index']))['violations']
    raise RuntimeError('unknown part')

TECH = {'C18': 'well-formed models with up to two changed pieces (more at random) are enumerated by TLC from a specification of well-formedness, given to the code, and its answers judged by the specification',
        'C17': 'every schedule of two analyses (longer ones at random) is generated by TLC and replayed in one process; the specification says which analysis may show what, judged against the same analysis alone',
        'C16': 'spellings generated by TLC from a rewriting specification are given to the code, and every answer judged by the specification',
        'C11': 'every request history of the design is generated by TLC, replayed on the code, and each answer judged by the specification',
        'C12': 'operation schedules generated by TLC are replayed on the code, and every snapshot and answer judged by the specification'}
NOTES = {'C18': 'bounded: six well-formed models, all single changes of a piece, pairs and triples sampled',
         'C17': 'bounded: all schedules of two analyses with up to two bursts each (sampled), random ones of four analyses; generated automata',
         'C16': 'bounded: all spellings one rewriting away from the forms of the configuration (sampled), random ones seven away',
         'C11': 'bounded: all request histories up to the bound of the TLC configuration, on generated dynamics',
         'C12': 'bounded: all schedules up to length 3 (sampled), random ones of length 10, on generated sets'}
