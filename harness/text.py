'''Models given as text: spellings generated by TLC (TextWrite.tla), written down and given to the real code.'''

from fractions import Fraction as F
import json
import random
import re

import model
import tlc

NAMES = ['x', 'y', 'z', 'x1', 'x2', 'x10', 'x_dot', '_t', 'E', 'I', 'S', 'N', 'Q', 'beta', 'gamma', 'pi', 'lamda', 'Vel', 'e', 'e1',
         'xx', 'i', 'j', 'a', 'aa', 'time', 'zeta', 'im', 're', 'C', 'O', 'x_1', 'T_out', 'theta']
CONSTS = ['k', 'K', 'k_p', 'c0', 'alpha', 'M', 'W', 'sigma', 'dt', 'x0', 'E0', 'chi', 'xc']
UNKNOWN = ['u', 'w', 'xy', 'E', 'pi', 'oo', 'nan', 'N', 'I', 'x3', 'k1', 'f', 'X']
NUMS = [F(1, 10), F(1, 4), F(3), F(10), F(3, 200), F(7), F(12345, 1000), F(-7, 5), F(0), F(1), F(-1), F(20)]


def spellings(cfg, extra=(), workers=1):
    'trees as printed by TLC'
    r = tlc.run('TextWrite', cfg, extra=list(extra), must_complete=not extra, workers=workers, heap='4g')
    if r.violated:
        raise tlc.TlcError('TextWrite: ' + str(r.violated))
    rv = sorted(set(re.findall(r'^"SPELL\|(.*)"$', r.out, re.M)))
    if not rv:
        raise tlc.TlcError('TextWrite printed nothing:\n' + r.out[-2000:])
    return [json.loads(s.replace('\\"', '"')) for s in rv], r


def value(d):
    'Fraction of a decimal'
    return F(d[0] * 10**9 + d[1], 10**12)


def change(r, t, names, odd, expo=False):
    'the tree with the names renamed and some numbers replaced'
    rv = dict(t)
    if t['o'] == 'name':
        rv['n'] = names[t['n']]
    elif t['o'] == 'num' and not expo and r.random() < odd:
        rv['v'] = model.dec(r.choice(NUMS))
    rv['a'] = [change(r, x, names, odd, t['o'] == 'pow' and k == 1) for k, x in enumerate(t['a'])]
    return rv


def number(r, v):
    'a way to write a number >= 0, and how tightly it binds'
    if v.denominator == 1:
        return r.choice([f'{v}', f'{v}', f'{v}.0', f'{v}.', f'{float(v):e}']), 5
    dec = format(float(v), '.12g')
    opts = [(dec, 5), (dec, 5), (repr(float(v)), 5), (f'{v.numerator}/{v.denominator}', 2)]
    if dec.startswith('0.'):
        opts.append((dec[1:], 5))
    return r.choice(opts)


def render(r, t, calls=('sin', 'exp', 'sqrt', 'Abs', 'cos')):
    'the text of a tree, and how tightly its top operation binds'
    sp = lambda: r.choice(['', ' ', ' ', '  '])

    def sub(x, lim):
        s, p = render(r, x)
        if p < lim or r.random() < 0.1:
            return '(' + sp() + s + sp() + ')'
        return s

    o = t['o']
    if o == 'num':
        v = value(t['v'])
        s, p = number(r, abs(v))
        if v < 0:
            return ('-' + s, min(p, 3))
        return s, p
    if o == 'name':
        return t['n'], 5
    if o in ('add', 'sub'):
        a, b = sub(t['a'][0], 1), sub(t['a'][1], 1 if o == 'add' else 2)
        # 1 + -x is fine, and so is 1 - -x
        return a + sp() + ('+' if o == 'add' else '-') + sp() + b, 1
    if o in ('mul', 'div'):
        a, b = sub(t['a'][0], 2), sub(t['a'][1], 3)
        return a + sp() + ('*' if o == 'mul' else '/') + sp() + b, 2
    if o in ('neg', 'pos'):
        return ('-' if o == 'neg' else '+') + sp() + sub(t['a'][0], 3), 3
    if o == 'pow':
        return sub(t['a'][0], 5) + '**' + sub(t['a'][1], 5), 4
    if o == 'call':
        s, _ = render(r, t['a'][0])
        return r.choice(calls) + '(' + s + ')', 5
    raise RuntimeError(o)


ZERO = dict(o='num', a=[], v=[0, 0], n='')


def make(seed, name, index, pool):
    'a case from the trees of a pool'
    r = random.Random(f'{seed}/{name}/{index}')
    n = 3
    pick = r.sample(NAMES, 5)
    cons = r.sample([c for c in CONSTS + NAMES if c not in pick], 3)
    unk = r.choice([u for u in UNKNOWN if u not in pick + cons])
    names = dict(v1=pick[0], v2=pick[1], v3=pick[2], k0=cons[0], k1=cons[1], k2=cons[2], u1=unk)
    var = pick[:n] + pick[3:3 + r.choice([0, 0, 0, 1, 2])]
    r.shuffle(var)
    if r.random() < 0.08:
        var.remove(r.choice(pick[:n]))
    vals = [[F(0), r.choice([F(0), F(0), F(1)])][r.random() < 0.1], r.choice([F(2), F(3), F(-1, 4), F(10), F(1, 8)]),
            r.choice([F(-1, 2), F(1), F(-3), F(5, 4)])]
    odd = r.choice([0, 0.3, 0.6])
    kind = r.choice(['dyn', 'reset', 'cond', 'cond'])
    aff = r.random() < 0.6

    def tree():
        return change(r, pool[r.randrange(len(pool))], names, odd)

    def calm():
        'something that is linear anyway'
        t = dict(o='mul', a=[dict(o='num', a=[], v=model.dec(r.choice(NUMS)), n=''), dict(o='name', a=[], v=[0, 0], n=r.choice(var))], v=[0, 0], n='')
        return r.choice([t, dict(ZERO), dict(o='name', a=[], v=[0, 0], n=r.choice(var))])

    rows = []
    hot = r.randrange(len(var))
    for k in range(len(var) if kind == 'dyn' else r.choice([1, 2, 3])):
        one = tree() if k == hot or r.random() < 0.4 else calm()
        if kind == 'cond':
            op = r.choice(['<=', '<=', '>=', '>=']) if r.random() < 0.96 else r.choice(['<', '>', '==', '=', '=>', '=<', 'both', '', 'left', 'right', 'and', 'or', 'if'])
            two = r.choice([tree(), calm(), calm(), dict(ZERO)])
            if r.random() < 0.5:
                one, two = two, one
            rows.append(dict(l=one, op=op, r=two))
        else:
            rows.append(dict(l=one, op='' if r.random() < 0.97 else r.choice(['and', 'or', 'if']), r=dict(ZERO)))

    texts = []
    for row in rows:
        s = render(r, row['l'])[0]
        if kind == 'cond':
            op = row['op']
            if op == 'left':
                s += r.choice([' <= ', '>='])
            elif op == 'right':
                s = r.choice([' <= ', '>=']) + s
            elif op in ('and', 'or', 'if'):
                s += r.choice(['<=', ' >= ']) + render(r, row['r'])[0]
            elif op == 'both':
                s += ' <= ' + render(r, row['r'])[0] + r.choice([' <= ', ' >= ']) + var[0]
            elif op == '':
                pass
            else:
                s += r.choice(['', ' ', ' ']) + op + r.choice(['', ' ', ' ']) + render(r, row['r'])[0]
        if row['op'] in ('and', 'or'):
            k = r.choice(var)
            s = s + f' {row["op"]} ' + k if r.random() < 0.5 else f'{k} {row["op"]} {s}'
        elif row['op'] == 'if':
            s += f' if {r.choice(var)} else {r.choice(var)}'
        texts.append(s)

    return dict(id=f'{name}-{seed}-{index}', kind=kind, vars=var, consts=list(zip(cons, vals)), aff=aff, rows=rows, texts=texts,
                asfloat=r.random() < 0.5)


def replay(case):
    'give it to the code'
    from hylaa import symbolic
    import math
    import traceback

    consts = {n: (float(v) if case['asfloat'] or v.denominator != 1 else int(v)) for n, v in case['consts']}
    rv = dict(status='ok', exc='', mat=[], rhs=[], wild=False)

    def num(x):
        x = float(x)
        if not math.isfinite(x):
            rv['wild'] = True
            return [0, 0]
        # out of the range of the decimals: that row is left open
        if abs(x) > 1e5:
            rv['big'] = True
            return [0, 0]
        return model.dec(x)

    try:
        if case['kind'] == 'cond':
            mat, rhs = symbolic.make_condition(case['vars'], case['texts'], consts, has_affine_variable=case['aff'])
        else:
            fn = symbolic.make_dynamics_mat if case['kind'] == 'dyn' else symbolic.make_reset_mat
            mat, rhs = fn(case['vars'], case['texts'], consts, has_affine_variable=case['aff']), []
        rv['mat'] = [[num(x) for x in row] for row in mat]
        rv['rhs'] = [num(x) for x in rhs]
    except Exception as e:  # pylint: disable=broad-except
        rv.update(status='exc', exc=f'{type(e).__name__}: {e}', tb=traceback.format_exc(limit=-3))
    return rv


def tla_case(case, res):
    'for TextTrace'
    return dict(id=case['id'], kind=case['kind'], vars=case['vars'], consts=[dict(n=n, v=model.dec(v)) for n, v in case['consts']],
                aff=case['aff'], rows=case['rows'], status=res['status'], exc=res.get('exc') or '', wild=bool(res.get('wild')), big=bool(res.get('big')),
                mat=res.get('mat', []), rhs=res.get('rhs', []))
