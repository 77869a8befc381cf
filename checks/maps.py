"""Conformance stages for maps over variables and for assignments."""
from vlib.core import Stage
from vlib.proj import q, unq, attempt


def execute(hist):
    import json
    import logging
    logging.disable(logging.CRITICAL)
    from jpt.base.intervals import ContinuousSet
    from jpt.distributions import Numeric, SymbolicType, IntegerType
    from jpt.variables import NumericVariable, SymbolicVariable, IntegerVariable, VariableMap, Variable

    def make():
        return [NumericVariable('a', Numeric), SymbolicVariable('B', SymbolicType('BT', ['x', 'y', 'z'])),
                IntegerVariable('c1', IntegerType('CT', 1, 4)), NumericVariable('10', Numeric, precision=.5)]
    variables, twins = make(), [Variable.from_json(json.loads(json.dumps(v.to_json()))) for v in make()]
    nv, K, mode = hist['nv'], hist['k'], hist['mode']
    names = [v.name for v in variables]
    reg = [None] * K

    def mk(c):
        return {'list': lambda: [c], 'set': lambda: {c}, 'int': lambda: c, 'cs': lambda: ContinuousSet(c, c + 1)}[mode]()

    def un(x):
        try:
            if mode == 'list':
                return x[0] if type(x) is list and len(x) == 1 else -1
            if mode == 'set':
                return list(x)[0] if type(x) is set and len(x) == 1 else -1
            if mode == 'cs':
                return int(x.lower) if x.upper == x.lower + 1 else -1
            return x if type(x) is int else -1
        except Exception:
            return -1

    def vi(v):
        return names.index(v.name) + 1 if isinstance(v, Variable) and v.name in names else -1

    def key(v, how):
        return {'var': variables, 'name': names, 'twin': twins}[how][v - 1]

    def look(m):
        if m is None:
            return {'keys': [], 'vals': [], 'known': [], 'len': 0, 'truth': False, 'isin': [], 'named': [], 'got': [], 'gotn': []}
        ks = list(m)
        ok = list(m.keys()) == ks and [k for k, _ in m.items()] == ks and [un(x) for _, x in m.items()] == [un(x) for x in m.values()]
        return {'keys': [vi(k) for k in ks] if ok else [-1], 'vals': [un(x) for x in m.values()],
                'known': sorted(vi(v) for v in m.variables), 'len': len(m), 'truth': bool(m),
                'isin': [v + 1 for v in range(nv) if variables[v] in m and twins[v] in m],
                'named': [v + 1 for v in range(nv) if names[v] in m],
                'got': [un(m[k]) for k in ks], 'gotn': [un(m[k.name]) for k in ks]}
    evs = []

    def note(ev):
        ev['regs'] = [look(m) for m in reg]
        evs.append(ev)
    for c in hist['cmds']:
        o, t, a = c['op'], c.get('t', 1) - 1, c.get('a', 1) - 1
        if o != 'new' and any(c.get(k) and reg[c[k] - 1] is None for k in ('a', 'b', 'r')) or o in ('set', 'del', 'update', 'minus') and reg[t] is None:
            continue
        if o == 'new':
            pairs = [(variables[p['v'] - 1], mk(p['c'])) for p in c['pairs']]
            if c['form'] == 'names':
                pairs = [(v.name if names.index(v.name) + 1 in c['known'] else v, x) for v, x in pairs]
            data = dict(pairs) if c['form'] == 'dict' else None if not pairs and c['form'] == 'none' else pairs
            m, e = attempt(lambda: VariableMap(data, variables=[variables[v - 1] for v in c['known']]))
            reg[t] = m
            pp = c['pairs']
            if c['form'] == 'dict':
                d = {}
                for p in pp:
                    d[p['v']] = p['c']
                pp = [{'v': v, 'c': x} for v, x in d.items()]
            note({'op': 'new', 't': t + 1, 'known': c['known'], 'pairs': pp, 'exc': e})
        elif o == 'set':
            def f():
                reg[t][key(c['v'], c['how'])] = mk(c['c'])
            _, e = attempt(f)
            note({'op': 'set', 't': t + 1, 'v': c['v'], 'how': c['how'], 'c': c['c'], 'exc': e})
        elif o == 'del':
            def f():
                if c['isub']:
                    reg[t] -= key(c['v'], c['how'])
                else:
                    del reg[t][key(c['v'], c['how'])]
            _, e = attempt(f)
            note({'op': 'del', 't': t + 1, 'v': c['v'], 'exc': e})
        elif o == 'update':
            def f():
                if c['how'] == 'iadd':
                    reg[t] += reg[a]
                elif reg[t].update(reg[a]) is not reg[t]:
                    raise AssertionError
            _, e = attempt(f)
            note({'op': 'update', 't': t + 1, 'a': a + 1, 'exc': e})
        elif o == 'minus':
            def f():
                reg[t] -= reg[a]
            _, e = attempt(f)
            note({'op': 'minus', 't': t + 1, 'a': a + 1, 'exc': e})
        elif o == 'copy':
            m, e = attempt(lambda: reg[a].copy(deep=c['deep']) if c['deep'] or c['kw'] else reg[a].copy())
            reg[t] = m
            note({'op': 'copy', 't': t + 1, 'a': a + 1, 'deep': c['deep'], 'exc': e})
        elif o == 'json':
            if mode == 'set':
                continue
            args = {'typ': ContinuousSet} if mode == 'cs' else {}
            m, e = attempt(lambda: VariableMap.from_json(variables, json.loads(json.dumps(reg[a].to_json())), **args))
            reg[t] = m
            note({'op': 'json', 't': t + 1, 'a': a + 1, 'exc': e})
        elif o == 'mutate':
            m, v = reg[c['r'] - 1], variables[c['v'] - 1]
            if mode == 'int' or v not in m:
                continue
            x = m[v]
            if mode == 'list':
                x[0] = c['c']
            elif mode == 'set':
                x.clear()
                x.add(c['c'])
            else:
                x.lower, x.upper = c['c'], c['c'] + 1
            note({'op': 'mutate', 'r': c['r'], 'v': c['v'], 'c': c['c']})
        elif o == 'get':
            m = reg[c['r'] - 1]
            x, e = attempt(lambda: un(m[key(c['v'], c['how'])]))
            g, ge = attempt(lambda: m.get(key(c['v'], c['how']), 99))
            note({'op': 'get', 'r': c['r'], 'v': c['v'], 'item': -1 if x is None else x, 'exc': e, 'def': 99,
                  'get': -1 if ge else 99 if type(g) is int and g == 99 else un(g), 'gexc': ge})
        elif o == 'pair':
            A, B = reg[c['a'] - 1], reg[c['b'] - 1]

            def f():
                return {'eq': bool(A == B), 'ne': bool(A != B), 'hash': mode == 'list' or hash(A) == hash(B)}
            r, e = attempt(f)
            note(dict(r or {'eq': False, 'ne': True, 'hash': True}, op='pair', a=c['a'], b=c['b'], exc=e))
        else:
            raise ValueError(o)
    return {'id': hist['id'], 'k': K, 'nv': nv, 'ev': evs}


def gen(ctx):
    out = []
    for i, h in enumerate(ctx.behaviours('VarMapGen', 'VarMapGen', simulate=ctx.n(250, 5000), depth=25)):
        rng = ctx.rng('maps%d' % i)
        nv, K = h['nv'], h['k']
        cmds = []
        for c in h['ops']:
            c = dict(c)
            if c['op'] == 'new':
                c['known'] = sorted(c['known'])
                c['pairs'] = [{'v': rng.randint(1, nv), 'c': rng.randint(0, 3)} for _ in range(rng.choice((0, 0, 1, 2, 3)))]
                c['form'] = rng.choice(('list', 'dict', 'names', 'none'))
            elif c['op'] == 'del':
                c['isub'] = rng.random() < .4
            elif c['op'] == 'copy':
                c['kw'] = rng.random() < .5
                if rng.random() < .15:
                    c = {'op': 'json', 't': c['t'], 'a': c['a']}
            elif c['op'] == 'mutate':
                c['c'] = rng.randint(4, 9)
            cmds.append(c)
            if rng.random() < .3:
                cmds.append({'op': 'get', 'r': rng.randint(1, K), 'v': rng.randint(1, nv), 'how': rng.choice(('var', 'name', 'twin'))})
            if rng.random() < .3:
                cmds.append({'op': 'pair', 'a': rng.randint(1, K), 'b': rng.randint(1, K)})
        out.append({'id': 'm-%d' % i, 'k': K, 'nv': nv, 'mode': rng.choice(('list', 'set', 'int', 'cs')), 'cmds': cmds})
    return out


# ------------------------------------------------------------------------------------------------------- assignments
def execute_assign(hist):
    import json
    import logging
    import math
    import pickle
    logging.disable(logging.CRITICAL)
    from jpt.base.intervals import ContinuousSet, RealSet, NumberSet
    from jpt.distributions import Numeric, NumericType, SymbolicType, IntegerType
    from jpt.variables import NumericVariable, SymbolicVariable, IntegerVariable, LabelAssignment, ValueAssignment
    VS = hist['V']
    variables, grids = [], []
    for i, v in enumerate(VS):
        name = 'V%d' % (i + 1)
        if v['kind'] == 'num':
            dom = NumericType(name + 'T', [unq(v['m']) - unq(v['s']), unq(v['m']) + unq(v['s'])]) if v['m'] else Numeric
            variables.append(NumericVariable(name, dom))
            g = [unq(x) for x in v['grid']]
            grids.append({'label': g, 'value': [(x - unq(v['m'])) / unq(v['s']) for x in g] if v['m'] else g})
        elif v['kind'] == 'sym':
            variables.append(SymbolicVariable(name, SymbolicType(name + 'T', v['labels'])))
            grids.append(None)
        else:
            variables.append(IntegerVariable(name, IntegerType(name + 'T', v['labels'][0], v['labels'][-1])))
            grids.append(None)
    names = [v.name for v in variables]
    reg = [None] * hist['k']

    def label(i, x):
        try:
            return VS[i]['labels'].index(x) + 1
        except ValueError:
            return -1

    def un(i, x, space):
        """the content a value denotes"""
        try:
            if VS[i]['kind'] != 'num':
                to = (lambda y: label(i, y)) if space == 'label' else (lambda y: int(y) + 1 if 0 <= y < VS[i]['n'] else -1)
                if isinstance(x, (set, frozenset)):
                    return {'k': 'set', 's': sorted(to(y) for y in x)}
                return {'k': 'bad', 's': []} if isinstance(x, (list, tuple)) else {'k': 'scalar', 's': [to(x)]}
            g = grids[i][space]
            n = len(g)
            if not isinstance(x, NumberSet):
                return {'k': 'scalar', 's': [2 * (g.index(float(x)) + 1) if float(x) in g else -1]}
            ivs = x.intervals if isinstance(x, RealSet) else [x]
            if any(not (math.isinf(b) or b in g) for iv in ivs if not iv.isempty() for b in (iv.lower, iv.upper)):
                return {'k': 'bad', 's': []}
            out = []
            for c in range(2 * n + 1):
                if c % 2:
                    ps = [g[c // 2]]
                else:
                    a, b = (g[c // 2 - 1] if c else g[0] - 2), (g[c // 2] if c < 2 * n else g[-1] + 2)
                    ps = [a + (b - a) * f for f in (.01, .5, .99)]
                ins = {bool(x.contains_value(p)) for p in ps}
                if len(ins) > 1:
                    return {'k': 'bad', 's': [c]}
                if ins.pop():
                    out.append(c + 1)
            return {'k': 'set', 's': out}
        except Exception as e:
            return {'k': type(e).__name__, 's': []}

    def mk(i, c, space):
        if c['t'] == 'pt':
            return grids[i][space][c['k'] - 1]
        if c['t'] in ('lab', 'one'):
            ls = [VS[i]['labels'][s - 1] if space == 'label' else s - 1 for s in c['s']]
            return ls[0] if c['t'] == 'one' else set(ls)
        g = grids[i][space]
        b = lambda k: -math.inf if k == 0 else math.inf if k == len(g) + 1 else g[k - 1]
        cs = [ContinuousSet(b(z['lo']), b(z['hi']), z['l'], z['r']) for z in c['ivs']]
        return RealSet(cs) if len(cs) != 1 else cs[0]

    def look(m):
        if m is None:
            return {'space': '', 'm': []}
        space = {LabelAssignment: 'label', ValueAssignment: 'value'}.get(type(m), '?')
        return {'space': space, 'm': [{'v': names.index(v.name) + 1, 'o': un(names.index(v.name), x, space)} for v, x in m.items()]}
    evs = []

    def note(ev):
        ev['regs'] = [look(m) for m in reg]
        evs.append(ev)
    for c in hist['cmds']:
        o, t, a = c['op'], c.get('t', 1) - 1, c.get('a', 1) - 1
        if o in ('set', 'bad') and reg[t] is None or any(c.get(k) and reg[c[k] - 1] is None for k in ('a', 'b')):
            continue
        if o == 'new':
            cls = LabelAssignment if c['space'] == 'label' else ValueAssignment
            pairs = [(names[p['v'] - 1] if c['byname'] else variables[p['v'] - 1], mk(p['v'] - 1, p['c'], c['space'])) for p in c['pairs']]
            reg[t], e = attempt(lambda: cls(pairs, variables=variables))
            note({'op': 'new', 't': t + 1, 'space': c['space'], 'pairs': c['pairs'], 'exc': e})
        elif o == 'set':
            m, i = reg[t], c['v'] - 1

            def f():
                m[names[i] if c['byname'] and variables[i] in m.variables else variables[i]] = mk(i, c['c'], 'label' if type(m) is LabelAssignment else 'value')
            _, e = attempt(f)
            note({'op': 'set', 't': t + 1, 'v': c['v'], 'c': c['c'], 'exc': e})
        elif o == 'bad':
            m, i = reg[t], c['v'] - 1
            k = VS[i]['kind']
            lab = type(m) is LabelAssignment
            if k == 'int':
                continue
            what = ['text', {1., 2.}, [0., 1.], None] if k == 'num' else ['unknown', {VS[i]['labels'][0], 'unknown'}, 3.25] if lab else [99, {0, 99}, 'unknown']
            x = what[c['w'] % len(what)]

            def f():
                m[names[i] if c['byname'] and variables[i] in m.variables else variables[i]] = x
            _, e = attempt(f)
            note({'op': 'bad', 't': t + 1, 'v': c['v'], 'what': repr(x), 'exc': e})
        elif o == 'conv':
            A = reg[a]
            reg[t], e = attempt(lambda: A.value_assignment() if type(A) is LabelAssignment else A.label_assignment())
            note({'op': 'conv', 't': t + 1, 'a': a + 1, 'exc': e})
        elif o == 'sets':
            A = reg[a]
            reg[t], e = attempt(lambda: A.scalar2sets())
            note({'op': 'sets', 't': t + 1, 'a': a + 1, 'exc': e})
        elif o == 'copy':
            A = reg[a]
            reg[t], e = attempt(lambda: pickle.loads(pickle.dumps(A)) if c['how'] == 'pickle' else A.copy(deep=c['how'] == 'deep'))
            note({'op': 'copy', 't': t + 1, 'a': a + 1, 'exc': e})
        elif o == 'json':
            A = reg[a]
            reg[t], e = attempt(lambda: type(A).from_json(variables, json.loads(json.dumps(A.to_json()))))
            note({'op': 'json', 't': t + 1, 'a': a + 1, 'exc': e})
        elif o == 'pair':
            A, B = reg[c['a'] - 1], reg[c['b'] - 1]
            # the variables an assignment can refer to are not part of this comparison
            r, e = attempt(lambda: {'eq': bool(type(A)(list(A.items())) == type(B)(list(B.items()))),
                                    'hash': hash(type(A)(list(A.items()))) == hash(type(B)(list(B.items())))})
            note(dict(r or {'eq': False, 'hash': True}, op='pair', a=c['a'], b=c['b'], exc=e))
        elif o == 'dom':
            i = c['v'] - 1
            D = variables[i].domain
            x, x2 = mk(i, c['c'], 'label'), mk(i, c['c'], 'label')

            def f():
                y = D.label2value(x)
                return {'val': un(i, y, 'value'), 'lab': un(i, D.value2label(y), 'label'), 'args': un(i, x, 'label') == un(i, x2, 'label'),
                        'line': [q(float(D.label2value(z))) for z in (grids[i]['label'] if grids[i] else VS[i]['labels'])]}
            r, e = attempt(f)
            note(dict(r or {'val': {'k': '', 's': []}, 'lab': {'k': '', 's': []}, 'args': True, 'line': []}, op='dom', v=c['v'], c=c['c'], exc=e))
        else:
            raise ValueError(o)
    return {'id': hist['id'], 'k': hist['k'], 'V': [{'kind': v['kind'], 'n': v['n']} for v in VS], 'ev': evs}


def gen_assign(ctx):
    from checks.trees import SYM
    out = []
    for i in range(ctx.n(250, 5000)):
        rng = ctx.rng('assign%d' % i)
        V = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(('num', 'num', 'sym', 'int'))
            v = {'kind': k, 'n': rng.randint(2, 5), 'grid': [], 'm': '', 's': '', 'labels': []}
            if k == 'num':
                step, start = rng.choice(((1., 0.), (.5, -2.), (2., -7.), (.25, 3.)))
                v['grid'] = [q(start + step * j) for j in range(v['n'])]
                if rng.random() < .6:
                    v['m'], v['s'] = q(start + rng.choice((0., 1., -3.))), q(rng.choice((.5, 2., 4.)))
            elif k == 'sym':
                v['labels'] = rng.choice(SYM)[:v['n']]
            else:
                a = rng.choice((0, 1, -2, 7))
                v['labels'] = list(range(a, a + v['n']))
            V.append(v)
        nv, K = len(V), 3

        def con(j):
            v = V[j - 1]
            n = v['n']
            if v['kind'] != 'num':
                if rng.random() < .4:
                    return {'t': 'one', 's': [rng.randint(1, n)]}
                return {'t': 'lab', 's': sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))}
            if rng.random() < .3:
                return {'t': 'pt', 'k': rng.randint(1, n)}
            ivs = []
            for _ in range(rng.choice((1, 1, 1, 2, 3))):
                lo, hi = sorted((rng.randint(0, n + 1), rng.randint(0, n + 1)))
                if lo == hi and lo in (0, n + 1):
                    lo, hi = 0, n + 1
                ivs.append({'lo': lo, 'hi': hi, 'l': 2 if lo == 0 else rng.choice((1, 2)), 'r': 2 if hi == n + 1 else rng.choice((1, 2))})
            return {'t': 'ivs', 'ivs': ivs}

        def pairs():
            ps = [{'v': rng.randint(1, nv)} for _ in range(rng.randint(0, nv + 1))]
            for p in ps:
                p['c'] = con(p['v'])
            return ps
        cmds = [{'op': 'new', 't': 1, 'space': 'label', 'pairs': pairs(), 'byname': rng.random() < .5},
                {'op': 'new', 't': 2, 'space': rng.choice(('label', 'value')), 'pairs': pairs(), 'byname': rng.random() < .5}]
        for _ in range(14):
            o = rng.choice(('set', 'set', 'bad', 'conv', 'conv', 'sets', 'copy', 'json', 'pair', 'pair', 'dom', 'dom', 'dom', 'new'))
            v, t, a = rng.randint(1, nv), rng.randint(1, K), rng.randint(1, K)
            if o == 'new':
                cmds.append({'op': 'new', 't': t, 'space': rng.choice(('label', 'value')), 'pairs': pairs(), 'byname': rng.random() < .5})
            elif o == 'set':
                cmds.append({'op': 'set', 't': t, 'v': v, 'c': con(v), 'byname': rng.random() < .5})
            elif o == 'bad':
                cmds.append({'op': 'bad', 't': t, 'v': v, 'w': rng.randrange(12), 'byname': rng.random() < .4})
            elif o in ('conv', 'sets', 'json'):
                cmds.append({'op': o, 't': t, 'a': a})
            elif o == 'copy':
                cmds.append({'op': o, 't': t, 'a': a, 'how': rng.choice(('copy', 'deep', 'pickle'))})
            elif o == 'pair':
                cmds.append({'op': o, 'a': a, 'b': rng.randint(1, K)})
            else:
                cmds.append({'op': 'dom', 'v': v, 'c': con(v)})
        out.append({'id': 'as-%d' % i, 'k': K, 'V': V, 'cmds': cmds})
    return out


STAGES = {
    'assign': Stage('assign', gen_assign, execute_assign, 'AssignTrace', timeout=200,
                    note='seeded histories of assignments over numeric (also scaled), symbolic and integer variables, and domain conversions'),
    'maps': Stage('maps', gen, execute, 'VarMapTrace', timeout=200,
                  note='operation histories simulated from VarMapGen, replayed on maps keyed by variables, names and equal variables'),
}
