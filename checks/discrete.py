"""Conformance stages for symbolic, boolean and integer distributions (C07 and parts of C16, C17, C18, C19)."""
import hashlib
import json

from vlib.core import Stage
from vlib.proj import q, unq, attempt


# ---------------------------------------------------------------------------------------- execution on the real code
def execute(hist):
    import numpy as np
    from jpt.base.sampling import RouletteWheelSampler
    from jpt.distributions.univariate import Distribution
    from jpt.distributions.univariate.multinomial import Bool, SymbolicType
    from jpt.distributions.univariate.integer import IntegerType
    dom, labels, n = hist['dom'], hist['labels'], hist['n']
    if dom == 'bool':
        cls, other = Bool, SymbolicType('Bool', [False, True, 'maybe'])
    elif dom == 'int':
        cls, other = IntegerType('I', labels[0], labels[-1]), IntegerType('I', labels[0], labels[-1] + 1)
    else:
        cls, other = SymbolicType('S', labels), SymbolicType('S', labels + ['one more'])
    unknown = labels[-1] + 1 if dom == 'int' else 'no such label'
    reg = [None] * hist['k']

    def idx(lab):
        """1-based index of a label (0: not a label of the domain)"""
        for i, x in enumerate(labels):
            if type(x) is type(lab) and x == lab or not isinstance(x, (bool, str)) and not isinstance(lab, (bool, str)) and x == lab \
                    or isinstance(x, bool) and isinstance(lab, (bool, np.bool_)) and bool(lab) == x:
                return i + 1
        return 0

    def fp(d):
        if d is None or d._params is None:
            return ''
        return hashlib.sha1(json.dumps([q(float(x)) for x in d.probabilities]).encode()).hexdigest()[:12]

    evs = []

    def note(ev):
        ev['fps'] = [fp(d) for d in reg]
        evs.append(ev)

    def put(c, f, *args):
        d, e = attempt(f, *args)
        if not e and not isinstance(d, cls):
            if not (c['op'] == 'dup' and type(d).equiv(cls)):
                e = 'not-a-distribution'
        c = dict(c, exc=e, obs=[])
        if e:
            if c['op'] != 'crop':
                reg[c['t'] - 1] = None
            else:
                c['obs'] = []
        else:
            reg[c['t'] - 1] = d
            c['obs'] = [q(float(x)) for x in d.probabilities]
        note(c)

    def sel(s, form, space):
        xs = [labels[i - 1] if space == 'label' else i - 1 for i in s]
        if form == 'scalar' and len(xs) == 1:
            return xs[0]
        if form == 'twice' and xs:
            return xs + xs[:1]
        return {'set': set, 'tuple': tuple}.get(form, list)(xs)

    def table(m):
        rows = [i for i, k in enumerate(m) for _ in range(k)]
        return rows

    for c in hist['cmds']:
        o = c['op']
        if (c.get('a') and reg[c['a'] - 1] is None) or any(reg[x - 1] is None for x in c.get('src', [])) or \
                (c.get('b') and reg[c['b'] - 1] is None) or (o in ('update', 'assign') and reg[c['t'] - 1] is None):
            continue
        A = reg[c['a'] - 1] if c.get('a') else None
        if o == 'set':
            put(c, lambda: cls().set([x / sum(c['m']) for x in c['m']]))
        elif o == 'fit':
            sel_rows = table(c['m'])
            lay = c['layout']       # the selected rows within a larger table, other columns and rows being noise
            data, rows = [], []
            for j, v in enumerate(lay['order']):
                if v < 0:
                    data.append([(j * 7 + i) % n for i in range(lay['cols'])])
                else:
                    r = [(j * 5 + i) % n for i in range(lay['cols'])]
                    r[lay['col']] = sel_rows[v]
                    rows.append(len(data))
                    data.append(r)
            plain = all(v >= 0 for v in lay['order']) and lay['norows']
            if lay['shuffle']:
                rows = rows[::-1]
            if lay['public'] and dom == 'int':
                arr = np.array([[labels[v] for v in r] for r in data], dtype=np.float64)
                put({k: x for k, x in c.items() if k != 'layout'}, lambda: cls().fit(arr, None if plain else np.array(rows), lay['col']))
            else:
                arr = np.array(data, dtype=np.float64)
                put({k: x for k, x in c.items() if k != 'layout'},
                    lambda: cls()._fit(arr, None if plain else np.array(rows), lay['col']))
        elif o == 'impulse':
            if dom == 'int':
                put(c, lambda: A.crop(labels[c['k'] - 1])) if A.p(labels[c['k'] - 1]) > 0 else None
            else:
                put(c, lambda: A.create_dirac_impulse(c['k'] - 1))
        elif o == 'dup':
            if c['how'] == 'copy':
                put(dict(c, eq=True), A.copy)
            elif c['how'] == 'json':
                put(dict(c, eq=True), lambda: cls.from_json(json.loads(json.dumps(A.to_json()))))
                if reg[c['t'] - 1] is not None:
                    evs[-1]['eq'] = bool(reg[c['t'] - 1] == A and A == reg[c['t'] - 1])
            else:
                def back():
                    t = Distribution.from_json(json.loads(json.dumps(cls.type_to_json())))
                    d = t.from_json(json.loads(json.dumps(A.to_json())))
                    back.eq = bool(d == A and A == d and t.equiv(cls) and cls.equiv(t))
                    return cls().set([d.p(x) for x in labels])
                put(dict(c, eq=True), back)
                if reg[c['t'] - 1] is not None:
                    evs[-1]['eq'] = back.eq
        elif o == 'crop':
            arg = sel(c['s'], c['form'], c['sp'])
            put(c, A.crop if c['sp'] == 'label' else A._crop, arg)
        elif o == 'merge':
            put(c, lambda: cls.merge([reg[x - 1] for x in c['src']], [unq(w) for w in c['w']]))
        elif o == 'update':
            put(c, reg[c['t'] - 1].update, A, unq(c['w']))
        elif o == 'assign':
            def run():
                reg[c['t'] - 1][labels[c['k'] - 1]] = unq(c['p'])
                return reg[c['t'] - 1]
            put(c, run)
        elif o == 'ask':
            def one(x):
                st, lik = x
                return {'st': sorted(idx(v) for v in st), 'lik': q(float(lik))}

            def run():
                r = {'p': [], 'mom': [], 'mean': '0', 'var': '0', 'vmean': '0', 'vvar': '0', 'freq': []}
                for s, form in c['sets']:
                    r['p'].append({'s': s, 'p': q(float(A.p(sel(s, form, 'label')))), 'q': q(float(A._p(sel(s, form, 'value'))))})
                r['lab'] = [q(float(A.p(x))) for x in labels]
                r['pdf'] = [q(float(A.pdf(x))) for x in labels]
                r['round'] = [idx(cls.value2label(cls.label2value(x))) if cls.label2value(x) == i else -1 for i, x in enumerate(labels)]
                r['unknown'] = attempt(A.p, unknown)[1]
                it = {idx(lb): q(float(p)) for p, lb in A.items()}
                r['items'] = [it.get(i + 1, 'nan') for i in range(n)]
                r['sorted'] = [idx(lb) for p, lb in A.sorted()]
                r['mode'], r['all'], r['two'] = one(A.mpe()), [one(x) for x in A.k_mpe()], [one(x) for x in A.k_mpe(2)]
                if one(A.mode()) != r['mode'] or one(A.k_mpe(1)[0]) != r['mode']:
                    r['mode'] = {'st': [], 'lik': '0'}
                r['dirac'] = bool(A.is_dirac_impulse()) if dom != 'int' else any(p == 1 for p in A.probabilities)
                r['smp'] = [idx(x) for x in A.sample(25)] + [idx(A.sample_one())]
                w = RouletteWheelSampler(list(range(1, n + 1)), A.probabilities)
                cum = [float(x) for x in np.cumsum(A.probabilities)]
                xs = [0.] + cum + [x / 2 for x in cum] + [(x + y) / 2 for x, y in zip(cum, cum[1:])]
                r['wheel'] = [{'x': q(x), 'i': int(w[x])} for x in xs]
                if c.get('freq'):
                    f = [0] * n
                    for x in A.sample(hist['samples']):
                        f[idx(x) - 1] += 1
                    r['freq'] = f
                if dom == 'int':
                    for k, ce in c['moments']:
                        r['mom'].append({'k': k, 'c': ce, 'v': q(float(A.moment(k, unq(ce))))})
                    r['mean'], r['var'] = q(float(A.expectation())), q(float(A.variance()))
                    r['vmean'], r['vvar'] = q(float(A._expectation())), q(float(A._variance()))
                return r
            r, e = attempt(run)
            note({'op': 'ask', 'a': c['a'], 'exc': e, 'r': r or {}})
        elif o == 'pair':
            B = reg[c['b'] - 1]

            def run():
                bigger = other().set([float(x) for x in A.probabilities] + [0.])
                r = {'eq': bool(A == B), 'jac': q(float(cls.jaccard_similarity(A, B))), 'sum': [], 'sumlab': [],
                     'eqother': bool(cls.equiv(other)) or bool(other.equiv(cls))}
                if dom == 'int':
                    s = A + B
                    r['sum'] = [q(float(x)) for x in s.probabilities]
                    r['sumlab'] = [q(int(x)) for x in s.labels.values()]
                return r
            r, e = attempt(run)
            note(dict(r or {}, op='pair', a=c['a'], b=c['b'], exc=e))
        else:
            raise ValueError(o)
    return {'id': hist['id'], 'n': n, 'k': hist['k'], 'samples': hist['samples'],
            'lab': [q(x) for x in labels] if dom == 'int' else [], 'ev': evs}


# ------------------------------------------------------------------------------------------------------- generation
def gen(ctx):
    out = []
    for n in (2, 4, 6):
        for i, h in enumerate(ctx.behaviours('DiscGen', 'DiscGen%d' % n, simulate=ctx.n(150, 2500), depth=9)):
            rng = ctx.rng('disc%d-%d' % (n, i))
            dom = rng.choice(('sym', 'int') + (('bool', 'bool') if n == 2 else ()))
            if dom == 'int':
                a = rng.choice((0, 1, -3, 5, -n, 17))
                labels = list(range(a, a + n))
            elif dom == 'bool':
                labels = [False, True]
            else:
                labels = rng.choice((['d', 'b', 'e', 'a', 'f', 'c'], ['10', '9', '8', 'x', 'y', ''], [3, 1, 2, 0, 7, 5], [.5, 1.5, -1., 3., 8., 2.]))[:n]

            def ask(a, freq=False):
                sets = [[list(range(1, n + 1)), 'set'], [[], 'set']]
                for _ in range(4):
                    s = sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))
                    sets.append([s, rng.choice(('set', 'list', 'tuple', 'scalar', 'twice'))])
                return {'op': 'ask', 'a': a, 'sets': sets, 'freq': freq,
                        'moments': [[rng.choice((1, 2, 3, 4)), rng.choice(('0', '1/2', '-3'))] for _ in range(3)]}
            cmds = []
            for c in h['ops']:
                c = dict(c)
                if c['op'] == 'fit':
                    rows = sum(c['m'])
                    order = list(range(rows)) + [-1] * rng.choice((0, 0, 1, 4))
                    rng.shuffle(order)
                    cols = rng.choice((1, 2, 3))
                    c['layout'] = {'order': order, 'cols': cols, 'col': rng.randrange(cols), 'norows': rng.random() < .5,
                                   'shuffle': rng.random() < .5, 'public': rng.random() < .5}
                elif c['op'] == 'crop':
                    c['s'] = sorted(c['s'])
                    c['sp'] = rng.choice(('label', 'value'))
                    c['form'] = rng.choice(('set', 'list', 'tuple', 'scalar', 'twice'))
                cmds.append(c)
                cmds.append(ask(c['t']))
                if dom == 'bool' and rng.random() < .2:
                    cmds.append({'op': 'assign', 't': c['t'], 'k': rng.choice((1, 2)), 'p': rng.choice(('1/4', '0', '1', '3/8'))})
                    cmds.append(ask(c['t']))
            for r in range(1, h['k'] + 1):
                cmds.append(ask(r, freq=rng.random() < .2))
                cmds.append({'op': 'pair', 'a': r, 'b': rng.randint(1, h['k'])})
            out.append({'id': 'd%d-%d' % (n, i), 'dom': dom, 'labels': labels, 'n': n, 'k': h['k'], 'samples': 1000, 'cmds': cmds})
    return out


STAGES = {
    'discrete': Stage('discrete', gen, execute, 'DiscTrace', timeout=240,
                      note='operation histories simulated from DiscGen, replayed on symbolic, boolean and integer distributions, '
                           'with every query asked after every operation'),
}
