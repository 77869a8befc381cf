"""Conformance stages for numeric distributions (C04, C05, C06, C17, C19, C24 and parts of C14, C15, C16, C18)."""
import hashlib
import json

from vlib.core import Stage
from vlib.proj import q, unq, attempt


# ---------------------------------------------------------------------------------------- execution on the real code
def execute(hist):
    import math
    import pickle
    import numpy as np
    from jpt.base.constants import eps as EPS  # noqa
    from jpt.base.intervals import ContinuousSet, RealSet
    from jpt.base.functions import PiecewiseFunction, LinearFunction, ConstantFunction, Undefined
    from jpt.distributions.univariate.numeric import Numeric, NumericType
    from jpt.distributions.quantile.quantiles import QuantileDistribution
    n, grid = hist['n'], [unq(g) for g in hist['grid']]
    if hist['affine']:
        m, s = (unq(x) for x in hist['affine'])
        cls = NumericType('Scaled', [m - s, m + s])
        val, lab = (lambda x: (x - m) / s), (lambda v: v * s + m)
    else:
        m, s, cls = 0., 1., Numeric
        val = lab = lambda x: x
    reg = [None] * hist['k']

    def bound(i):
        return -math.inf if i == 0 else math.inf if i == n + 1 else grid[i - 1]

    def cs(iv):
        return ContinuousSet(bound(iv['lo']), bound(iv['hi']), iv['l'], iv['r'])

    def numset(ivs, style=0):
        return cs(ivs[0]) if len(ivs) == 1 and not style else RealSet([cs(iv) for iv in ivs])

    def obs(d):
        c = d.cdf
        v = [val(g) for g in grid]
        return {'F': [q(c.eval(x)) for x in v], 'L': [q(c.eval(float(np.nextafter(x, -np.inf)))) for x in v],
                'M': [q(c.eval((a + b) / 2)) for a, b in zip(v, v[1:])],
                'Q': [q(c.eval(a + (b - a) / 4)) for a, b in zip(v, v[1:])],
                'lo': q(c.eval(v[0] - 3)), 'hi': q(c.eval(v[-1] + 3))}

    def fp(d):
        if d is None or d._quantile is None:
            return ''
        o, e = attempt(obs, d)
        return hashlib.sha1(json.dumps([o, e]).encode()).hexdigest()[:12]

    def cell(x):
        for k, g in enumerate(grid):
            if x == g:
                return 2 * k + 1
            if x < g:
                return 2 * k
        return 2 * n

    def cells(st):
        out = []
        for c in range(2 * n + 1):
            if c % 2:
                ps = [grid[c // 2]]
            elif c == 0:
                ps = [grid[0] - 1]
            elif c == 2 * n:
                ps = [grid[-1] + 1]
            else:
                a, b = grid[c // 2 - 1], grid[c // 2]
                ps = [a + (b - a) * f for f in (.01, .25, .5, .99)]
            v = {bool(st.contains_value(p)) for p in ps}
            if len(v) > 1:
                out.append(-1)
            elif v.pop():
                out.append(c)
        return out

    def literal(mm, how):
        tot = sum(mm)
        w = [x / tot for x in mm]           # cells 1..2n-1
        pf = PiecewiseFunction()
        v = [val(g) for g in grid]
        if how == 'pdf':
            from jpt.base.intervals import EXC, INC
            pf.append(ContinuousSet(-np.inf, v[0], EXC, EXC), ConstantFunction(0.))
            for k in range(n - 1):
                pf.append(ContinuousSet(v[k], v[k + 1], INC, EXC), ConstantFunction(w[2 * k + 1] / (v[k + 1] - v[k])))
            pf.append(ContinuousSet(v[-1], np.inf, INC, EXC), ConstantFunction(0.))
            return cls().set(QuantileDistribution.from_pdf(pf))
        pf.append(ContinuousSet(-np.inf, v[0], 2, 2), ConstantFunction(0.))
        acc = 0.
        for k in range(n):
            acc += w[2 * k]
            if k == n - 1:
                pf.append(ContinuousSet(v[k], np.inf, 1, 2), ConstantFunction(1.))
            elif w[2 * k + 1] == 0:
                pf.append(ContinuousSet(v[k], v[k + 1], 1, 2), ConstantFunction(acc))
            else:
                nxt = acc + w[2 * k + 1]
                pf.append(ContinuousSet(v[k], v[k + 1], 1, 2), LinearFunction.from_points((v[k], acc), (v[k + 1], nxt)))
                acc = nxt
        # neighbouring pieces with the same function are one piece
        i = 0
        while i < len(pf.functions) - 1:
            if pf.functions[i] == pf.functions[i + 1] and type(pf.functions[i]) is type(pf.functions[i + 1]):
                pf.intervals[i].upper = pf.intervals[i + 1].upper
                del pf.intervals[i + 1]
                del pf.functions[i + 1]
            else:
                i += 1
        return cls().set(QuantileDistribution.from_cdf(pf))

    evs = []

    def note(ev):
        ev['fps'] = [fp(d) for d in reg]
        if mass:
            ev['mass'] = mass[0]
        evs.append(ev)

    def put(c, f, *args):
        d, e = attempt(f, *args)
        ev = dict(c, exc=e)
        if not e and not isinstance(d, Numeric):
            ev['exc'] = 'not-a-distribution'
        if not ev['exc']:
            ev['obs'], oe = attempt(obs, d)
            if oe:
                ev['exc'] = 'cdf-' + oe
        if ev['exc']:
            ev['obs'] = {}
            if ev['op'] != 'crop':
                reg[c['t'] - 1] = None
        else:
            reg[c['t'] - 1] = d
        note(ev)

    for c in hist['cmds']:
        o = c['op']
        A = reg[c['a'] - 1] if c.get('a') else None
        if (c.get('a') and A is None) or any(reg[x - 1] is None for x in c.get('src', [])) or \
                (c.get('b') and reg[c['b'] - 1] is None) or (o in ('update', 'convex') and reg[c['t'] - 1] is None):
            continue
        mass = []
        if hist.get('twin'):                # the probability of what is restricted to
            p, e = attempt(lambda: A.p(numset(c['ivs']))) if o == 'crop' else (0, '') if o == 'croppoint' else (1, '')
            mass = [q(float(p)) if not e else '0']
        if o == 'literal':
            put(c, literal, c['m'], c.get('how', 'cdf'))
        elif o == 'impulse':
            put(c, lambda: cls().create_dirac_impulse(val(grid[c['k'] - 1])))
        elif o == 'fit':
            data = np.array([[val(grid[k - 1]) for k in row] for row in c['data']], dtype=np.float64, order='C')
            rows = None if c['rows'] is None else np.array(c['rows'], dtype=np.int64)
            d = cls(precision=unq(c['eps']))
            fit = d.fit if c.get('how') == 'fit' else d._fit
            kw = {}
            if rows is not None:
                kw['rows'] = rows
            if c['col'] is not None:
                kw['col'] = c['col']
            sel = range(len(c['data'])) if c['rows'] is None else c['rows']
            cnt = [0] * n
            for r in sel:
                cnt[c['data'][r][c['col'] or 0] - 1] += 1
            ev = {k: x for k, x in c.items() if k not in ('data', 'rows', 'col')}
            ev['cnt'] = cnt
            ev['knots'] = []

            def run():
                fit(data, **kw)
                for i in d.cdf.intervals[1:]:
                    x = lab(i.lower)
                    k = min(range(n), key=lambda j: abs(grid[j] - x))
                    ev['knots'].append(k + 1 if abs(grid[k] - x) <= 1e-9 * max(1, abs(x)) else 0)
                return d
            put(ev, run)
        elif o == 'dup':
            if c['how'] == 'copy':
                put(c, A.copy)
            elif c['how'] == 'pickle' and cls is Numeric:
                put(c, lambda: pickle.loads(pickle.dumps(A)))
            else:
                put(c, lambda: type(A).from_json(json.loads(json.dumps(A.to_json()))))
        elif o == 'crop':
            S = numset(c['ivs'], c.get('style', 0))
            put(c, A.crop, S) if c.get('sp', 'label') == 'label' else put(c, A._crop, cls.label2value(S))
        elif o == 'croppoint':
            x = grid[c['k'] - 1]
            arg = {'number': x, 'closed': ContinuousSet(x, x)}[c.get('form', 'number')]
            put(c, A.crop, arg) if c.get('sp', 'label') == 'label' else put(c, A._crop, cls.label2value(arg))
        elif o == 'merge':
            put(c, lambda: cls.merge([reg[x - 1] for x in c['src']], [unq(w) for w in c['w']]))
        elif o == 'update':
            put(c, reg[c['t'] - 1].update, A, unq(c['w']))
        elif o == 'convex':
            iv = [ContinuousSet(val(grid[i - 1]), val(grid[j - 1])) if i else None for i, j in (c['left'], c['right'])]

            def run():
                reg[c['t'] - 1].insert_convex_fragments(iv[0], iv[1], c['samples'])
                return reg[c['t'] - 1]
            put(c, run)
        elif o == 'ask':
            def run():
                r = {'p': [], 'pt': [], 'dens': [], 'ppf': [], 'mom': [], 'freq': []}
                for ivs in c['sets']:
                    S = numset(ivs, c.get('style', 0))
                    r['p'].append({'ivs': ivs, 'p': q(A.p(S)), 'q': q(A._p(cls.label2value(S)))})
                r['pt'] = [q(A.p(g)) for g in grid]
                v = [val(g) for g in grid]
                mids = [v[0] - 2] + [(a + b) / 2 for a, b in zip(v, v[1:])] + [v[-1] + 2]
                r['dens'] = [q(A.pdf.eval(x)) for x in mids]
                for g in c['levels']:
                    r['ppf'].append({'g': g, 'x': q(lab(A.ppf.eval(unq(g)))), 'y': q(lab(A.quantile(unq(g))))})
                for k, ce in c['moments']:
                    r['mom'].append({'k': k, 'c': ce, 'v': q(A.moment(k, unq(ce)))})
                r['mean'], r['var'] = q(A.expectation()), q(A.variance())
                r['smp'] = [cell(float(x)) for x in A.sample(25)] + [cell(float(A.sample_one()))]
                if c.get('freq'):
                    f = [0] * (2 * n + 1)
                    for x in A.sample(hist['samples']):
                        f[cell(float(x))] += 1
                    r['freq'] = f
                return r
            r, e = attempt(run)
            note({'op': 'ask', 'a': c['a'], 'exc': e, 'r': r or {}})
        elif o == 'mpe':
            def one(x):
                st, lik = x
                return {'st': cells(st), 'lik': q(lik)}

            def run():
                return {'mode': one(A.mpe()), 'all': [one(x) for x in A.k_mpe()], 'two': [one(x) for x in A.k_mpe(2)]}
            r, e = attempt(run)
            v = [val(g) for g in grid]
            dens, _ = attempt(lambda: [q(A.pdf.eval((a + b) / 2)) for a, b in zip(v, v[1:])])
            note(dict(r or {}, op='mpe', a=c['a'], exc=e, dens=dens or ['nan'] * (n - 1)))
        elif o == 'pair':
            B = reg[c['b'] - 1]

            def run():
                return {'eq': bool(A == B), 'jac': q(cls.jaccard_similarity(A, B)) if c.get('jac', True) else '0'}
            r, e = attempt(run)
            note(dict(r or {}, op='pair', a=c['a'], b=c['b'], exc=e, same=bool(c.get('same'))))
        else:
            raise ValueError(o)
    return {'id': hist['id'], 'n': n, 'k': hist['k'], 'grid': hist['grid'], 'samples': hist['samples'],
            'scale': q(1 / s), 'ev': evs}


# ------------------------------------------------------------------------------------------------------- generation
def rand_grid(rng, n):
    k = rng.randrange(4)
    if k == 0:
        xs = sorted(rng.sample(range(-20, 21), n))
    elif k == 1:
        xs = sorted(rng.sample(range(0, 4 * n), n))
        xs = [x / 4 for x in xs]
    elif k == 2:
        a = rng.choice((-4096, 1000, 0, -1))
        xs = sorted(rng.sample(range(0, 3 * n), n))
        xs = [a + x / 8 for x in xs]
    else:
        xs = sorted(rng.sample([-1000, -100, -10, -3, -1, -.5, 0, .125, .5, 1, 2, 5, 64, 300, 1024], n)) if n <= 15 else \
            sorted(rng.sample(range(-50, 50), n))
    return [q(float(x)) for x in xs]


def rand_iv(rng, n):
    lo = rng.randint(0, n)
    hi = rng.randint(max(lo, 1), n + 1)
    return {'lo': lo, 'hi': hi, 'l': 2 if lo == 0 else rng.choice((1, 2)), 'r': 2 if hi == n + 1 else rng.choice((1, 2))}


def ask(rng, n, grid, a, freq=False):
    sets = [[{'lo': 0, 'hi': n + 1, 'l': 2, 'r': 2}]]
    for _ in range(6):
        sets.append([rand_iv(rng, n) for _ in range(rng.choice((1, 1, 2, 3)))])
    return {'op': 'ask', 'a': a, 'sets': sets, 'style': rng.randrange(2),
            'levels': [rng.choice(('1', '1/2', '1/4', '3/4', '1/8', '7/8', '1/1024', '1023/1024', '1/3', '2/3', '5/8'))
                       for _ in range(4)] + ['1'],
            'moments': [[rng.choice((0, 1, 2, 3, 4)), rng.choice((grid[0], grid[-1], '0', '1/2', '-3'))] for _ in range(3)],
            'freq': freq}


def affine(rng):
    return rng.choice((None, None, None, [q(float(rng.choice((0, 3, -7, .5)))), q(rng.choice((.5, 2., 4., .25, 1.)))]))


def gen_machine(ctx):
    """Histories of the machine, generated by simulation of MassGen."""
    out = []
    for i, h in enumerate(ctx.behaviours('MassGen', simulate=ctx.n(500, 8000), depth=9)):
        rng = ctx.rng('mass%d' % i)
        n = h['n']
        grid = rand_grid(rng, n)
        cmds = []
        for c in h['ops']:
            c = dict(c)
            c.pop('ok', None)
            if c['op'] == 'literal':
                c['how'] = 'pdf' if all(x == 0 for x in c['m'][::2]) and rng.random() < .4 else 'cdf'
            elif c['op'] == 'crop':
                c['sp'] = rng.choice(('label', 'value'))
                c['style'] = rng.randrange(2)
            elif c['op'] == 'croppoint':
                c['sp'] = rng.choice(('label', 'value'))
                c['form'] = rng.choice(('number', 'closed'))
            cmds.append(c)
            t = c['t']
            cmds.append(ask(rng, n, grid, t))
        for r in range(1, h['k'] + 1):
            cmds.append(ask(rng, n, grid, r, freq=rng.random() < .2))
            cmds.append({'op': 'mpe', 'a': r})
            cmds.append({'op': 'pair', 'a': r, 'b': rng.randint(1, h['k'])})
        out.append({'id': 'm%d' % i, 'n': n, 'k': h['k'], 'grid': grid, 'affine': affine(rng), 'samples': 1000, 'cmds': cmds})
    return out


def gen_fit(ctx):
    out = []
    for i in range(ctx.n(260, 4000)):
        rng = ctx.rng('fit%d' % i)
        n = rng.choice((2, 3, 5, 8, 14, 20))
        grid = rand_grid(rng, n)
        eps = rng.choice(('1/100', '1/20', '1/10', '1/5', '1/1000'))
        nrows = rng.choice((n, n + 3, 2 * n, 40))
        shape = rng.randrange(4)

        def point():
            if shape == 0:
                return rng.randint(1, n)
            if shape == 1:
                return 1 + min(int(rng.expovariate(3 / n)), n - 1)
            if shape == 2:
                return rng.choice((1, n, rng.randint(1, n)))
            return 1 + min(int(abs(rng.gauss(n / 2, n / 6))), n - 1)
        ncol = rng.choice((1, 2, 3))
        data = [[point() for _ in range(ncol)] for _ in range(nrows)]
        rows = rng.choice((None, sorted(rng.sample(range(nrows), rng.randint(1, nrows))),
                           rng.sample(range(nrows), rng.randint(1, nrows))))
        col = rng.choice((None, rng.randrange(ncol)))
        cmds = [{'op': 'fit', 't': 1, 'data': data, 'rows': rows, 'col': col, 'eps': eps, 'how': rng.choice(('fit', '_fit'))}]
        rows2 = list(range(nrows)) if rows is None else list(rows)
        rng.shuffle(rows2)
        cmds.append({'op': 'fit', 't': 2, 'data': data, 'rows': rows2, 'col': col, 'eps': eps, 'how': 'fit'})
        cmds.append({'op': 'pair', 'a': 1, 'b': 2, 'same': True})
        cmds.append({'op': 'fit', 't': 2, 'data': data, 'rows': rows, 'col': rng.randrange(ncol), 'eps': eps, 'how': 'fit'})
        cmds.append(ask(rng, n, grid, 1, freq=rng.random() < .2))
        cmds.append({'op': 'mpe', 'a': 1})
        if n <= 8:
            for _ in range(4):
                k = rng.randrange(5)
                t = rng.choice((3, 3, 4))
                a = rng.choice((1, 2, t))
                if k < 2:
                    cmds.append({'op': 'crop', 't': t, 'a': a, 'ivs': [rand_iv(rng, n) for _ in range(rng.choice((1, 1, 2, 3)))],
                                 'sp': rng.choice(('label', 'value')), 'style': rng.randrange(2)})
                elif k == 2:
                    cmds.append({'op': 'merge', 't': t, 'src': [1, 2, a][:rng.choice((2, 3))], 'w': None})
                    cmds[-1]['w'] = {2: ['1/4', '3/4'], 3: ['1/8', '5/8', '1/4']}[len(cmds[-1]['src'])]
                elif k == 3:
                    cmds.append({'op': 'update', 't': t, 'a': a, 'w': rng.choice(('1/2', '1/8', '0', '1'))})
                else:
                    cmds.append({'op': 'dup', 't': t, 'a': a, 'how': rng.choice(('copy', 'json', 'pickle'))})
                cmds.append(ask(rng, n, grid, t))
                cmds.append({'op': 'mpe', 'a': t})
                cmds.append({'op': 'pair', 'a': rng.randint(1, 4), 'b': t})
        out.append({'id': 'f%d' % i, 'n': n, 'k': 4, 'grid': grid, 'affine': affine(rng), 'samples': 1000, 'cmds': cmds})
    return out


STAGES = {
    'machine': Stage('machine', gen_machine, execute, 'MassTrace', timeout=240,
                     note='operation histories simulated from MassGen, replayed on Numeric distributions built from '
                          'literal CDFs/PDFs, with every view asked after every operation'),
    'fit': Stage('fit', gen_fit, execute, 'MassTrace', timeout=240,
                 note='distributions fitted to random tables (row subsets, columns, precisions), then cropped, merged, updated'),
}
