"""Conformance stage for piecewise and elementary functions (C03)."""
import math

from vlib.core import Stage
from vlib.proj import q, unq, attempt


def samples(G):
    """The points at which functions are observed: Samples(G, i) of module Func."""
    out, n = [], len(G)
    for i in range(1, 2 * n + 2):
        if i % 2 == 0:
            out.append([G[i // 2 - 1]])
        elif i == 1:
            out.append([G[0] - 3, G[0] - 2, G[0] - 1])
        elif i == 2 * n + 1:
            out.append([G[-1] + 1, G[-1] + 2, G[-1] + 3])
        else:
            lo, hi = G[i // 2 - 1], G[i // 2]
            out.append([lo + k / 4 * (hi - lo) for k in (1, 2, 3)])
    return out


def execute(hist):
    import json
    import random
    from jpt.base.functions import PiecewiseFunction as P, LinearFunction, ConstantFunction, QuadraticFunction, Undefined
    from jpt.base.intervals import ContinuousSet, EXC, INC
    G = [unq(x) for x in hist['grid']]
    n, xs = len(G), samples(G)
    step = unq(hist['step'])
    reg = [None] * (hist['k'] + 1)
    evs = []

    def iv(d):
        b = [-math.inf] + G + [math.inf]
        return ContinuousSet(b[d['lo']], b[d['hi']], d['l'], d['r'])

    def el(f):
        if not f:
            return Undefined()
        a, b, c = (unq(x) for x in f)
        if a:
            return QuadraticFunction(a, b, c)
        return LinearFunction(b, c) if b else ConstantFunction(c)

    def value(f, x):
        try:
            return q(float(f.eval(float(x))))
        except AttributeError:
            return 'nan'

    def obs(f):
        return [[value(f, x) for x in s] for s in xs]

    def ongrid(f):
        return isinstance(f, P) and all(b in G or math.isinf(b) for i in f.intervals for b in (i.lower, i.upper))

    def dyadic(f):
        """no coefficient shows signs of rounding"""
        return all((getattr(g, a) * 64).is_integer() for g in f.functions for a in ('a', 'b', 'c', 'm', 'value') if hasattr(g, a))

    def flat(f):
        """the functions for which a convolution is documented: defined everywhere, piecewise constant, with a support"""
        return ongrid(f) and any(unq(v) != 0 for s in obs(f) for v in s) and value(f, G[0] - 1) == value(f, G[-1] + 1) == '0' and isinstance(f, P) and all(isinstance(g, ConstantFunction) for g in f.functions) and all(v != 'nan' for s in obs(f) for v in s)

    def fp(f):
        if f is None:
            return ''
        if isinstance(f, P):
            return repr([(i.lower, i.upper, i.left, i.right, fp(g)) for i, g in zip(f.intervals, f.functions)]) + str(len(f.functions))
        return type(f).__name__ + repr([getattr(f, a) for a in ('a', 'b', 'c', 'm', 'value') if hasattr(f, a)])

    def note(e):
        e['fps'] = [fp(f) for f in reg[1:]]
        evs.append(e)

    def put(c, f, keys, t='t', **more):
        r, e = attempt(f)
        if not e and r is None:
            e = 'None'
        ev = {k: c[k] for k in keys}
        ev.update(op=c['op'], t=c[t], exc=e, obs=[], **more)
        if not e:
            reg[c[t]] = r
            ev['obs'] = obs(r)
        note(ev)
        return r, ev
    for c in hist['cmds']:
        o = c['op']
        A = reg[c['a']] if 'a' in c else None
        B = reg[c['b']] if 'b' in c else None
        if ('a' in c and A is None) or ('b' in c and B is None):
            continue
        if o == 'new':
            if c['kind'] == 'el':
                put(c, lambda: el(c['f']), ('kind', 'f'))
            elif c['kind'] == 'points':
                put(c, lambda: P.from_points([(G[p['x'] - 1], unq(p['y'])) for p in c['pts']]), ('kind', 'pts'))
            else:
                def f():
                    ps = list(c['pieces'])
                    random.Random(c['form']).shuffle(ps)
                    d = {}
                    for j, p in enumerate(ps):
                        g = el(p['f'])
                        if isinstance(g, ConstantFunction) and (c['form'] + j) % 3 == 0:
                            g = g.value
                        elif isinstance(g, Undefined) and c['form'] % 2:
                            g = None
                        d[iv(p['iv'])] = g
                    return P.from_dict(d)
                put(c, f, ('kind', 'pieces'))
        elif o == 'bin':
            def f():
                if c['inplace'] and c['a'] == c['t'] and isinstance(A, P):
                    x = A.copy()
                    if c['o'] == '+':
                        x += B
                    elif c['o'] == '*':
                        x *= B
                    else:
                        x = x - B
                    return x
                return A + B if c['o'] == '+' else A * B if c['o'] == '*' else A - B
            put(c, f, ('a', 'b', 'o'))
        elif o == 'minmax':
            put(c, lambda: (P.min if c['o'] == 'min' else P.max)(A, B), ('a', 'b', 'o'))
        elif o == 'num':
            v = unq(c['v'])
            v = int(v) if v == int(v) and c['int'] else v

            def f():
                k = c['o']
                if k == 'stretch':
                    return A.stretch(v) if isinstance(A, P) else A * v
                return A + v if k == '+' else v + A if k == 'r+' else A * v if k == '*' else v * A if k == 'r*' else A - v if k == '-' else v - A if k == 'r-' else A / v
            put(c, f, ('a', 'o', 'v'))
        elif o == 'un':
            def f():
                k = c['o']
                if k == 'copy':
                    return A.copy()
                if k == 'simplify':
                    return A.simplify()
                if k == 'json':
                    d = json.loads(json.dumps(A.to_json()))
                    if isinstance(A, P):
                        return P.from_json(d)
                    return QuadraticFunction.from_json(d) if isinstance(A, QuadraticFunction) else LinearFunction.from_json(d)
                if k == 'diff':
                    return A.differentiate()
                if k == 'dropundef':
                    return A.drop_undef()
                if k == 'rectify':
                    return A.simplify().rectify()
                return P.abs(A)
            r, ev = put(c, f, ('a', 'o'), eq=True)
            if not ev['exc'] and c['o'] in ('copy', 'json'):
                ev['eq'] = attempt(lambda: A == r and r == A and hash(A) == hash(r))[0] is True
        elif o == 'shift':
            put(c, lambda: A.xshift(c['n'] * step), ('a', 'n'))
        elif o == 'mirror':
            put(c, lambda: A.xmirror(), ('a',))
        elif o == 'over':
            def f():
                i = iv(c['iv'])
                g = el(c['f'])
                if c['form'] == 0 and c['f']:
                    return A.overwrite({i: g})
                return A.overwrite_at(i, g)
            put(c, f, ('a', 'iv', 'f'))
        elif o == 'crop':
            put(c, lambda: A.crop(iv(c['iv'])), ('a', 'iv'))
        elif o == 'split':
            r, e = attempt(lambda: A.split(G[c['x'] - 1]))
            ev = {'op': o, 'a': c['a'], 'x': c['x'], 't': c['t'], 't2': c['t2'], 'exc': e, 'obs': [], 'obs2': []}
            if not e:
                reg[c['t']], reg[c['t2']] = r
                ev.update(obs=obs(r[0]), obs2=obs(r[1]))
            note(ev)
        elif o == 'integrate':
            def f():
                i = iv(c['iv'])
                if isinstance(A, P):
                    return q(float(A.integrate() if i == ContinuousSet(-math.inf, math.inf, EXC, EXC) and c['form'] else A.integrate(i)))
                return q(float(A.integrate(i.lower, i.upper)))
            r, e = attempt(f)
            note({'op': o, 'a': c['a'], 'iv': c['iv'], 'exc': e, 'res': r or ''})
        elif o == 'jaccard':
            r, e = attempt(lambda: q(float(P.jaccard_similarity(A, B, iv(c['iv'])))))
            note({'op': o, 'a': c['a'], 'b': c['b'], 'iv': c['iv'], 'exc': e, 'res': r or ''})
        elif o in ('maximize', 'domain'):
            def f():
                s, m = A.maximize() if o == 'maximize' else (A.domain(), 0)
                return [[bool(x in s) for x in r] for r in xs], q(float(m))
            r, e = attempt(f)
            note({'op': o, 'a': c['a'], 'exc': e, 'in': r[0] if r else [], 'res': r[1] if r else '', 'exact': isinstance(A, P) and ongrid(A) and dyadic(A)})
        elif o == 'eq':
            r, e = attempt(lambda: (bool(A == B), hash(A) == hash(B)))
            note({'op': o, 'a': c['a'], 'b': c['b'], 'exc': e, 'res': bool(r and r[0]), 'hash': bool(r and r[1])})
        elif o == 'convolve':
            if not flat(A) or not flat(B):
                continue
            zs = [q(z * step / 2) for z in range(-4 * n, 4 * n + 1, c['every'])]

            def f():
                g = A.convolution(B)
                return [value(g, unq(z)) for z in zs]
            r, e = attempt(f)
            note({'op': o, 'a': c['a'], 'b': c['b'], 'exc': e, 'zs': zs, 'vals': r or []})
        else:
            raise ValueError(o)
    return {'id': hist['id'], 'grid': hist['grid'], 'step': hist['step'], 'k': hist['k'], 'ev': evs}


def gen(ctx):
    out = []
    for h in range(ctx.n(500, 12000)):
        rng = ctx.rng('func%d' % h)
        m = rng.choice((1, 2, 3, 3, 4))
        n = 2 * m + 1
        step = rng.choice((1., .5, 2., .25))
        K = 5
        degree = rng.choice((0, 0, 1, 1, 1, 2))
        style = rng.choice(('half-open', 'half-open', 'any'))
        densities = degree == 0 and rng.random() < .4
        full = densities or rng.random() < .5
        vals = ('0', '1', '-1', '2', '1/2', '-3', '3/4', '5')

        def poly():
            if densities:
                return ['0', '0', rng.choice(('0', '1', '2', '1/2', '1/4'))]
            d = rng.choice((0, degree, degree))
            a = rng.choice(vals[1:]) if d == 2 else '0'
            b = rng.choice(vals[1:]) if d >= 1 else '0'
            return [a, b, rng.choice(vals)]

        def piece():
            return [] if not densities and rng.random() < .06 else poly()

        def interval(inner=False):
            lo, hi = (1, n) if inner else (0, n + 1)
            a = rng.randint(lo, hi - 1)
            b = rng.randint(a + 1, hi)
            if style == 'half-open':
                return {'lo': a, 'hi': b, 'l': 2 if a == 0 else 1, 'r': 2}
            if rng.random() < .1 and 1 <= a:
                return {'lo': a, 'hi': a, 'l': 1, 'r': 1}
            return {'lo': a, 'hi': b, 'l': 2 if a == 0 else rng.choice((1, 2)), 'r': 2 if b == n + 1 else rng.choice((1, 2))}

        def pieces():
            """a partition of (a part of) the line into intervals that begin and end on the grid"""
            lo = 0 if full or rng.random() < .5 else rng.randint(1, n)
            hi = n + 1 if full or rng.random() < .5 else rng.randint(max(1, lo), n)
            cuts = sorted(rng.sample(range(lo + 1, hi), rng.randint(0, min(5, max(0, hi - lo - 1))))) if hi - lo > 1 else []
            ends = [lo] + cuts + [hi]
            res, left = [], 2 if lo == 0 else 1 if style == 'half-open' else rng.choice((1, 2))
            for a, b in zip(ends, ends[1:]):
                right = 2 if b == n + 1 or style == 'half-open' else rng.choice((1, 2))
                p = {'iv': {'lo': a, 'hi': b, 'l': left, 'r': right}, 'f': piece()}
                if densities and (a == 0 or b == n + 1):
                    p['f'] = ['0', '0', '0']
                if a < b and (full or rng.random() < .85 or not res):
                    res.append(p)
                left = 3 - right
                if style == 'any' and left == 2 and b <= n and rng.random() < .5 and not densities:
                    pass                     # the point itself belongs to the piece on its left
                if style == 'any' and right == 2 and b <= n and rng.random() < .2 and not densities:
                    res.append({'iv': {'lo': b, 'hi': b, 'l': 1, 'r': 1}, 'f': piece()})
                    left = 2
            return res or [{'iv': {'lo': 0, 'hi': n + 1, 'l': 2, 'r': 2}, 'f': poly()}]

        def new(t):
            u = rng.random()
            if u < .2 and not densities:
                return {'op': 'new', 't': t, 'kind': 'el', 'f': poly() if rng.random() < .95 else [], 'form': rng.randrange(2)}
            if u < .35 and degree and not densities:
                ks = sorted(rng.sample(range(1, n + 1), rng.randint(2, n)))
                return {'op': 'new', 't': t, 'kind': 'points', 'pts': [{'x': k, 'y': rng.choice(vals)} for k in ks]}
            return {'op': 'new', 't': t, 'kind': 'dict', 'pieces': pieces(), 'form': rng.randrange(12)}

        def r():
            return rng.randint(1, K)

        def cmd():
            u = rng.randrange(24)
            if u < 5:
                a, t = r(), r()
                return {'op': 'bin', 'o': rng.choice('++-*'), 'a': a, 'b': r(), 't': a if rng.random() < .2 else t, 'inplace': rng.random() < .5}
            if u < 7:
                return {'op': 'minmax', 'o': rng.choice(('min', 'max')), 'a': r(), 'b': r(), 't': r()}
            if u < 9:
                o = rng.choice(('+', 'r+', '*', 'r*', '-', 'r-', '/', 'stretch'))
                return {'op': 'num', 'o': o, 'a': r(), 't': r(), 'v': rng.choice(('2', '1/2', '-1', '4', '-1/4') if o in ('/', 'stretch') else vals), 'int': rng.random() < .5}
            if u < 12:
                return {'op': 'un', 'o': rng.choice(('copy', 'simplify', 'simplify', 'json', 'json', 'diff', 'dropundef', 'rectify', 'abs', 'abs')), 'a': r(), 't': r()}
            if u == 12:
                return {'op': 'shift', 'a': r(), 't': r(), 'n': rng.choice((-2, -1, 1, 2))} if style == 'half-open' else {'op': 'un', 'o': 'simplify', 'a': r(), 't': r()}
            if u == 13:
                return {'op': 'mirror', 'a': r(), 't': r()}
            if u < 16:
                return {'op': 'over', 'a': r(), 't': r(), 'iv': interval(), 'f': piece(), 'form': rng.randrange(3)}
            if u == 16:
                return {'op': 'crop', 'a': r(), 't': r(), 'iv': interval()}
            if u == 17:
                t = rng.sample(range(1, K + 1), 2)
                return {'op': 'split', 'a': r(), 't': t[0], 't2': t[1], 'x': rng.randint(1, n)}
            if u == 18:
                iv = interval() if rng.random() < .8 else {'lo': 0, 'hi': n + 1, 'l': 2, 'r': 2}
                return {'op': 'integrate', 'a': r(), 'iv': iv, 'form': rng.randrange(2)}
            if u == 19:
                return {'op': 'maximize', 'a': r()}
            if u == 20:
                return {'op': 'domain', 'a': r()}
            if u == 21:
                return {'op': 'eq', 'a': r(), 'b': r()}
            if u == 22:
                return {'op': 'jaccard', 'a': r(), 'b': r(), 'iv': interval(True)}
            return {'op': 'convolve', 'a': r(), 'b': r(), 'every': rng.choice((2, 2, 3))} if densities else new(r())
        cmds = [new(1), new(2), new(3)]
        if densities:
            cmds += [{'op': 'convolve', 'a': 1, 'b': 2, 'every': 1}, {'op': 'jaccard', 'a': 1, 'b': 2, 'iv': interval(True)}]
        for _ in range(ctx.n(16, 22)):
            cmds.append(cmd() if rng.random() < .9 else new(r()))
            c = cmds[-1]
            if 't' in c and c['op'] != 'new' and rng.random() < .25:    # look at the result from another side
                cmds.append({'op': 'integrate', 'a': c['t'], 'iv': interval(), 'form': 0})
        out.append({'id': 'fn-%d' % h, 'grid': [q((j - m) * step) for j in range(n)], 'step': q(step), 'k': K, 'cmds': cmds})
    return out


STAGES = {
    'functions': Stage('functions', gen, execute, 'FuncTrace', timeout=240,
                       note='random histories of building, combining, transforming and asking functions with pieces of degree 0 to 2 on random grids, '
                            'observed at the grid points and three points in every gap'),
}
