"""Conformance stages for NumberSet / ContinuousSet / RealSet (properties C01, C02)."""
import json

from vlib.core import Stage
from vlib.proj import q, unq, attempt

BIN = ('union', 'inter', 'diff')


# ---------------------------------------------------------------------------------------- execution on the real code
def execute(hist):
    import math
    import pickle
    import numpy as np
    from jpt.base import intervals as I
    from jpt.base.intervals import ContinuousSet, RealSet
    n = hist['n']
    grid = [unq(g) for g in hist['grid']]
    idx = {g: i + 1 for i, g in enumerate(grid)}
    idx[-math.inf], idx[math.inf] = 0, n + 1
    probes = []
    for c in range(2 * n + 1):
        if c % 2:
            probes.append([grid[c // 2]])
        else:
            k = c // 2
            lo = grid[k - 1] if k else -math.inf
            hi = grid[k] if k < n else math.inf
            p = []
            if k:
                p.append(math.nextafter(lo, math.inf))
            if k < n:
                p.append(math.nextafter(hi, -math.inf))
            p.append((lo + hi) / 2 if k and k < n else (hi - 1000 if k < n else lo + 1000))
            if not k:
                p.append(hi - 1)
            if k == n:
                p.append(lo + 1)
            probes.append(p)

    def bound(i):
        return -math.inf if i == 0 else math.inf if i == n + 1 else grid[i - 1]

    def cs(iv):
        return ContinuousSet(bound(iv['lo']), bound(iv['hi']), iv['l'], iv['r'])

    def lit(s):
        return {'lo': idx.get(float(s.lower), -1), 'hi': idx.get(float(s.upper), -1),
                'l': int(s.left), 'r': int(s.right)}

    def ivs(s):
        if s is None:
            return []
        if isinstance(s, ContinuousSet):
            return [lit(s)]
        return [lit(i) for i in s.intervals]

    def mem(s):
        out = []
        for ps in probes:
            v = set()
            for p in ps:
                v.add(bool(s.contains_value(p)))
                v.add(bool(p in s))
            out.append(int(v.pop()) if len(v) == 1 else 2)
        return out

    def text(iv, style):
        def num(x):
            if math.isinf(x):
                return ('-' if x < 0 else '') + ('∞' if style % 2 else 'inf')
            return ('%r' % x) if style % 2 else ('%e' % x if float('%e' % x) == x else repr(x))
        left = '[' if iv['l'] == 1 else ('(' if style < 2 else ']')
        right = ']' if iv['r'] == 1 else (')' if style < 2 else '[')
        return left + num(bound(iv['lo'])) + (' , ' if style == 3 else ',') + num(bound(iv['hi'])) + right

    reg = [None] * hist['nregs']

    def kind(s):
        return 'R' if isinstance(s, RealSet) else 'C'

    def where(x, up):
        x = float(x)
        if math.isinf(x) or abs(x) > 1e300:
            return [0, 'inf']
        if x in idx:
            return [idx[x], 'at']
        for g, i in idx.items():
            if not math.isinf(g):
                if math.nextafter(g, math.inf) == x:
                    return [i, 'above']
                if math.nextafter(g, -math.inf) == x:
                    return [i, 'below']
        return [-1, q(x)]

    def run(c):
        o = c['op']
        a = reg[c['a'] - 1] if 'a' in c else None
        b = reg[c['b'] - 1] if 'b' in c else None
        if o == 'make':
            return cs(c['lit'][0]) if c['k'] == 'C' else RealSet([cs(i) for i in c['lit']])
        if o == 'parse':
            ts = [text(i, c['style']) for i in c['lit']]
            return ContinuousSet.parse(ts[0]) if c['k'] == 'C' else RealSet(ts)
        if o == 'union':
            return (a | b) if c.get('sym') or kind(a) < kind(b) else a.union(b)
        if o == 'inter':
            return (a & b) if c.get('sym') or kind(a) < kind(b) else a.intersection(b)
        if o == 'diff':
            return (a - b) if c.get('sym') and kind(a) == 'C' else a.difference(b)
        if o == 'isects':
            return a.intersections(b)
        if o == 'compl':
            return a.complement()
        if o == 'simplify':
            return a.simplify()
        if o == 'copy':
            return a.copy()
        if o == 'mirror':
            return a.xmirror()
        if o == 'json':
            return type(a).from_json(json.loads(json.dumps(a.to_json())))
        if o == 'pickle':
            return pickle.loads(pickle.dumps(a))
        if o == 'str':
            return ContinuousSet.parse(a.pfmt(notation=c['notation']))
        if o == 'round':
            return round(a, c['digits'])
        if o == 'bounds':
            return a.boundaries(c['l'], c['r'])
        raise RuntimeError(o)

    ev = []
    for c in hist['cmds']:
        o = c['op']
        e = dict(c)
        e['exc'] = ''
        if o == 'pred1':
            a = reg[c['a'] - 1]
            e['kind'] = kind(a)

            def p1():
                r = {'isempty': bool(a.isempty()), 'bool': bool(a)}
                sz = float(a.size())
                r['size'] = -1 if math.isinf(sz) else int(sz) if sz == int(sz) else -2
                r['least'], r['greatest'] = [-1, 'none'], [-1, 'none']
                r['ninf'] = r['pinf'] = r['inf'] = False
                r['anyin'] = r['samplein'] = r['sampled'] = False
                r['nanin'] = bool(a.contains_value(math.nan))
                if c['nonempty']:
                    r['least'] = where(a.fst(), False)
                    if kind(a) == 'C' and a.min != a.fst() and not math.isinf(a.min):
                        r['least'] = [-1, 'fst/min']
                    if kind(a) == 'C':
                        r['greatest'] = where(a.max, True)
                    r['ninf'], r['pinf'], r['inf'] = bool(a.isninf()), bool(a.ispinf()), bool(a.isinf())
                    r['anyin'] = bool(a.contains_value(a.any_point()))
                    if not r['inf']:
                        r['sampled'] = True
                        xs = np.asarray(a.sample(8))
                        r['samplein'] = len(xs) == 8 and all(a.contains_value(x) for x in xs)
                return r
            r, e['exc'] = attempt(p1)
            if r is not None:
                e['r'] = r
        elif o == 'pred2':
            a, b = reg[c['a'] - 1], reg[c['b'] - 1]

            def p2():
                cc = kind(a) == 'C' and kind(b) == 'C'
                return {'eq': bool(a == b), 'ne': bool(a != b), 'hasheq': hash(a) == hash(b),
                        'intersects': bool(a.intersects(b)), 'disjoint': bool(a.isdisjoint(b)),
                        'subset': bool(a.contains_interval(b)), 'cc': cc,
                        'proper': bool(a.contains_interval(b, proper_containment=True)) if cc else False,
                        'contiguous': bool(a.contiguous(b)) if cc else False}
            r, e['exc'] = attempt(p2)
            if r is not None:
                e['r'] = r
        elif o == 'chop':
            a = reg[c['a'] - 1]
            r, e['exc'] = attempt(lambda: list(a.chop([bound(p) for p in c['pts']])))
            e['ivs'] = [lit(x) for x in r] if r is not None else []
        elif o == 'poke':
            s = reg[c['t'] - 1]

            def poke():
                x = s if kind(s) == 'C' else (s.intervals[c['j'] % len(s.intervals)] if s.intervals else None)
                if x is not None:
                    new = cs(c['lit'][0])
                    x.lower, x.upper, x.left, x.right = new.lower, new.upper, new.left, new.right
            _, e['exc'] = attempt(poke)
        elif o == 'consts':
            e['empty'], e['all'] = mem(I.EMPTY), mem(I.R)
        else:
            if 'a' in c:
                e['kind'] = 'R' if 'R' in (kind(reg[c['a'] - 1]), kind(reg[c['b'] - 1]) if 'b' in c and o != 'diff' else '') \
                    else kind(reg[c['a'] - 1])
            r, e['exc'] = attempt(run, c)
            e['mem'], e['ivs'] = [], []
            if e['exc'] == '':
                if isinstance(r, (ContinuousSet, RealSet)):
                    reg[c['t'] - 1] = r
                    m, ex = attempt(mem, r)
                    e['mem'] = m if m is not None else []
                    e['ivs'] = ivs(r)
                else:
                    e['exc'] = 'not-a-set'
        e['regs'] = [ivs(r) for r in reg]
        ev.append(e)
    return {'id': hist['id'], 'n': n, 'nregs': hist['nregs'], 'ev': ev}


# ------------------------------------------------------------------------------------------------------- generation
GRIDS = {
    1: [['0'], ['5'], ['-3/4']],
    2: [['0', '1'], ['-1', '1'], ['-3', '5/4'], ['1048576', '1048577']],
    3: [['0', '1', '2'], ['-1', '0', '1'], ['-5', '1/2', '100'], ['-1000000', '0', '1/1024']],
    4: [['-2', '-1', '1', '2'], ['0', '1/4', '1/2', '3/4'], ['-7', '-6', '0', '3']],
}


def symmetric(grid):
    return [unq(g) for g in grid] == [-unq(g) for g in reversed(grid)]


def pair_cmds(a, b, ka, kb, sym):
    """All the operations on one pair; registers 1, 2 hold the operands, 3.. results."""
    cmds = [{'op': 'make', 'k': ka, 'lit': a, 't': 1}, {'op': 'make', 'k': kb, 'lit': b, 't': 2},
            {'op': 'pred2', 'a': 1, 'b': 2}]
    if ka == 'R' or kb == 'C':
        cmds.append({'op': 'inter', 'a': 1, 'b': 2, 't': 3})
        cmds.append({'op': 'union', 'a': 1, 'b': 2, 't': 4, 'sym': 1})
    cmds.append({'op': 'diff', 'a': 1, 'b': 2, 't': 5})
    cmds.append({'op': 'compl', 'a': 5, 't': 4})
    cmds.append({'op': 'pred2', 'a': 5, 'b': 3} if ka == 'R' or kb == 'C' else {'op': 'pred2', 'a': 5, 'b': 2})
    return cmds


def cells(n, iv):
    a = 0 if iv['lo'] == 0 else 2 * iv['lo'] - (1 if iv['l'] == 1 else 0)
    b = 2 * n if iv['hi'] == n + 1 else 2 * iv['hi'] - (1 if iv['r'] == 1 else 2)
    return set(range(a, b + 1))


def gen_pairs(ctx):
    out = []
    for cfg in ('IntervalGen', 'IntervalGen2'):
        hs = ctx.behaviours('IntervalGen', cfg)
        rng = ctx.rng('pairs')
        if cfg == 'IntervalGen2' and not ctx.thorough:
            hs.sort(key=lambda x: json.dumps(x, sort_keys=True))
            hs = rng.sample(hs, min(len(hs), 2500))
        # group pairs into longer histories: the registers are overwritten from pair to pair
        hs.sort(key=lambda x: json.dumps(x, sort_keys=True))
        for i in range(0, len(hs), 12):
            grp = hs[i:i + 12]
            n = grp[0]['n']
            cmds = []
            for x in grp:
                kinds = [('C', 'C'), ('C', 'R'), ('R', 'C'), ('R', 'R')] if len(x['a']) == 1 else [('R', 'C'), ('R', 'R')]
                if not ctx.thorough:
                    kinds = [rng.choice(kinds)]
                for ka, kb in kinds:
                    cmds += pair_cmds(x['a'], x['b'], ka, kb, False)
                cmds.append({'op': 'pred1', 'a': 1, 'nonempty': bool(set().union(*[cells(n, iv) for iv in x['a']]))})
                cmds.append({'op': 'simplify', 'a': 1, 't': 3})
            cmds.append({'op': 'consts'})
            out.append({'id': '%s-%d' % (cfg, i), 'n': n, 'nregs': 5, 'grid': GRIDS[n][(i // 12) % len(GRIDS[n])], 'cmds': cmds})
    return out


def rand_iv(rng, n):
    lo = rng.randint(0, n)
    hi = rng.randint(max(lo, 1), n + 1)
    return {'lo': lo, 'hi': hi, 'l': 2 if lo == 0 else rng.choice((1, 2)), 'r': 2 if hi == n + 1 else rng.choice((1, 2))}


def gen_random(ctx):
    """Random histories; the generator tracks kinds and (by the reference denotation) emptiness."""
    out = []
    for i in range(ctx.n(700, 12000)):
        rng = ctx.rng('hist%d' % i)
        n = rng.choice((2, 3, 4))
        grid = rng.choice(GRIDS[n])
        nregs = 4
        cmds, kinds, val = [], [None] * nregs, [set()] * nregs
        allc = set(range(2 * n + 1))
        for t in range(nregs):
            k = rng.choice('CRR')
            lits = [rand_iv(rng, n) for _ in range(1 if k == 'C' else rng.choice((0, 1, 2, 2, 3, 4)))]
            c = {'op': 'make', 'k': k, 'lit': lits, 't': t + 1}
            if lits and rng.random() < .4:
                c.update(op='parse', style=rng.randrange(4))
            cmds.append(c)
            kinds[t], val[t] = k, set().union(*[cells(n, x) for x in lits])

        def runs(s):
            return sum(1 for c in s if c - 1 not in s)

        for _ in range(rng.randint(8, 20)):
            a, b, t = (rng.randrange(nregs) for _ in range(3))
            o = rng.choice(['union', 'inter', 'diff', 'union', 'inter', 'diff', 'compl', 'simplify', 'copy', 'mirror', 'json',
                            'pickle', 'str', 'round', 'bounds', 'chop', 'pred1', 'pred1', 'pred2', 'pred2', 'poke', 'isects',
                            'make'])
            c = {'op': o, 'a': a + 1, 't': t + 1}
            if o in BIN:
                c['b'] = b + 1
                if o != 'diff' and kinds[a] == 'C' and kinds[b] == 'R':
                    a, b = b, a
                    c['a'], c['b'] = a + 1, b + 1
                if rng.random() < .5:
                    c['sym'] = 1
                res = {'union': val[a] | val[b], 'inter': val[a] & val[b], 'diff': val[a] - val[b]}[o]
                # the kind of the result decides which calls make sense later; mixed results become RealSets by a make
                cmds.append(c)
                val[t] = res
                kinds[t] = '?'
            elif o == 'isects':
                if kinds[a] != 'R' or kinds[b] != 'R':
                    continue
                # constituents must be disjoint for a sorted result: use simplified multi-run operands only
                cmds.append({'op': 'simplify', 'a': a + 1, 't': a + 1})
                cmds.append({'op': 'simplify', 'a': b + 1, 't': b + 1})
                kinds[a] = kinds[b] = '?'
                if runs(val[a]) < 2 or runs(val[b]) < 2:
                    pass
                else:
                    cmds.append(dict(c, b=b + 1))
                    val[t], kinds[t] = val[a] & val[b], '?'
            elif o == 'compl':
                cmds.append(c)
                val[t], kinds[t] = allc - val[a], '?'
            elif o == 'mirror':
                if not symmetric(grid):
                    continue
                cmds.append(c)
                val[t], kinds[t] = {2 * n - x for x in val[a]}, kinds[a]
            elif o in ('copy', 'json', 'pickle'):
                cmds.append(c)
                val[t], kinds[t] = val[a], kinds[a]
            elif o == 'round':
                if any('/' in g for g in grid):
                    continue
                cmds.append(dict(c, digits=rng.choice((0, 2))))
                val[t], kinds[t] = val[a], kinds[a]
            elif o == 'simplify':
                cmds.append(c)
                val[t], kinds[t] = val[a], '?'
            elif o in ('str', 'bounds'):
                # a fresh non-degenerate interval (a singleton prints as {x}, which is not interval syntax)
                iv = rand_iv(rng, n)
                if len(cells(n, iv)) < 2 or (o == 'bounds' and (iv['lo'] == 0 or iv['hi'] == n + 1)):
                    continue
                cmds.append({'op': 'make', 'k': 'C', 'lit': [iv], 't': a + 1})
                val[a], kinds[a] = cells(n, iv), 'C'
                if o == 'str':
                    cmds.append(dict(c, notation=rng.choice(('par', 'sq'))))
                else:
                    cmds.append(dict(c, l=rng.choice((0, 1, 2)), r=rng.choice((0, 1, 2))))
                val[t], kinds[t] = val[a], 'C'
                if o == 'bounds' and t != a:
                    cmds.append({'op': 'copy', 'a': a + 1, 't': t + 1})
                elif o == 'bounds':
                    cmds.append({'op': 'make', 'k': 'C', 'lit': [iv], 't': a + 1})
            elif o == 'chop':
                pts = [rng.randint(1, n) for _ in range(rng.randint(0, 3))]
                cmds.append({'op': 'chop', 'a': a + 1, 'pts': pts})
            elif o == 'pred1':
                cmds.append({'op': 'pred1', 'a': a + 1, 'nonempty': bool(val[a])})
            elif o == 'pred2':
                cmds.append({'op': 'pred2', 'a': a + 1, 'b': b + 1})
            elif o == 'make':
                k = rng.choice('CR')
                lits = [rand_iv(rng, n) for _ in range(1 if k == 'C' else rng.choice((0, 1, 2, 3)))]
                cmds.append({'op': 'make', 'k': k, 'lit': lits, 't': t + 1})
                val[t], kinds[t] = set().union(*[cells(n, x) for x in lits]), k
            elif o == 'poke':
                # afterwards the register is rebuilt, so that the reference denotation stays known
                cmds.append({'op': 'poke', 't': t + 1, 'j': rng.randrange(4), 'lit': [rand_iv(rng, n)]})
                cmds.append({'op': 'consts'})
                iv = rand_iv(rng, n)
                cmds.append({'op': 'make', 'k': 'C', 'lit': [iv], 't': t + 1})
                val[t], kinds[t] = cells(n, iv), 'C'
            if kinds[t] == '?' or kinds[a] == '?' or kinds[b] == '?':
                for x in {t, a, b}:
                    if kinds[x] == '?':
                        kinds[x] = 'D'      # decided at run time
            # operands of undecided kind: only operations that both kinds support
            for x in range(nregs):
                if kinds[x] == 'D' and rng.random() < .6:
                    lits = [rand_iv(rng, n) for _ in range(rng.choice((1, 2)))]
                    cmds.append({'op': 'make', 'k': 'R', 'lit': lits, 't': x + 1})
                    val[x], kinds[x] = set().union(*[cells(n, y) for y in lits]), 'R'
        cmds.append({'op': 'consts'})
        out.append({'id': 'rnd-%d' % i, 'n': n, 'nregs': nregs, 'grid': grid, 'cmds': cmds})
    return out


STAGES = {
    'pairs': Stage('pairs', gen_pairs, execute, 'IntervalTrace', note='pairs of sets enumerated by TLC, all binary operations'),
    'random': Stage('random', gen_random, execute, 'IntervalTrace', note='random operation histories over registers'),
}
