"""Conformance stage for sequence models (C22)."""
from vlib.core import Stage
from vlib.proj import q
from checks.trees import execute, SYM


def gen(ctx):
    out = []
    for h in range(ctx.n(300, 3000)):
        rng = ctx.rng('seq%d' % h)
        VS = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            k = rng.choice(('num', 'num', 'sym', 'int'))
            v = {'kind': k, 'n': rng.randint(2, 4), 'grid': [], 'labels': [], 'm': '', 's': '', 'eps': '', 'inv': False}
            if k == 'num':
                v['n'] = 2 * v['n'] + 1
                step, start = rng.choice(((1., 0.), (.5, -2.), (2., -7.)))
                v['grid'] = [q(start + step * j) for j in range(v['n'])]
                v['eps'] = rng.choice(('', '1/1000'))
                if rng.random() < .25:
                    v['m'], v['s'] = q(start + step), q(rng.choice((.5, 2.)))
            elif k == 'sym':
                v['labels'] = rng.choice(SYM)[:v['n']]
            else:
                a = rng.choice((0, 1, -2))
                v['labels'] = list(range(a, a + v['n']))
            VS.append(v)
        nv = len(VS)

        def value(v, u):
            return 2 * (2 * (u % ((v['n'] + 1) // 2)) + 1) if v['kind'] == 'num' else u % v['n'] + 1

        def sequence(n):
            style, per = rng.randrange(4), rng.randint(2, 4)
            rows = []
            for t in range(n):
                u = t if style == 0 else t // 2 if style == 1 else t % per if style == 2 else rng.randrange(12)
                rows.append([value(v, (rng.randrange(12) if rng.random() < .15 else u) * (1 if j % 2 else i + 1))
                             for i, (j, v) in enumerate(zip(range(nv), VS))])
            return rows

        def fit(refit=False):
            steps = rng.choice((2, 2, 2, 3))
            return {'op': 'seqfit', 'seqs': [sequence(rng.randint(steps, 12)) for _ in range(rng.choice((1, 2, 3)))], 'steps': steps, 'refit': refit,
                    'P': {'msl': rng.choice((1, 1, 2, 3)), 'mii': rng.choice(('0', '0', '1/64')), 'targets': []}}

        def con(v):
            n = v['n']
            if rng.random() < .45:
                return {'t': 'none'}
            if v['kind'] != 'num':
                return {'t': 'lab', 's': sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))}
            lo = rng.randint(0, n - 1)
            hi = rng.randint(lo + 1, n + 1)
            return {'t': 'ivs', 'ivs': [{'lo': lo, 'hi': hi, 'l': 2 if lo == 0 else rng.choice((1, 2)), 'r': 2 if hi == n + 1 else rng.choice((1, 2))}]}

        def ask():
            n = rng.choice((1, 2, 2, 3, 3, 4, 5, 7, 11, 12, 13)) if rng.random() < .98 or ctx.tier == 'quick' else 25
            p = rng.choice((.2, .5, 1))
            return {'op': 'seqask', 'es': [[con(v) if rng.random() < p else {'t': 'none'} for v in VS] for _ in range(n)],
                    'styles': [rng.randrange(60) for _ in range(n)]}
        cmds = [fit()]
        for _ in range(5):
            cmds.append(ask())
        if rng.random() < .5:
            cmds.append({'op': 'seqjson'})
            cmds += [ask(), ask()]
        if rng.random() < .4:
            cmds.append(fit(True))
            cmds += [ask(), ask()]
        out.append({'id': 'sq-%d' % h, 'k': 1, 'V': VS, 'cmds': cmds})
    return out


STAGES = {
    'sequences': Stage('sequences', gen, execute, 'SeqTrace', timeout=240,
                       note='sequence models fitted to random, periodic and trending sequences over mixed variables, restored, refitted, and asked with '
                            'evidence sequences of length 1 to 13'),
}
