"""Conformance stages for scaled domains: every history is run on unscaled and on scaled numeric variables, in lockstep."""
from vlib.core import Stage
from vlib.proj import q

# not in label space: densities; fingerprints of internal states
SKIP = {'fps', 'dens', 'lik', 'liks', 'mind', 'mass', 'eq', 'smp', 'freq', 'knots', 'eps', 'args', 'again', 'op', 'max'}


def flatten(ev):
    """[path, text] for everything discrete and [path, rational] for every number in an event"""
    import re
    num = re.compile(r'-?\d+/\d+$|-?\d+$')
    atoms, nums = [], []

    def go(path, x):
        if isinstance(x, dict):
            for k in sorted(x):
                if k == 'st':                        # gaps; whether an end belongs to a mode is a matter of rounding
                    go(path + '.st', [c for c in x[k] if c % 2 == 0])
                elif k not in SKIP:
                    go(path + '.' + k, x[k])
        elif isinstance(x, (list, tuple)):
            atoms.append([path, 'length %d' % len(x)])
            for i, y in enumerate(x):
                go('%s[%d]' % (path, i), y)
        elif isinstance(x, str) and num.match(x):
            nums.append([path, x])
        else:
            atoms.append([path, str(x)])
    go('', ev)
    return atoms, nums


def pair(hist, A, B, skip=()):
    ev = []
    for i in range(max(len(A['ev']), len(B['ev']))):
        a, b = ({'op': '(end)'} if i >= len(X['ev']) else X['ev'][i] for X in (A, B))
        if a['op'] == b['op'] and a['op'] in skip:
            continue
        (aa, an), (ba, bn) = flatten(a), flatten(b)
        ev.append({'mass': [x.get('mass', '1') for x in (a, b)] + [y['w'] for x in (a, b) for y in (x.get('tree') or {}).get('leaves', [])], 'dens': [x for x in a.get('dens', []) if x != 'nan'], 'op': a['op'], 'twin': b['op'], 'a': aa, 'b': ba, 'an': [x for _, x in an], 'bn': [x for _, x in bn],
                   'ap': [p for p, _ in an], 'bp': [p for p, _ in bn]})
    return {'id': hist['id'], 'ev': ev}


def execute_numeric(hist):
    import random
    import numpy as np
    from checks.numeric import execute
    out = []
    for aff in (None, hist['affine']):
        random.seed(5)
        np.random.seed(5)
        out.append(execute(dict(hist, affine=aff)))
    return pair(hist, *out)


def gen_numeric(ctx):
    from checks import numeric
    out = []
    for what, hs in (('m', numeric.gen_machine(ctx)), ('f', numeric.gen_fit(ctx))):
        for i, h in enumerate(hs):
            if i % 2:
                continue
            rng = ctx.rng('scaled%s%d' % (what, i))
            h['twin'] = True
            for c in h['cmds']:
                if c['op'] == 'ask':                 # levels that no plateau of the generated functions has
                    c['levels'] = [rng.choice(('317/1000', '1/1009', '941/1000', '613/1013', '499/997')) for _ in range(4)]
            h['affine'] = [q(float(rng.choice((0, 3, -7, .5, 12)))), q(rng.choice((.5, 2., 4., .25, 8.)))]
            out.append(h)
    return out


def execute_trees(hist):
    import random
    import numpy as np
    from checks.trees import execute
    out = []
    for plain in (True, False):
        random.seed(5)
        np.random.seed(5)
        out.append(execute(dict(hist, V=[dict(v, m='', s='') if plain else v for v in hist['V']])))
    # densities, and what is ordered by densities in leaves some of which have jumps
    return pair(hist, *out, skip=('pdf', 'likelihood', 'mpe', 'kmpe'))


def wide(c, n):
    if c['t'] == 'pt':
        return {'t': 'ivs', 'ivs': [{'lo': max(1, c['k'] - 1), 'hi': min(n, c['k'] + 1), 'l': 1, 'r': 1}]}
    if c['t'] == 'ivs':
        return {'t': 'ivs', 'ivs': [dict(z, lo=max(1, z['lo'] - 1), hi=min(n, z['hi'] + 1)) if z['lo'] == z['hi'] else z for z in c['ivs']]}
    return c


def gen_trees(ctx):
    from checks import trees
    from vlib.proj import unq
    out = []
    for i, h in enumerate(trees.gen_ask(ctx)):
        rng = ctx.rng('scaledtree%d' % i)
        if i % 2 or not any(v['kind'] == 'num' for v in h['V']):
            continue
        h['twin'] = True
        for c in h['cmds']:                          # a single point of a continuous variable is a matter of density
            for k in ('e', 'q'):
                if c.get(k):
                    c[k] = [wide(x, h['V'][j]['n']) for j, x in enumerate(c[k])]
        for v in h['V']:
            if v['kind'] == 'num':
                v['m'], v['s'] = q(unq(v['grid'][0]) + rng.choice((0., 1., -3.))), q(rng.choice((.5, 2., 4.)))
        out.append(h)
    return out


STAGES = {
    'numeric': Stage('numeric', gen_numeric, execute_numeric, 'ScaleTrace', timeout=240,
                     note='histories of numeric distributions (MassGen, fits) run on Numeric and on a scaled type'),
    'trees': Stage('trees', gen_trees, execute_trees, 'ScaleTrace', timeout=240,
                   note='histories of learning, conditioning and asking trees run with unscaled and scaled numeric variables'),
}
