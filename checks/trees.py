"""Conformance stages for joint probability trees: learning, transformations and inference."""
import hashlib
import json

from vlib.core import Stage
from vlib.proj import q, unq, attempt

SYM = (['x', 'y', 'z', 'w', 'u'], ['10', '9', '8', '7', '6'], ['b', 'a', 'd', 'c', 'e'])


# ---------------------------------------------------------------------------------------- execution on the real code
def execute(hist):
    import math
    import os
    import pickle
    import tempfile
    import warnings
    import logging
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import numpy as np
    import pandas as pd
    import dnutils.logs
    for lg in ('/jpt', '/impurity'):
        try:
            dnutils.logs.getlogger(lg).level = dnutils.logs.ERROR
        except Exception:
            pass
    from jpt.base.intervals import ContinuousSet, RealSet, NumberSet
    from jpt.distributions import Numeric, NumericType, SymbolicType, IntegerType
    from jpt.variables import NumericVariable, SymbolicVariable, IntegerVariable, LabelAssignment, ValueAssignment
    from jpt.trees import JPT
    from jpt.sequential_trees import SequentialJPT
    VS = hist['V']
    nv = len(VS)
    grids = [[unq(g) for g in v['grid']] if v['kind'] == 'num' else None for v in VS]
    variables = []
    for i, v in enumerate(VS):
        name = 'V%d' % (i + 1)
        if v['kind'] == 'num':
            kw = {'precision': unq(v['eps'])} if v['eps'] else {}
            dom = NumericType(name + 'T', [unq(v['m']) - unq(v['s']), unq(v['m']) + unq(v['s'])]) if v['m'] else Numeric
            variables.append(NumericVariable(name, dom, **kw))
        elif v['kind'] == 'sym':
            kw = {'invert_impurity': True} if v['inv'] else {}
            variables.append(SymbolicVariable(name, SymbolicType(name + 'T', v['labels']), **kw))
        else:
            variables.append(IntegerVariable(name, IntegerType(name + 'T', v['labels'][0], v['labels'][-1])))

    def val(i, x):                      # label space -> value space of a numeric variable
        v = VS[i]
        return (x - unq(v['m'])) / unq(v['s']) if v['m'] else x
    vgrids = [[val(i, x) for x in g] if g else None for i, g in enumerate(grids)]
    reg = [None] * hist['k']

    # ------------------------------------------------------------------------------------------------ projections
    def num_idx(i, st, space, exact=True):
        """indices of the cells a set of numbers comprises; [-1] if it is not a union of cells"""
        g = vgrids[i] if space == 'value' else grids[i]
        n = len(g)
        if st is None:
            return list(range(1, 2 * n + 2))
        if not isinstance(st, NumberSet):
            st = ContinuousSet(float(st), float(st))
        if exact:
            for iv in (st.intervals if isinstance(st, RealSet) else [st]):
                for b in (iv.lower, iv.upper):
                    if not (math.isinf(b) or b in g):
                        return [-1]
        out = []
        for c in range(2 * n + 1):
            if c % 2:
                ps = [g[c // 2]]
            elif c == 0:
                ps = [g[0] - 1, g[0] - .01]
            elif c == 2 * n:
                ps = [g[-1] + 1, g[-1] + .01]
            else:
                a, b = g[c // 2 - 1], g[c // 2]
                ps = [a + (b - a) * f for f in (.01, .25, .5, .99)]
            ins = {bool(st.contains_value(p)) for p in ps}
            if len(ins) > 1:
                out.append(-1)
            elif ins.pop():
                out.append(c + 1)
        return out

    def idx(i, st, space, exact=True):
        v = VS[i]
        if v['kind'] == 'num':
            return num_idx(i, st, space, exact)
        if st is None:
            return list(range(1, v['n'] + 1))
        if not isinstance(st, (set, frozenset, list, tuple)):
            st = [st]
        if space == 'value':
            return sorted(int(x) + 1 if 0 <= x < v['n'] else -1 for x in st)
        return sorted(v['labels'].index(x) + 1 if x in v['labels'] else -1 for x in st)

    def dist(i, d):
        if d is None:
            return []
        if VS[i]['kind'] != 'num':
            return [q(float(x)) for x in d.probabilities]
        c, g = d.cdf, vgrids[i]
        F = [float(c.eval(x)) for x in g]
        L = [float(c.eval(float(np.nextafter(x, -np.inf)))) for x in g]
        lo, hi = float(c.eval(g[0] - 5)), float(c.eval(g[-1] + 5))
        out = [L[0] + 0. * lo]
        for k in range(len(g)):
            out.append(F[k] - L[k])
            out.append((L[k + 1] if k + 1 < len(g) else hi) - F[k])
        if lo:
            out[0] = -1.                # mass left of everything: not a distribution over the grid
        for k in range(len(g) - 1):     # the density between grid points is constant
            mid = float(c.eval((g[k] + g[k + 1]) / 2))
            if abs(mid - (F[k] + L[k + 1]) / 2) > 1e-9:
                out[2 * k + 2] = -1.
        return [q(x) for x in out]

    def spiky(t):
        """some density lives on a piece that has practically no width"""
        for lf in t.leaves.values():
            for i, v in enumerate(mine(t)):
                if VS[i]['kind'] == 'num':
                    d = lf.distributions[v]
                    if any(p.width < 1e-9 and f.value > 0 for p, f in zip(d.pdf.intervals, d.pdf.functions) if not math.isinf(f.value)):
                        return True
        return False

    def node_path(nd):
        p = nd.path
        return [idx(i, p[v] if v in p else None, 'value') for i, v in enumerate(variables)]

    def vi(var):
        return [v.name for v in variables].index(var.name) + 1

    def tree(t):
        nodes = []
        for k, nd in t.innernodes.items():
            i = vi(nd.variable) - 1
            nodes.append({'i': int(k), 'v': i + 1, 'ch': [int(c.idx) if c is not None else -2 for c in nd.children],
                          'sp': [idx(i, s, 'value') for s in nd.splits], 'par': int(nd.parent.idx) if nd.parent is not None else -1,
                          'path': node_path(nd), 'n': int(nd.samples if nd.samples is not None else -1)})
        leaves = []
        for k, lf in t.leaves.items():
            leaves.append({'i': int(k), 'par': int(lf.parent.idx) if lf.parent is not None else -1, 'w': q(float(lf.prior)),
                           'n': int(lf.samples if lf.samples is not None else -1), 'path': node_path(lf),
                           'd': [dist(i, lf.distributions[v]) for i, v in enumerate(mine(t))]})
        return {'root': int(t.root.idx) if t.root is not None else -1, 'nodes': nodes, 'leaves': leaves,
                'pri': [dist(i, t.priors[v]) for i, v in enumerate(mine(t))]}

    def mine(t):
        return [t.varnames[v.name] for v in variables]

    def fp(t):
        if t is None:
            return ''
        j = t.to_json()
        extra = [[k, n.samples] for k, n in sorted(t.allnodes.items())] + [q(float(l.prior)) for l in t.leaves.values()]
        return hashlib.sha1(json.dumps([j, str(extra), t._min_samples_leaf], sort_keys=True, default=str).encode()).hexdigest()[:12]

    chain = [None]

    def seq_model():
        t = chain[0].template_tree
        return {'trans': [[q(float(x)) for x in r] for r in chain[0].transition_model],
                'leaves': [{'i': int(k), 'w': q(float(lf.prior)), 'path': node_path(lf),
                            'd': [dist(i, lf.distributions[v]) for i, v in enumerate(mine(t))]} for k, lf in t.leaves.items()]}

    def deep(x):
        """a value for comparing an argument before and after a call"""
        if x is None or isinstance(x, (str, int, float, bool)):
            return repr(x)
        if isinstance(x, dict) or hasattr(x, 'items'):
            return [type(x).__name__] + [[k if isinstance(k, str) else k.name, deep(v)] for k, v in x.items()]
        if isinstance(x, RealSet):
            return ['RS'] + [deep(i) for i in x.intervals]
        if isinstance(x, ContinuousSet):
            return ['CS', repr(float(x.lower)), repr(float(x.upper)), int(x.left), int(x.right)]
        if isinstance(x, (set, frozenset)):
            return [type(x).__name__] + sorted(repr(y) for y in x)
        if isinstance(x, (list, tuple)):
            return [type(x).__name__] + [deep(y) for y in x]
        return repr(x)

    # ------------------------------------------------------------------------------------------------ arguments
    def bound(i, k, space):
        g = vgrids[i] if space == 'value' else grids[i]
        return -math.inf if k == 0 else math.inf if k == len(g) + 1 else g[k - 1]

    def arg(i, c, style, space='label'):
        if c['t'] == 'pt':
            x = bound(i, c['k'], space)
            return ContinuousSet(x, x) if style % 2 else x
        if c['t'] == 'ivs':
            cs = [ContinuousSet(bound(i, z['lo'], space), bound(i, z['hi'], space), z['l'], z['r']) for z in c['ivs']]
            if len(cs) > 1:
                return RealSet(cs)
            z = c['ivs'][0]
            if style % 3 == 1 and space == 'label' and z['l'] == z['r'] == 1 and not math.isinf(cs[0].lower) and not math.isinf(cs[0].upper):
                return [cs[0].lower, cs[0].upper]
            return cs[0]
        ls = [VS[i]['labels'][s - 1] if space == 'label' else s - 1 for s in c['s']]
        if len(ls) == 1 and style % 2:
            return ls[0]
        if style % 3 == 1 and space == 'label' and VS[i]['kind'] == 'sym':
            return ls
        return set(ls)

    def evidence(t, cons, style):
        """the evidence in one of the forms the interface accepts"""
        space = 'value' if style % 5 == 4 else 'label'
        d = {}
        for i, c in enumerate(cons):
            if c['t'] != 'none':
                d[variables[i].name if style % 2 else t.varnames[variables[i].name]] = arg(i, c, style, space)
        if space == 'value':
            return t.bind(d, space='values')
        if style % 5 in (1, 2):
            return t.bind(d)
        if style % 5 == 3:
            return t.bind(d).value_assignment()
        if not d and style % 2:
            return None
        return d

    evs = []
    tmp = tempfile.mkdtemp(prefix='jpt-')

    def note(ev, args=True, again=True):
        ev['fps'] = [fp(t) for t in reg]
        ev['args'], ev['again'] = bool(args), bool(again)
        if mass:
            ev['mass'] = mass[0]
        evs.append(ev)

    def put(ev, f, ent=None):
        before = deep(ent) if ent is not None else None
        r, e = attempt(f)
        ev['exc'], ev['tree'] = e, {}
        ev['none'] = r is None and not e
        keep = ev['op'] == 'cond' and (e == 'Unsatisfiability' or ev['none'])
        if r is not None:
            o, e2 = attempt(tree, r)
            if e2:
                ev['exc'] = 'observe-' + e2
                r = None
            else:
                ev['tree'] = o
        if not keep:
            reg[ev['t'] - 1] = r
        return r, before

    def ask(ev, f, ent=None):
        """asks twice; the answer becomes fields of the event"""
        before = [deep(x) for x in (ent or [])]
        r, e = attempt(f)
        r2, e2 = attempt(f)
        ev['exc'], ev['none'] = e, r is None and not e
        ev.update(r or {})
        note(ev, args=before == [deep(x) for x in (ent or [])], again=(r, e) == (r2, e2))

    def rows_of(rows):
        return [[grids[i][x // 2 - 1] if VS[i]['kind'] == 'num' else VS[i]['labels'][x - 1] for i, x in enumerate(r)] for r in rows]

    for c in hist['cmds']:
        o = c['op']
        if any(c.get(k) and reg[c[k] - 1] is None for k in ('a', 'b')):
            continue
        A = reg[c['a'] - 1] if c.get('a') else None
        mass = []
        if hist.get('twin'):                # the probability of the evidence
            p, e = attempt(lambda: A.infer(evidence(A, c['e'], c['style']), {}, False)) if c.get('e') and A is not None else (1, '')
            mass = [q(float(p)) if not e and p is not None else '0']
        if o == 'learn':
            P = c['P']
            rows = rows_of(c['rows'])
            kw = {}
            if P['tset']:
                kw['targets'] = [variables[i - 1] if c['style'] % 2 else variables[i - 1].name for i in P['targets']]
            if P['fset']:
                kw['features'] = [variables[i - 1] if c['style'] % 3 else variables[i - 1].name for i in P['features']]
            if P['dset']:
                kw['dependencies'] = {variables[i - 1]: [variables[j - 1] for j in P['deps'][i - 1]] for i in P['features']}
            if P['frac'] or P['msl'] != 1:
                kw['min_samples_leaf'] = unq(P['frac']) if P['frac'] else P['msl']
            if P['mii'] != '0':
                kw['min_impurity_improvement'] = unq(P['mii'])
            if P['md'] >= 0:
                kw['max_depth'] = P['md']
            form = P['form']
            if form == 'frame':
                data = {'data': pd.DataFrame({v.name: [r[i] for r in rows] for i, v in enumerate(variables)})}
            elif form == 'columns':
                data = {'columns': [[r[i] for r in rows] for i in range(nv)]}
            elif form == 'array':
                a = np.empty((len(rows), nv), dtype=object)
                for j, r in enumerate(rows):
                    for i, x in enumerate(r):
                        a[j, i] = x
                data = {'rows': a}
            else:
                data = {'rows': rows}

            def learn():
                t = JPT(variables, **kw)
                if c['refit']:
                    t.learn(rows=rows[::-1][:max(1, len(rows) - 1)])
                return t.learn(keep_samples=P['keep'], close_convex_gaps=P['close'], **data)
            ev = {'op': 'learn', 't': c['t'], 'rows': c['rows'], 'P': {k: P[k] for k in ('targets', 'features', 'deps', 'msl', 'frac', 'mii', 'md')},
                  'close': P['close'], 'kept': [], 'enc': []}
            t, _ = put(ev, learn)
            if t is not None:
                if P['keep']:
                    ev['kept'] = [{'i': int(k), 'r': sorted(int(x) + 1 for x in lf.s_indices)} for k, lf in t.leaves.items()]
                enc, e = attempt(lambda: [int(x) for x in t.encode(rows)])
                ev['enc'] = enc or [-1] * len(rows)
            note(ev)
        elif o == 'dup':
            how = c['how']

            def dup():
                if how == 'copy':
                    return A.copy()
                if how == 'json':
                    return JPT.from_json(A.to_json(), variables=A.variables)
                if how == 'text':
                    return JPT.from_json(json.loads(json.dumps(A.to_json())))
                if how == 'pickle':
                    return pickle.loads(pickle.dumps(A))
                p = os.path.join(tmp, 'tree')
                A.save(p)
                return JPT.load(p)
            ev = {'op': 'dup', 'a': c['a'], 't': c['t'], 'how': how, 'eq': False, 'json': ''}
            t, _ = put(ev, dup)
            if t is not None:
                r, e = attempt(lambda: (bool(t == A), bool(A == t)))
                ev['eq'] = r == (True, True)
                ja, jb = A.to_json(), t.to_json()
                ev['json'] = ','.join(k for k in sorted(set(ja) | set(jb)) if json.dumps(ja.get(k), sort_keys=True, default=str)
                                      != json.dumps(jb.get(k), sort_keys=True, default=str))
                if t.total_samples() != A.total_samples() and not hist.get('nosamples'):
                    ev['json'] += '+samples'
                if how != 'copy' and how != 'json':
                    # restored trees have variables of their own; asking continues on a tree with the common ones
                    reg[c['t'] - 1] = t
            note(ev)
        elif o == 'cond':
            ev = {'op': 'cond', 't': c['t'], 'a': c['a'], 'e': c['e'], 'fail': c['fail']}
            ent, e0 = attempt(evidence, A, c['e'], c['style'])
            t, before = put(ev, lambda: A.conditional_jpt(ent, c['fail']), ent)
            note(ev, args=before is None or before == deep(ent))
        elif o == 'mulprior':
            A = reg[c['t'] - 1]
            if A is None:
                continue
            w = [((c['w'] * 7 + j * 5) % 8 + 1) / 8 for j in range(len(A.leaves))]
            ev = {'op': 'mulprior', 't': c['t'], 'w': [q(x) for x in w]}
            put(ev, lambda: A.multiply_by_leaf_prior(dict(zip(A.leaves, w))))
            note(ev)
        elif o == 'prune':
            ev = {'op': 'prune', 't': c['t'], 'a': c['a'], 'thr': c['thr'], 'jumpy': False}
            put(ev, lambda: A.prune(unq(c['thr'])))
            note(ev)
        elif o == 'infer':
            Q, E_ = evidence(A, c['q'], c['style']), evidence(A, c['e'], c['style'] // 3)
            Q = {} if Q is None else Q
            ev = {'op': 'infer', 'a': c['a'], 'q': c['q'], 'e': c['e'], 'fail': c['fail'], 'p': 'nan'}

            def f():
                p = A.infer(Q, E_, c['fail'])
                return None if p is None else {'p': q(float(p))}
            ask(ev, f, [Q, E_])
        elif o == 'posterior':
            E_ = evidence(A, c['e'], c['style'])
            vs = [A.varnames[variables[i - 1].name] if c['style'] % 2 else variables[i - 1].name for i in c['vars']]
            ev = {'op': 'posterior', 'a': c['a'], 'vars': c['vars'], 'e': c['e'], 'fail': c['fail'], 'res': []}

            def f():
                r = A.posterior(vs if not c['all'] else None, E_, c['fail'])
                return None if r is None else {'res': [{'v': vi(v), 'd': dist(vi(v) - 1, d)} for v, d in r.items()]}
            ask(ev, f, [E_])
        elif o == 'expectation':
            E_ = evidence(A, c['e'], c['style'])
            vs = [A.varnames[variables[i - 1].name] for i in c['vars']]
            ev = {'op': 'expectation', 'a': c['a'], 'vars': c['vars'], 'e': c['e'], 'fail': c['fail'], 'res': []}

            def f():
                r = A.expectation(vs if not c['all'] else None, E_, c['fail'])
                if r is None:
                    return None
                out = []
                for v, x in r.items():
                    i = vi(v) - 1
                    sym = VS[i]['kind'] == 'sym'
                    out.append({'v': i + 1, 'x': '0' if sym else q(float(x)), 'm': idx(i, x, 'label') if sym else []})
                return {'res': out}
            ask(ev, f, [E_])
        elif o == 'moment':
            E_ = evidence(A, c['e'], c['style'])
            cen = {}
            for i in range(nv):
                if VS[i]['kind'] != 'sym' and c['c'][i] != '0':
                    cen[A.varnames[variables[i].name]] = unq(c['c'][i]) if VS[i]['kind'] == 'num' else int(c['c'][i])
            ev = {'op': 'moment', 'a': c['a'], 'order': c['order'], 'c': c['c'], 'e': c['e'], 'fail': c['fail'], 'res': []}

            def f():
                ce = None
                if cen:
                    ce = LabelAssignment(list(cen.items()), variables=A.variables)
                r = A.moment(c['order'], ce, E_, c['fail'])
                return None if r is None else {'res': [{'v': vi(v), 'x': q(float(x))} for v, x in r.items()]}
            ask(ev, f, [E_])
        elif o == 'mpe':
            E_ = evidence(A, c['e'], c['style'])
            md = [q(float(A.minimal_distances[v])) if v.numeric else '1' for v in mine(A)]
            ev = {'op': 'mpe', 'a': c['a'], 'e': c['e'], 'fail': c['fail'], 'mind': md, 'lik': 'nan', 'liks': [], 'res': [], 'spiky': False}

            def f():
                r = A.mpe(E_, c['fail'])
                if r is None:
                    return None
                t = A.conditional_jpt(E_)
                liks = [{'i': int(k), 'x': q(float(lf.mpe(A.minimal_distances)[1]))} for k, lf in t.leaves.items()]
                # the states of every leaf are unique lists; equal likelihoods are decided by the numbers as they are
                return {'lik': q(float(r[1])), 'liks': liks, 'spiky': spiky(t),
                        'res': [[idx(i, m[v], 'label', False) for i, v in enumerate(mine(A))] for m in r[0]]}
            ask(ev, f, [E_])
        elif o == 'kmpe':
            E_ = evidence(A, c['e'], c['style'])
            ev = {'op': 'kmpe', 'a': c['a'], 'e': c['e'], 'fail': c['fail'], 'kk': c['kk'], 'judge': False, 'lev': [], 'all': []}

            def f():
                t = A.conditional_jpt(E_, c['fail'])
                if t is None:
                    r = list(A.kmpe(E_, c['fail'], c['kk']))
                    return None if not r else {'all': []}
                judge, lev, size = True, [], 0
                for lf in t.leaves.values():
                    ds, m = [], 1
                    for i, v in enumerate(mine(t)):
                        d = lf.distributions[v]
                        mm = [unq(x) for x in dist(i, d)]
                        if VS[i]['kind'] == 'num' and any(x > 1e-9 for x in mm[1::2]):
                            judge = False
                            break
                        lv = [{'st': idx(i, st, 'value', False), 'x': q(float(x))} for st, x in d._k_mpe()]
                        ds.append(lv)
                        m *= len(lv)
                    size += m
                    lev.append({'w': q(float(lf.prior)), 'd': ds})
                if not judge or size > 60 or spiky(t):
                    return {'judge': False}
                out = []
                for st, x in A.kmpe(E_, c['fail'], c['kk']):
                    out.append({'st': [idx(i, st[v], 'label', False) for i, v in enumerate(mine(A))], 'x': q(float(x))})
                    if len(out) > size + 3:
                        break
                return {'judge': True, 'lev': lev, 'all': out}
            ask(ev, f, [E_])
        elif o == 'pdf':
            d = {}
            for i, x in enumerate(c['x']):
                if x:
                    v = A.varnames[variables[i].name]
                    d[v] = grids[i][x // 2 - 1] if VS[i]['kind'] == 'num' else VS[i]['labels'][x - 1]
            ev = {'op': 'pdf', 'a': c['a'], 'x': c['x'], 'p': 'nan'}
            E_ = A.bind(d, allow_singular_values=True) if c['style'] % 2 else A.bind(d)
            if c['style'] % 3 == 0:
                E_ = E_.value_assignment()
            ask(ev, lambda: {'p': q(float(A.pdf(E_)))}, [E_])
        elif o == 'likelihood':
            rows = rows_of(c['rows'])
            md = [q(float(A.minimal_distances[v])) if v.numeric else '1' for v in mine(A)]
            ev = {'op': 'likelihood', 'a': c['a'], 'rows': c['rows'], 'dirac': c['dirac'], 'mind': md, 'p': []}
            a = np.empty((len(rows), nv), dtype=object)
            for j, r in enumerate(rows):
                for i, x in enumerate(r):
                    a[j, i] = x
            X = a if c['style'] % 2 else pd.DataFrame({v.name: [r[i] for r in rows] for i, v in enumerate(variables)})
            ask(ev, lambda: {'p': [q(float(x)) for x in A.likelihood(X, dirac_scaling=unq(c['dirac']))]})
        elif o == 'sample':
            ev = {'op': 'sample', 'a': c['a'], 'smp': [], 'freq': [], 'num': c['num']}

            def cell(i, x):
                if VS[i]['kind'] != 'num':
                    return (idx(i, x, 'label') or [0])[0]
                g = grids[i]
                x = float(x)
                for k, y in enumerate(g):
                    if abs(x - y) < 1e-12 * max(1, abs(y)):
                        return 2 * (k + 1)
                    if x < y:
                        return 2 * k + 1
                return 2 * len(g) + 1
            r, e = attempt(lambda: A.sample(20 if not c['num'] else c['num']))
            if not e:
                smp = [[cell(i, x) for i, x in enumerate(s)] for s in r]
                ev['smp'] = smp[:20]
                if c['num']:
                    ev['freq'] = [[sum(1 for s in smp if s[i] == k) for k in range(1, (2 * v['n'] + 1 if v['kind'] == 'num' else v['n']) + 1)]
                                  for i, v in enumerate(VS)]
            ev['exc'], ev['none'] = e, False
            note(ev)
        elif o == 'seqfit':
            def as_array(rows):
                if all(v['kind'] == 'num' for v in VS):
                    return np.array(rows, dtype=np.float64)
                a = np.empty((len(rows), nv), dtype=object)
                for j, r in enumerate(rows):
                    for i, x in enumerate(r):
                        a[j, i] = x
                return a

            def fit():
                P = c['P']
                if not c['refit'] or chain[0] is None:
                    kw = {'targets': [variables[i - 1] for i in P['targets']]} if P['targets'] else {}
                    chain[0] = SequentialJPT(JPT(variables, min_samples_leaf=P['msl'], min_impurity_improvement=unq(P['mii']), **kw))
                chain[0].fit([as_array(rows_of(s)) for s in c['seqs']], timesteps=c['steps'])
                return seq_model()
            r, e = attempt(fit)
            if e:
                chain[0] = None
            note(dict(r or {'trans': [], 'leaves': []}, op='seqfit', seqs=c['seqs'], steps=c['steps'], refit=c['refit'], exc=e))
        elif o == 'seqjson':
            if chain[0] is None:
                continue

            def f():
                chain[0] = SequentialJPT.from_json(json.loads(json.dumps(chain[0].to_json())))
                return seq_model()
            r, e = attempt(f)
            if e:
                chain[0] = None
            note(dict(r or {'trans': [], 'leaves': []}, op='seqjson', exc=e))
        elif o == 'seqask':
            if chain[0] is None:
                continue
            t = chain[0].template_tree
            es = [evidence(t, x, st) for x, st in zip(c['es'], c['styles'])]
            before, mb = [deep(x) for x in es], seq_model()

            def f():
                return [[{'i': int(k), 'w': q(float(lf.prior)), 'd': [dist(i, lf.distributions[v]) for i, v in enumerate(mine(x))]}
                         for k, lf in x.leaves.items()] for x in chain[0].independent_marginals(es)]
            r, e = attempt(f)
            same = before == [deep(x) for x in es] and seq_model() == mb
            r2, e2 = attempt(f)
            note({'op': 'seqask', 'es': c['es'], 'res': r or [], 'exc': e}, args=same, again=(r, e) == (r2, e2))
        elif o == 'pair':
            B = reg[c['b'] - 1]
            r, e = attempt(lambda: bool(A == B))
            note({'op': 'pair', 'a': c['a'], 'b': c['b'], 'eq': bool(r), 'exc': e})
        else:
            raise ValueError(o)
    try:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    except OSError:
        pass
    V = []
    for v in VS:
        if v['kind'] == 'num':
            g, sc = v['grid'], (q(1 / unq(v['s'])) if v['m'] else '1')
        else:
            g, sc = ([str(x) for x in v['labels']] if v['kind'] == 'int' else []), '1'
        V.append({'kind': v['kind'], 'n': v['n'], 'grid': g, 'inv': bool(v.get('inv')), 'scale': sc, 'eps': v['eps'] or '1/100'})
    return {'id': hist['id'], 'k': hist['k'], 'V': V, 'strict': bool(hist.get('strict')), 'ev': evs}


# ------------------------------------------------------------------------------------------------------- generation
def concrete(ctx, h, rng, hid, kind):
    """A history of the specification's generator with concrete domains and call forms."""
    VS = []
    for v in h['V']:
        v = dict(v, m='', s='', eps='', inv=False, grid=[], labels=[])
        if v['kind'] == 'num':
            step, start = rng.choice(((1., 0.), (.5, -2.), (2., -7.), (.25, 3.), (16., 1024.)))
            v['grid'] = [q(start + step * k) for k in range(v['n'])]
            v['eps'] = rng.choice(('', '1/1000', '1/1000000', '1/10'))
            if rng.random() < .25:
                v['m'], v['s'] = q(start + step), q(rng.choice((.5, 2., 4.)))
        elif v['kind'] == 'sym':
            v['labels'] = rng.choice(SYM)[:v['n']]
            v['inv'] = rng.random() < .1
        else:
            a = rng.choice((0, 1, -2, 7))
            v['labels'] = list(range(a, a + v['n']))
        VS.append(v)
    nv = len(VS)

    def params(P):
        P = dict(P)
        allv = list(range(1, nv + 1))
        P['tset'] = bool(P['targets']) and P['full'] > 2
        P['fset'] = bool(P['features']) and P['full'] > 1
        targets = P['targets'] if P['tset'] else allv
        if P['fset']:
            feats = P['features']
        elif P['tset']:
            feats = [i for i in allv if i not in targets]
        else:
            feats = allv
        P['dset'] = P['usedeps'] == 1 and bool(feats)
        P['targets'], P['features'] = sorted(targets), sorted(feats)
        # every variable that may be split on must be said to influence something
        P['deps'] = [sorted(set(P['deps'][i - 1]) & set(targets)) or sorted(targets) if P['dset'] else sorted(targets) for i in allv]
        if P['frac']:
            P['msl'] = 1
        return P

    def rand_row(full=True):
        return [(2 * rng.randint(1, v['n']) if v['kind'] == 'num' else rng.randint(1, v['n'])) if full or rng.random() < .6 else 0 for v in VS]

    cmds = []
    for c in h['ops']:
        c = dict(c, style=rng.randrange(60))
        for k in ('e', 'q'):
            if k in c:
                for x in c[k]:
                    if x['t'] == 'lab':
                        x['s'] = sorted(x['s'])
        if c['op'] == 'learn':
            c['P'] = params(c['P'])
            c['refit'] = rng.random() < .1
            cmds.append(c)
        elif c['op'] != 'ask':
            c['fail'] = rng.random() < .8
            cmds.append(c)
            if c['op'] in ('cond', 'prune', 'dup') and rng.random() < .5:
                cmds.append({'op': 'posterior', 'a': c['t'], 'vars': list(range(1, nv + 1)), 'all': True, 'fail': True, 'style': 0,
                             'e': [{'t': 'none'}] * nv})
        else:
            st = lambda: rng.randrange(60)
            fail = lambda: rng.random() < .8
            none = [{'t': 'none'}] * nv
            vs = sorted(c['vars'])
            al = rng.random() < .3
            base = {'a': c['a'], 'e': c['e']}
            cmds.append(dict(base, op='infer', q=c['q'], style=st(), fail=fail()))
            cmds.append(dict(base, op='infer', q=c['e'], e=c['q'], style=st(), fail=fail()))
            cmds.append({'op': 'infer', 'a': c['a'], 'q': c['q'], 'e': none, 'style': st(), 'fail': fail()})
            cmds.append(dict(base, op='posterior', vars=list(range(1, nv + 1)) if al else vs, all=al, style=st(), fail=fail()))
            k = c['salt'] % 8
            if k in (0, 1):
                ex = rng.random() < .3
                cmds.append(dict(base, op='expectation', vars=[i + 1 for i in range(nv) if c['e'][i]['t'] == 'none'] if ex else vs, all=ex,
                                 style=st(), fail=fail()))
            elif k == 2:
                cen = [q(unq(v['grid'][rng.randrange(v['n'])])) if v['kind'] == 'num' else str(rng.choice(v['labels'])) if v['kind'] == 'int' else '0'
                       for v in VS] if rng.random() < .6 else ['0'] * nv
                cmds.append(dict(base, op='moment', order=c['order'], c=cen, style=st(), fail=fail()))
            elif k in (3, 4):
                cmds.append(dict(base, op='mpe', style=st(), fail=fail()))
            elif k == 5:
                cmds.append(dict(base, op='kmpe', kk=rng.choice((0, 0, 1, 2, 4)), style=st(), fail=fail()))
            elif k == 6:
                cmds.append({'op': 'pdf', 'a': c['a'], 'x': rand_row(rng.random() < .5), 'style': st()})
                cmds.append({'op': 'likelihood', 'a': c['a'], 'rows': [rand_row() for _ in range(4)], 'dirac': rng.choice(('1', '2', '1/2')), 'style': st()})
            else:
                cmds.append({'op': 'sample', 'a': c['a'], 'num': 0 if rng.random() < .7 else 1500})
                cmds.append({'op': 'pair', 'a': c['a'], 'b': c['b']})
    return {'id': hid, 'k': h['k'], 'V': VS, 'cmds': cmds}


def num(n, **kw):
    return dict({'kind': 'num', 'n': n, 'grid': [str(k) for k in range(n)], 'm': '', 's': '', 'eps': '', 'inv': False, 'labels': []}, **kw)


def learn_cmd(nv, rows, t=1, **P):
    """a learn command as concrete() makes them"""
    allv = list(range(1, nv + 1))
    p = {'targets': allv, 'features': allv, 'tset': False, 'fset': False, 'dset': False, 'msl': 1, 'frac': '', 'mii': '0', 'md': -1,
         'close': False, 'keep': False, 'form': 'rows'}
    p.update(P)
    p.setdefault('deps', [p['targets']] * nv)
    return {'op': 'learn', 't': t, 'rows': rows, 'P': p, 'style': 1, 'refit': False}


# the histories of the known findings
KNOWN_LEARN = [
    {'id': 'known-c09-mean', 'k': 1, 'strict': True, 'V': [num(11), num(3), num(3), num(3)],
     'cmds': [learn_cmd(4, [[2, 2, 2, 2], [6, 6, 2, 6], [18, 2, 6, 2], [22, 6, 6, 6]], targets=[1, 2], features=[3, 4], tset=True, fset=True, md=1)]},
]


def gen_learn(ctx):
    return KNOWN_LEARN + [concrete(ctx, h, ctx.rng('tl%d' % i), 'tl-%d' % i, 'learn')
            for i, h in enumerate(ctx.behaviours('TreeGen', 'TreeGenL', simulate=ctx.n(250, 4000), depth=6))]


def gen_ask(ctx):
    return [concrete(ctx, h, ctx.rng('ta%d' % i), 'ta-%d' % i, 'ask')
            for i, h in enumerate(ctx.behaviours('TreeGen', 'TreeGenA', simulate=ctx.n(150, 2500), depth=20))]


STAGES = {
    'learn': Stage('learn', gen_learn, execute, 'TreeTrace', timeout=240,
                   note='tables and parameters simulated from TreeGen, learnt by the real JPT.learn; every split, leaf and prior judged'),
    'ask': Stage('ask', gen_ask, execute, 'TreeTrace', timeout=240,
                 note='operation histories simulated from TreeGen: learning, copying, conditioning, pruning, reweighting and every kind of question'),
}
