"""Conformance stage for the priority queue."""
from vlib.core import Stage
from vlib.proj import attempt


def execute(hist):
    import copy
    from jpt.base.utils import Heap
    mode = hist['mode']

    class Item:                         # equal by identity of content, not ordered
        def __init__(self, i, k):
            self.id, self.k = i, k

        def __eq__(self, o):
            return isinstance(o, Item) and (self.id, self.k) == (o.id, o.k)
    key = {'item': lambda x: x.k, 'neg': lambda x: -x[1], 'pair': lambda x: x[0], 'tuple': None, 'str': lambda s: s[0]}[mode]

    def mk(i, k):
        return {'item': lambda: Item(i, k), 'neg': lambda: (i, -k), 'pair': lambda: [k / 2, i], 'tuple': lambda: (k, i),
                'str': lambda: '%s-%d' % ('abcdefghij'[k], i)}[mode]()

    def un(x):
        if mode == 'item':
            return {'id': x.id, 'key': x.k}
        if mode == 'neg':
            return {'id': x[0], 'key': -x[1]}
        if mode == 'pair':
            return {'id': x[1], 'key': int(x[0] * 2)}
        if mode == 'tuple':
            return {'id': x[1], 'key': x[0]}
        return {'id': int(x[2:]), 'key': 'abcdefghij'.index(x[0])}
    evs, H = [], None

    def note(ev):
        n = len(H)
        ev.update(items=[un(x) for x in H], len=n, truth=bool(H), rev=[un(x) for x in reversed(H)], at=[un(H[i]) for i in range(n)])
        evs.append(ev)
    for c in hist['cmds']:
        o = c['op']
        if o == 'new':
            data = [mk(i, k) for i, k in c['data']]
            form = c['form']
            arg = None if form == 'none' else tuple(data) if form == 'tuple' else (x for x in data) if form == 'gen' else data
            kw = {} if key is None else {'key': key}
            if c['inc'] != 1:
                kw['inc'] = c['inc']
            H, e = attempt(lambda: Heap(arg, **kw))
            note({'op': 'new', 'exc': e, 'data': [{'id': i, 'key': k} for i, k in c['data']]})
        elif o == 'push':
            _, e = attempt(H.push, mk(c['id'], c['key']))
            note({'op': 'push', 'exc': e, 'x': {'id': c['id'], 'key': c['key']}})
        elif o == 'pop':
            x, e = attempt(H.pop)
            note({'op': 'pop', 'exc': e, 'x': un(x) if not e else {}})
        elif o == 'delete':
            def f():
                n = len(H)
                del H[c['i'] - 1 - n if c['back'] and c['i'] <= n else c['i'] - 1]
            _, e = attempt(f)
            note({'op': 'delete', 'exc': e, 'i': c['i']})
        elif o == 'remove':
            x = {'id': c['id'], 'key': c['key']} if c['i'] == 0 or c['i'] > len(H) else un(H[c['i'] - 1])

            def f():
                del H[H.index(mk(x['id'], x['key']))]
            _, e = attempt(f)
            note({'op': 'remove', 'exc': e, 'x': x})
        elif o == 'drain':
            G, out = H, []
            while G and len(out) < 100:
                x, e = attempt(G.pop)
                if e:
                    break
                out.append(un(x))
            evs.append({'op': 'drain', 'all': out, 'items': [un(x) for x in H]})
    return {'id': hist['id'], 'ev': evs}


def gen(ctx):
    out = []
    for i, h in enumerate(ctx.behaviours('HeapGen', 'HeapGen', simulate=ctx.n(300, 6000), depth=31)):
        rng = ctx.rng('heap%d' % i)
        m = rng.choice((0, 0, 1, 4, 9, 15))
        cmds = [{'op': 'new', 'data': [[1000 + j, rng.randint(1, 9)] for j in range(m)], 'inc': rng.choice((1, 1, -1)),
                 'form': rng.choice(('list', 'tuple', 'gen')) if m else rng.choice(('none', 'list'))}]
        for c in h['ops']:
            c = dict(c)
            if c['op'] == 'delete':
                c['back'] = rng.random() < .3
                c['i'] = rng.randint(1, 14) if rng.random() < .3 else c['i']
                if rng.random() < .4:
                    c = {'op': 'remove', 'i': c['i'] if rng.random() < .9 else 0, 'id': 5000, 'key': 3}
            cmds.append(c)
        cmds.append({'op': 'drain'})
        out.append({'id': 'h-%d' % i, 'mode': rng.choice(('item', 'neg', 'pair', 'tuple', 'str')), 'cmds': cmds})
    return out


STAGES = {
    'heap': Stage('heap', gen, execute, 'HeapTrace', timeout=200,
                  note='operation histories simulated from HeapGen, replayed on heaps of differently keyed items'),
}
