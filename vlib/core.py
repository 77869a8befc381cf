"""The check of one property: build, model-check the design, execute histories on the real code, validate the
recorded traces against the specification, compare with the known findings, write the evidence."""
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import zlib
from concurrent.futures import ThreadPoolExecutor

from . import build as _build
from . import tlc
from .build import MachineryError, PY

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8


class Stage:
    """A source of histories, the code that executes them, and the trace specification that judges them.

    gen(ctx) -> list of histories ({'id': ..., ...}); execute(history) -> {'id':..., 'ev': [...], ...} (runs in the
    project's interpreter); trace: name of the trace specification; clauses: the clauses that belong to the property
    (None: all)."""

    def __init__(self, name, gen, execute, trace, timeout=300, note=''):
        self.name, self.gen, self.execute, self.trace, self.timeout, self.note = name, gen, execute, trace, timeout, note


class Model:
    """A design-level model-checking run: spec/<module>.tla with spec/<cfg>.cfg must satisfy its invariants."""

    def __init__(self, module, cfg=None, tier=None, extra=(), note=''):
        self.module, self.cfg, self.tier, self.extra, self.note = module, cfg or module, tier, extra, note


class Ctx:
    def __init__(self, pid, tier, seed, scratch, classes):
        self.pid, self.tier, self.seed, self.scratch, self.classes = pid, tier, seed, scratch, classes
        self.states = self.transitions = 0
        self.cmds = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, salt=''):
        return random.Random('%s//%s' % (self.seed, salt))

    def account(self, r, what):
        self.states += r.distinct or r.generated
        self.transitions += r.generated
        self.cmds.append('%s: %d states, %d transitions' % (what, r.distinct or r.generated, r.generated))

    def behaviours(self, module, cfg=None, simulate=None, depth=None, timeout=300):
        """Histories generated by TLC from a specification: every "@@H|json" line it prints."""
        extra = []
        if simulate:
            extra = ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(self.seed)]
        work = os.path.join(self.scratch, 'tlc')
        os.makedirs(work, exist_ok=True)
        r = tlc.run(self.classes, work, module, cfg, extra, timeout=timeout, workers=1 if simulate else 8)
        self.account(r, 'generate ' + (cfg or module))
        out, seen = [], set()
        for s in r.lines:
            if s.startswith('@@H|') and s not in seen:
                seen.add(s)
                out.append(json.loads(s[4:]))
        return out


def execute_all(module, stage, hists, src, scratch, timeout):
    """Runs the histories on the real code in SHARDS processes; a history that crashes or hangs its process yields a
    recorded outcome of its own and the rest carries on."""
    work = tempfile.mkdtemp(prefix='exec-', dir=scratch)
    shards = [hists[i::SHARDS] for i in range(SHARDS)]

    def run_shard(k):
        hs = shards[k]
        if not hs:
            return []
        inp, outp = os.path.join(work, '%d.json' % k), os.path.join(work, '%d.out' % k)
        with open(inp, 'w') as f:
            json.dump(hs, f)
        done, skip, deaths = {}, 0, 0
        t_end = time.time() + timeout
        while True:
            proc = subprocess.Popen([PY, os.path.join(ROOT, 'vlib', 'driver.py'), module, stage.name, inp, outp, str(skip)],
                                    env=_build.env(src), cwd=work, stdout=subprocess.DEVNULL, stderr=open(outp + '.err', 'w'),
                                    start_new_session=True)
            how = 'crash'
            try:
                proc.wait(max(1.0, min(t_end - time.time(), timeout)))
            except subprocess.TimeoutExpired:
                how = 'hang'
                os.killpg(proc.pid, 9)
                proc.wait()
            started, finished = None, False
            with open(outp) as f:
                cur = None
                for line in f:
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    if 'start' in rec:
                        cur = rec['start']
                    elif 'end' in rec:
                        finished = True
                    else:
                        done[cur] = rec
                started = cur
            if finished:
                break
            if started is None or started in done:
                raise MachineryError('driver failed outside a history: ' + open(outp + '.err').read()[-3000:])
            err = open(outp + '.err').read()
            if proc.returncode == 1 and 'Traceback' in err:
                raise MachineryError('harness error in history %s:\n%s' % (hs[started]['id'], err[-3000:]))
            done[started] = {'id': hs[started]['id'], 'died': how}
            deaths += 1
            skip = started + 1
            if how == 'hang':
                t_end = time.time() + 60
            if deaths > 5 or skip >= len(hs):
                break
        return [dict(done[i], _src=hs[i]) for i in sorted(done)]

    with ThreadPoolExecutor(SHARDS) as ex:
        res = [r for part in ex.map(run_shard, range(SHARDS)) for r in part]
    shutil.rmtree(work)
    return res


CHUNK = 12_000_000      # bytes of recorded trace per TLC run


def validate(ctx, trace_module, recs):
    """Checks the recorded traces against the trace specification; returns the failed clauses."""
    chunks, size = [[]], 0
    for r in recs:
        txt = json.dumps({k: v for k, v in r.items() if k != '_src'}, ensure_ascii=True)
        if size + len(txt) > CHUNK and chunks[-1]:
            chunks.append([])
            size = 0
        chunks[-1].append((r, txt))
        size += len(txt)
    fails, seen = [], set()
    work = os.path.join(ctx.scratch, 'tlc')
    os.makedirs(work, exist_ok=True)

    def one(args):
        k, chunk = args
        path = os.path.join(work, 'trace-%s-%d.json' % (trace_module, k))
        with open(path, 'w') as f:
            f.write('[' + ',\n'.join(txt for _, txt in chunk) + ']')
        r = tlc.run(ctx.classes, work, trace_module, env={'TRACE_FILE': path}, timeout=820,
                    workers=8 if len(chunks) == 1 else 3, heap='6g' if len(chunks) == 1 else '4g')
        os.remove(path)
        return r

    with ThreadPoolExecutor(1 if len(chunks) == 1 else 3) as ex:
        results = list(ex.map(one, enumerate(chunks)))
    for chunk, r in zip(chunks, results):
        ctx.account(r, 'validate ' + trace_module)
        done = {s[4:] for s in r.lines if s.startswith('@@D|')}
        missing = [x for x, _ in chunk if x['id'] not in done]
        if missing:
            raise MachineryError('trace specification %s does not know how to consume %s: %s' % (
                trace_module, [x['id'] for x in missing][:3], json.dumps([e.get('op') for e in missing[0]['ev']])[:500]))
        for s in r.lines:
            if s.startswith('@@F|') and s not in seen:
                seen.add(s)
                hid, pos, clause, detail = (s[4:].split('|', 3) + [''])[:4]
                fails.append({'history': hid, 'pos': int(pos), 'clause': clause, 'detail': detail})
    return fails


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def run_check(pid, tier, seed, replay=None):
    t0 = time.time()
    from checks.registry import PROPERTIES
    prop = PROPERTIES[pid]
    scratch = tempfile.mkdtemp(prefix='jptv-%s-' % pid, dir='/tmp')
    try:
        src, rebuilt = _build.build(scratch)
        ctx = Ctx(pid, tier, seed, scratch, tlc.compile_overrides(scratch))
        fails, samples, traces, events, stages_cov, by_id = [], [], 0, 0, [], {}
        if replay:
            rep = json.load(open(replay))
        for m in prop['models']:
            if replay or (m.tier and m.tier != tier):
                continue
            work = os.path.join(scratch, 'tlc')
            os.makedirs(work, exist_ok=True)
            r = tlc.run(ctx.classes, work, m.module, m.cfg, m.extra)
            ctx.account(r, 'model ' + m.cfg)
            if not r.distinct and not r.generated:
                raise MachineryError('vacuous model ' + m.cfg)
        for modname, stname in prop['stages']:
            mod = importlib.import_module('checks.' + modname)
            st = mod.STAGES[stname]
            if replay:
                if [modname, stname] != rep['stage']:
                    continue
                hists = [rep['source']]
            else:
                hists = st.gen(ctx)
            ids = [x['id'] for x in hists]
            if len(set(ids)) != len(ids):
                raise MachineryError('duplicate history ids in %s' % stname)
            recs = execute_all(modname, st, hists, src, scratch, st.timeout)
            ok = [r for r in recs if 'died' not in r]
            for r in recs:
                by_id[r['id']] = (modname, stname, r)
                if 'died' in r:
                    fails.append({'history': r['id'], 'pos': 0, 'clause': 'process-' + r['died'], 'detail': r.get('traceback', '')[-600:]})
            got = validate(ctx, st.trace, ok) if ok else []
            want = prop.get('clauses')
            fails += [f for f in got if want is None or any(f['clause'].startswith(w) for w in want)]
            traces += len(ok)
            ne = sum(len(r['ev']) for r in ok)
            events += ne
            stages_cov.append({'stage': stname, 'histories': len(ok), 'events': ne, 'trace_spec': st.trace, 'note': st.note})
            if ok:
                s = min(ok[:50], key=lambda r: abs(len(json.dumps(r)) - 1500))
                txt = json.dumps({k: v for k, v in s.items() if k != '_src'})
                samples.append({'stage': stname, 'history': txt[:3000]})
        known = [k for k in load_known()['findings'] if k['property'] == pid]
        hit, viol = {}, []
        for f in fails:
            for i, k in enumerate(known):
                if k['history'] == f['history'] and f['clause'] in k['clauses']:
                    hit.setdefault(i, []).append(f)
                    break
            else:
                viol.append(f)
        for i, fs in sorted(hit.items()):
            print('KNOWN-FINDING: property=%s %s (history %s: %s)' % (
                pid, known[i]['what'], known[i]['history'], ', '.join(sorted({f['clause'] for f in fs}))))
        rc = 0
        if viol:
            rc = 1
            rdir = os.path.join(ROOT, 'replay')
            os.makedirs(rdir, exist_ok=True)
            for hid in list(dict.fromkeys(f['history'] for f in viol))[:3]:
                fs = [f for f in viol if f['history'] == hid]
                modname, stname, rec = by_id[hid]
                path = os.path.join(rdir, '%s-%08x.json' % (pid, zlib.crc32(hid.encode())))
                with open(path, 'w') as fh:
                    json.dump({'property': pid, 'stage': [modname, stname], 'failed': fs, 'source': rec['_src'],
                               'recorded': {k: v for k, v in rec.items() if k != '_src'}}, fh, indent=1)
                print('VIOLATION property=%s replay=%s' % (pid, path))
                f = fs[0]
                ev = rec.get('ev', [])
                e = json.dumps({k: v for k, v in ev[f['pos'] - 1].items() if k != 'regs'})[:400] if 0 < f['pos'] <= len(ev) else ''
                print('   history %s step %d clause %s: %s | %s' % (hid, f['pos'], f['clause'], f['detail'][:300], e))
            cl = {}
            for f in viol:
                cl.setdefault(f['clause'], set()).add(f['history'])
            print('   failed clauses (number of histories): %s' % {k: len(v) for k, v in sorted(cl.items())})
        if not replay:
            ev = {
                'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
                'coverage': {
                    'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': traces,
                    'events_validated': events, 'stages': stages_cov, 'tlc_runs': ctx.cmds, 'samples': samples,
                    'rebuilt_extensions': rebuilt, 'known_findings_reproduced': len(hit),
                },
                'assumptions': prop.get('assumptions', []),
                'wall_s': round(time.time() - t0, 2),
                'violations': len(viol),
            }
            os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
            with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as fh:
                json.dump(ev, fh, indent=1)
        if rc == 0:
            print('%s: held on %d histories (%d events), %d specification states, %.1f s' % (
                pid, traces, events, ctx.states, time.time() - t0))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
