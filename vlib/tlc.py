"""Running TLC and reading back what it reports."""
import os
import re
import subprocess
import tempfile

from .build import MachineryError

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


def compile_overrides(scratch):
    out = os.path.join(scratch, 'classes')
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(['javac', '-cp', JARS, '-d', out, os.path.join(SPEC, 'java', 'Rat.java')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise MachineryError('javac: ' + r.stdout.decode(errors='replace'))
    return out


class Result:
    def __init__(self, out, rc, cmd):
        self.out, self.rc, self.cmd = out, rc, cmd
        m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out.replace(',', ',')) or \
            re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', out)
        self.generated = self.distinct = 0
        if m:
            self.generated, self.distinct = (int(x.replace(',', '')) for x in m[-1])
        m = re.search(r'The number of states generated: ([\d,]+)', out)      # simulation mode
        if m:
            self.generated = int(m.group(1).replace(',', ''))
        self.ok = 'No error has been found' in out or (m is not None and 'Error:' not in out)
        self.lines = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"@@'):
                s = (line[1:-1] if line.endswith('"') else line[1:]).replace('\\"', '"').replace('\\\\', '\\')
                self.lines.append(s)


def run(classes, workdir, module, cfg=None, extra=(), env=None, timeout=800, workers=8, heap='6g', must_pass=True):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg; workdir takes its metadata."""
    cfg = cfg or module
    meta = tempfile.mkdtemp(prefix='meta-%s-' % cfg, dir=workdir)
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + workdir, '-cp', classes + ':' + JARS,
           '-DTLA-Library=' + SPEC, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers), '-nowarning', '-noGenerateSpecTE',
           '-config', os.path.join(SPEC, cfg + '.cfg'), *extra, os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out on %s' % cfg)
    out = r.stdout.decode(errors='replace')
    res = Result(out, r.returncode, ' '.join(cmd[cmd.index('tlc2.TLC'):]))
    if must_pass and not res.ok:
        first = out.find('Error:')
        raise MachineryError('TLC failed on %s:\n%s\n...\n%s' % (cfg, out[first:first + 600] if first >= 0 else '', '\n'.join(
            x for x in out.splitlines() if not x.startswith(('Parsing', 'Semantic', 'Linting', 'Loading', '"@@')))[-3000:]))
    return res
