"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    output = ''


def scratch():
    base = os.environ.get('TMPDIR') or '/tmp'
    return tempfile.mkdtemp(prefix='ionverif.', dir=base)


def run(module, config, env=None, workers=8, timeout=600, heap='12g', extra=(), keep_output=False):
    """Runs TLC on spec/<module>.tla with the given configuration text.

    Returns a dict: lines printed as records (lists from PrintT(<<"V", ...>>)), states,
    distinct, seconds, violated (name of an invariant) and the raw output.
    """
    work = scratch()
    try:
        cfg = os.path.join(work, module + '.cfg')
        with open(cfg, 'w') as f:
            f.write(config)
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + heap, '-cp', CP, 'tlc2.TLC',
               '-workers', str(workers), '-deadlock', '-noTE', '-metadir', os.path.join(work, 'states'),
               '-config', cfg] + list(extra) + [os.path.join(SPEC, module + '.tla')]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired as exc:
            raise TlcError('TLC timed out after %ss on %s: %s' % (timeout, module, (exc.stdout or b'')[-2000:]))
        out = p.stdout.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(work, ignore_errors=True)
    res = {'output': out, 'seconds': time.time() - t0, 'rc': p.returncode, 'records': [], 'states': 0,
           'distinct': 0, 'violated': None}
    for line in out.splitlines():
        if line.startswith('"@@'):
            # PrintT of a string: TLC quotes it and escapes quotes
            s = json.loads(line)[2:]
            res['records'].append(json.loads(s))
    m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
    if m:
        res['states'] = int(m[-1][0].replace(',', ''))
        res['distinct'] = int(m[-1][1].replace(',', ''))
    m = re.search(r'Invariant (\S+) is violated', out) or re.search(r'property (\S+) is violated', out) \
        or re.search(r'Action property (\S+) is violated', out)
    if m:
        res['violated'] = m.group(1)
    if p.returncode != 0 and not res['violated']:
        told = '\n'.join(l for l in out.splitlines() if l and not l.startswith(('Parsing', 'Semantic proc', 'Linting', '"@@')))
        exc = TlcError('TLC failed (%d) on %s:\n%s' % (p.returncode, module, told[:3000]))
        exc.output = out
        raise exc
    return res
