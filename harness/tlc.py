'''Running TLC on a batch of cases. Machinery failures raise TlcError.'''

import json
import os
import re
import subprocess
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
BUILD = os.path.join(ROOT, 'build')


class TlcError(RuntimeError):
    'TLC itself failed (not a verdict)'


def ensure_java():
    'compile the arbitrary-precision arithmetic for spec/Dec.tla'
    src = os.path.join(SPEC, 'java', 'Dec.java')
    out = os.path.join(BUILD, 'cls')
    cls = os.path.join(out, 'Dec.class')
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return out
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    subprocess.run(['javac', '-cp', f'{TLA}/tla2tools.jar', '-d', tmp, src], check=True, capture_output=True)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(out, f))
    os.rmdir(tmp)
    return out


class TlcResult:
    'what one TLC run said'

    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        self.verdicts = re.findall(r'^"VERDICT\|(.*)"$', out, re.M)
        self.notes = re.findall(r'^"NOTE\|(.*)"$', out, re.M)
        m = re.findall(r'^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out, re.M)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        self.ok = 'Model checking completed. No error has been found.' in out
        self.violated = re.findall(r'^Error: (?:Invariant|Action property|Temporal property) (\S+) is violated', out, re.M)


def start(module, cfg, env=None, workers=1, heap='1500m', extra=(), timeout=800):
    'start TLC; returns a handle for wait()'
    cls = ensure_java()
    meta = tempfile.mkdtemp(prefix='tlcmeta')
    cmd = ['java', f'-Xmx{heap}', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xss64m',
           f'-Djava.io.tmpdir={meta}',
           '-cp', f'{cls}:{CP}', 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-config', cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    outf = tempfile.TemporaryFile(mode='w+')
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=outf, stderr=subprocess.STDOUT)
    return (p, outf, meta, module, cfg, timeout)


def wait(h, must_complete=True):
    p, outf, meta, module, cfg, timeout = h
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise TlcError(f'TLC timed out on {module} {cfg}')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    outf.seek(0)
    r = TlcResult(outf.read(), rc)
    outf.close()
    if must_complete and not r.ok:
        raise TlcError(f'TLC did not complete on {module} {cfg} (rc {rc}):\n' + r.out[-3000:])
    return r


def run(module, cfg, **kw):
    must = kw.pop('must_complete', True)
    return wait(start(module, cfg, **kw), must)


def run_batch(module, cfg, cases, shards=8, env=None, timeout=800, heap='1500m'):
    '''run a batch specification over cases (a list of JSON-able records), sharded over several TLC processes.
    Each case has an 'id'; verdict lines are "VERDICT|<id>|<clause>|<detail>"'''

    work = tempfile.mkdtemp(prefix='tlcbatch')
    try:
        shards = max(1, min(shards, len(cases)))
        # longest first, round robin
        weights = sorted(range(len(cases)), key=lambda i: -len(json.dumps(cases[i])))
        parts = [[] for _ in range(shards)]
        for k, i in enumerate(weights):
            parts[k % shards].append(cases[i])
        hs = []
        for k, part in enumerate(parts):
            f = os.path.join(work, f'b{k}.json')
            with open(f, 'w') as fh:
                json.dump(part, fh)
            e = dict(env or {})
            e['BATCH'] = f
            hs.append(start(module, cfg, env=e, timeout=timeout, heap=heap))
        rs = []
        err = None
        for h in hs:
            try:
                rs.append(wait(h))
            except TlcError as ex:
                err = ex
        if err is not None:
            raise err
        return rs
    finally:
        shutil.rmtree(work, ignore_errors=True)
