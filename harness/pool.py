'''Runs jobs of the code under test in isolated worker processes with a time limit per job.'''

import base64
import json
import os
import pickle
import queue
import select
import shutil
import subprocess
import tempfile
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('HYLAA_REPO', '/repo')
PY = '/opt/venv/bin/python'


def env():
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
             OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
    return e


class Worker:
    'one worker process, restarted when it dies or hangs'

    def __init__(self, work):
        self.p = None
        self.buf = b''
        self.work = work

    def start(self):
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env(), cwd=self.work)
        self.buf = b''

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def call(self, fn, args, timeout):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        line = base64.b64encode(pickle.dumps((fn, args))) + b'\n'
        try:
            self.p.stdin.write(line)
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            return {'status': 'crash', 'exc': 'process died', 'kind': 'crash', 'log': []}
        import time
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                return {'status': 'hang', 'exc': f'no result within {timeout} s', 'kind': 'hang', 'log': []}
            rd, _, _ = select.select([fd], [], [], left)
            if rd:
                data = os.read(fd, 1 << 20)
                if not data:
                    rc = self.p.wait()
                    self.stop()
                    return {'status': 'crash', 'exc': f'process died ({rc})', 'kind': 'crash', 'log': []}
                self.buf += data
        out, self.buf = self.buf.split(b'\n', 1)
        return json.loads(out)


def run_jobs(jobs, workers=8, timeout=60):
    '''jobs: list of (fn, args). Returns the list of results in order.'''

    res = [None] * len(jobs)
    todo = queue.Queue()
    for i in range(len(jobs)):
        todo.put(i)
    work = tempfile.mkdtemp(prefix='hylaawork')
    bad = [0]

    def loop():
        w = Worker(work)
        try:
            while True:
                try:
                    i = todo.get_nowait()
                except queue.Empty:
                    return
                if bad[0] >= 6:
                    # the code hangs or dies again and again: enough has been seen
                    res[i] = {'status': 'skipped', 'log': []}
                    continue
                res[i] = w.call(jobs[i][0], jobs[i][1], timeout)
                if res[i]['status'] in ('hang', 'crash'):
                    bad[0] += 1
        finally:
            w.stop()

    ts = [threading.Thread(target=loop) for _ in range(min(workers, len(jobs)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(work, ignore_errors=True)
    return res
