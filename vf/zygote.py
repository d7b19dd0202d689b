"""A process that has imported the translator and never used it: every request runs in a fresh child of it."""
import json
import os
import signal
import tempfile


class Zygote:
    def __init__(self, job):
        """job(request) -> JSON value, run in a child with no history"""
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            try:
                serve(os.fdopen(a), os.fdopen(d, 'w'), job)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = os.fdopen(b, 'w'), os.fdopen(c)

    def run(self, req):
        self.w.write(json.dumps(req) + '\n')
        self.w.flush()
        path = json.loads(self.r.readline())
        try:
            with open(path) as f:
                s = f.read()
        finally:
            os.unlink(path)
        if not s:
            raise RuntimeError('the fresh process died')
        return json.loads(s)


def serve(r, w, job):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    for line in r:
        fd, path = tempfile.mkstemp(dir=os.environ.get('VF_SCRATCH'))
        pid = os.fork()
        if pid == 0:
            try:
                out = json.dumps(job(json.loads(line)))
                with os.fdopen(fd, 'w') as f:
                    f.write(out)
            finally:
                os._exit(0)
        os.close(fd)
        os.waitpid(pid, 0)
        w.write(json.dumps(path) + '\n')
        w.flush()
