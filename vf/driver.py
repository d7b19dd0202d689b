"""check <property> --tier quick|thorough [--replay FILE] [--case JSON]"""
import argparse
import collections
import hashlib
import importlib
import itertools
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python'


class WorkerDied(Exception):
    pass


class CaseTimeout(Exception):
    pass


class Worker:
    def __init__(self, pid, env):
        self.pid, self.env = pid, env
        self.p = None

    def start(self):
        self.p = subprocess.Popen([PY, '-m', 'vf.worker', self.pid], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=self.env, cwd=self.env['VF_SCRATCH'], start_new_session=True)
        self.buf = b''
        h = self.read(120)
        if 'fatal' in h:
            self.stop()
            raise RuntimeError(h['fatal'])

    def read(self, timeout):
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise CaseTimeout()
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if not r:
                continue
            d = os.read(fd, 1 << 16)
            if not d:
                self.p.wait()
                raise WorkerDied('signal %d' % -self.p.returncode if self.p.returncode < 0
                                 else 'exit status %d' % self.p.returncode)
            self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def run(self, case, timeout):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(case).encode() + b'\n')
            self.p.stdin.flush()
            return self.read(timeout)
        except BrokenPipeError:
            self.p.wait()
            self.kill()
            raise WorkerDied('died')
        except (WorkerDied, CaseTimeout):
            self.kill()
            raise

    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            self.p.wait()
            self.p.stdout.close()
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p = None

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                pass
            self.kill()


def judge(worker, case, timeout):
    """result of a case; a process that dies or never answers is asked again, alone"""
    try:
        return worker.run(case, timeout)
    except WorkerDied as e:
        first = str(e)
    except CaseTimeout:
        first = None
    w = Worker(worker.pid, worker.env)
    try:
        return w.run(case, timeout * 3)
    except WorkerDied as e:
        return dict(status='violation', why='the process dies (%s) on this case' % e, obs={})
    except CaseTimeout:
        return dict(status='violation' if first is None else 'error',
                    why='no answer in %d s, twice' % (timeout * 3), obs={})
    finally:
        w.stop()


def known_entries(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                name, what = rest.split(' ', 1)
                out.append((name.split('=', 1)[1], what))
    return out


def load_mod(pid):
    sys.path.insert(0, HERE)
    return importlib.import_module('vf.props.' + pid.lower())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument('--max', type=int, default=0)
    ap.add_argument('--budget', type=float, default=0)
    ap.add_argument('--all-violations', action='store_true')
    a = ap.parse_args()
    pid = a.property
    mod = load_mod(pid)
    t0 = time.time()
    root = tempfile.mkdtemp(prefix='vf-%s-' % pid.lower())
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'VERIF_', 'VF_'))}
    env.update(PYTHONPATH='%s:%s' % (REPO, HERE), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONPYCACHEPREFIX=os.path.join(root, 'pyc'), VF_SCRATCH=root, TMPDIR=root, VF_REPO=REPO,
               VF_TIER=a.tier, LC_ALL='C.UTF-8', HOME=root)
    if a.replay or a.case:
        env['VF_VERBOSE'] = '1'
    try:
        rc = go(a, pid, mod, env, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return rc


def go(a, pid, mod, env, t0):
    timeout = getattr(mod, 'TIMEOUT', 60)
    if a.replay or a.case:
        case = json.loads(a.case) if a.case else json.load(open(a.replay))['case']
        w = Worker(pid, env)
        r = judge(w, case, timeout)
        w.stop()
        print(json.dumps({k: v for k, v in r.items() if k != 'why'})[:2000])
        print(r.get('why', ''))
        if r['status'] == 'violation':
            print('VIOLATION property=%s replay=%s' % (pid, a.replay or '-'))
        return {'ok': 0, 'skip': 0, 'violation': 1}.get(r['status'], 2)

    known = known_entries(pid)
    cap = a.budget or getattr(mod, 'BUDGET', {}).get(a.tier) or (150 if a.tier == 'quick' else 780)
    gen = mod.cases(a.tier, a.seed)
    if a.max:
        gen = itertools.islice(gen, a.max)
    lock = threading.Lock()
    st = dict(evaluations=0, ok=0, skip=0, error=0)
    counts = collections.Counter()
    keys, cases = set(), set()
    samples, viol, errors, skips = [], [], [], collections.Counter()
    stop = threading.Event()

    def feed():
        with lock:
            if stop.is_set() or time.time() - t0 > cap:
                if not stop.is_set():
                    st['budget_end'] = True
                return None
            return next(gen, None)

    def loop():
        w = Worker(pid, env)
        try:
            while True:
                case = feed()
                if case is None:
                    break
                r = judge(w, case, timeout)
                with lock:
                    st['evaluations'] += 1
                    o = r.get('obs') or {}
                    for k, v in (o.get('n') or {}).items():
                        counts[k] += v
                    s = r['status']
                    if s == 'violation':
                        viol.append((case, r['why']))
                        if len(viol) >= (50 if a.all_violations else 3):
                            stop.set()
                    else:
                        st[s] = st.get(s, 0) + 1
                        if s == 'ok':
                            if o.get('keys'):
                                keys.update(o['keys'])
                                cases.add(hashlib.sha1(repr(sorted(o['keys'])).encode()).digest()[:10])
                            if o.get('sample') is not None and len(samples) < 4:
                                samples.append(dict(case=case, observed=o['sample']))
                        elif s == 'skip':
                            skips[r['why'][:80].split('\n')[0]] += 1
                        else:
                            errors.append((case, r['why']))
                            if len(errors) > 20:
                                stop.set()
        except Exception as e:
            with lock:
                errors.append((None, repr(e)[:3000]))
                stop.set()
        finally:
            w.stop()

    ths = [threading.Thread(target=loop) for _ in range(a.jobs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    # dedicated inputs: constructs the code is known not to handle, and inputs that were repaired
    kdir = os.path.join(HERE, 'known', pid)
    names = sorted(f for f in os.listdir(kdir) if f.endswith(('.json', '.py'))) if os.path.isdir(kdir) else []
    listed = dict(known)
    kres = {}
    if names and not a.max:
        w = Worker(pid, env)
        for f in names:
            n = f.rsplit('.', 1)[0]
            f = os.path.join(kdir, f)
            case = dict(script=f) if f.endswith('.py') else json.load(open(f))
            r = judge(w, case, timeout)
            kres[n] = r['status']
            st['evaluations'] += 1
            if r['status'] == 'violation':
                if n in listed:
                    print('KNOWN-FINDING: property=%s case=%s %s' % (pid, n, listed[n]))
                else:
                    viol.append((case, r['why']))
            elif r['status'] == 'error':
                errors.append((case, r['why']))
        w.stop()

    vio_dir = os.path.join(HERE, 'evidence', 'replay')
    paths = []
    for case, why in viol[:3]:
        os.makedirs(vio_dir, exist_ok=True)
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(vio_dir, '%s-%s.json' % (pid, h))
        with open(p, 'w') as f:
            json.dump(dict(property=pid, case=case, why=why, seed=a.seed, tier=a.tier), f, indent=1)
        paths.append((p, why))

    cov = dict(evaluations=st['evaluations'], distinct_nontrivial=len(cases), distinct_observations=len(keys), rule=mod.RULE,
               samples=samples or ['none'], held=st['ok'], skipped=st['skip'],
               skip_reasons=dict(skips.most_common(6)), observed=dict(sorted(counts.items())),
               repaired_or_known_inputs=kres, stopped_by_time_budget=bool(st.get('budget_end')))
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level=getattr(mod, 'LEVEL', 'exploration'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))

    print('%s %s seed=%d: %d cases, %d held, %d skipped, %d distinct, %d errors, %d violations, %.1f s' % (
        pid, a.tier, a.seed, st['evaluations'], st['ok'], st['skip'], len(cases), len(errors), len(viol),
        time.time() - t0))
    if viol:
        for p, why in paths:
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('   ' + why[:1500].replace('\n', '\n   '))
        return 1
    if errors:
        print('INCONCLUSIVE: harness errors: %s' % (errors[0],))
        return 2
    if st['ok'] == 0 or not keys or not counts:
        print('INCONCLUSIVE: nothing was observed')
        return 2
    if st['skip'] > 0.6 * max(1, st['evaluations']):
        print('INCONCLUSIVE: too many cases decided nothing: %s' % dict(skips.most_common(3)))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
