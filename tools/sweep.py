#!/usr/bin/env python3
"""Run the checks against the planted bugs of seeded/.

tools/sweep.py [--tests] [--props own|all|P01,P02] [--jobs N] [id ...]

Each bug runs in copies of /repo and /verif that a user namespace of its own mounts over the originals;
nothing outside the scratch folder is changed. Prints for each bug: applies, build, tests, demo without and with
the bug, and the checks that report a violation (exit 1 and the line) or do something else.
"""
import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRIPT = r'''
set -e
mount --bind "$W/repo" /repo
mount --bind "$W/verif" /verif
set +e
cd /repo
out() { echo "$@" >> "$W/out"; }
bash "$W/bug/demo.sh" > "$W/demo0" 2>&1; out demo0 $?
git apply "$W/bug/patch.diff" || { out apply 1; exit 0; }
bash /opt/vp/build.sh > "$W/build" 2>&1; out build $?
if [ -n "$TESTS" ]; then
  bash /opt/vp/test.sh "$W/t.json" > "$W/test" 2>&1
  out tests $(python3 -c "import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$W/t.json'));print(len(set(b['stable'])-set(o['passed'])))")
fi
bash "$W/bug/demo.sh" > "$W/demo1" 2>&1; out demo1 $?
cd /verif
for p in $PROPS; do
  ./check $p --tier quick > "$W/check" 2>&1; r=$?
  if [ $r = 1 ] && grep -q "^VIOLATION property=$p " "$W/check"; then out check $p caught; 
  elif [ $r != 0 ]; then out check $p rc=$r; tail -5 "$W/check" >> "$W/odd"; fi
done
'''


def one(bug, args, props):
    d = os.path.join(HERE, 'seeded', bug)
    w = tempfile.mkdtemp(prefix='sweep-')
    try:
        shutil.copytree('/repo', w + '/repo', symlinks=True)
        shutil.copytree(HERE, w + '/verif', symlinks=True, ignore=shutil.ignore_patterns('seeded'))
        os.makedirs(w + '/bug')
        for f in os.listdir(d):
            shutil.copy(os.path.join(d, f), w + '/bug')
        own = json.load(open(d + '/meta.json'))['property']
        ps = props if args.props == 'all' else [own] if args.props == 'own' else [] if args.props == 'none' else args.props.split(',')
        env = dict(os.environ, W=w, PROPS=' '.join(ps), TESTS='1' if args.tests else '', VERIF_SEED='1')
        subprocess.run(['unshare', '-Urm', 'bash', '-c', SCRIPT], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = {'bug': bug, 'property': own, 'checks': {}}
        for l in open(w + '/out'):
            k, *v = l.split()
            if k == 'check':
                r['checks'][v[0]] = v[1]
            else:
                r[k] = int(v[0])
        for f in ('odd',) + (('demo0',) if r.get('demo0') else ()):
            if os.path.exists(w + '/' + f):
                r['odd'] = r.get('odd', '') + open(w + '/' + f).read()[-600:]
        return r
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--tests', action='store_true')
    ap.add_argument('--props', default='own')
    ap.add_argument('--jobs', type=int, default=3)
    args = ap.parse_args()
    props = [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
    ids = args.ids or sorted(os.listdir(HERE + '/seeded'))
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as ex:
        for r in ex.map(lambda b: one(b, args, props), ids):
            good = (r.get('demo0') == 0 and r.get('build') == 0 and r.get('demo1', 0) != 0 and r.get('tests', 0) == 0)
            print('%-28s %s %s %s' % (r['bug'], r['property'], 'ok' if good else 'BAD ' + str({k: r.get(k) for k in (
                'apply', 'build', 'tests', 'demo0', 'demo1')}), ' '.join('%s:%s' % x for x in r['checks'].items()) or 'NOT CAUGHT'))
            for k in ('odd',):
                if k in r:
                    print('   ', r[k])
            sys.stdout.flush()


if __name__ == '__main__':
    main()
