"""Runs cases of one property in a process of its own: one JSON case per line in, one JSON result per line out."""
import importlib
import json
import os
import subprocess
import sys
import traceback

from . import core, oracle


def script(path, obs):
    """a dedicated input: a program that fails when the property does not hold on it"""
    from . import common
    ns = {k: v for k, v in vars(common).items() if not k.startswith('__')}
    ns.update(__name__='vf_script', obs=obs)
    try:
        exec(compile(open(path).read(), path, 'exec'), ns)
    except AssertionError:
        raise core.Violation('dedicated input %s: %s' % (os.path.basename(path), traceback.format_exc()[-1500:]))
    obs.add('dedicated inputs')


def main():
    pid = sys.argv[1]
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    os.dup2(2, 1)               # whatever the code under test prints is not a result
    if not os.environ.get('VF_VERBOSE'):
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 2)
        os.dup2(nul, 1)
    try:
        mod = importlib.import_module('vf.props.' + pid.lower())
        core.ct()
        if hasattr(mod, 'setup'):
            mod.setup()
        out.write(json.dumps(dict(hello=pid)) + '\n')
    except BaseException:
        out.write(json.dumps(dict(fatal=traceback.format_exc())) + '\n')
        return 1
    for line in sys.stdin:
        case = json.loads(line)
        obs = core.Obs()
        r = dict(status='ok')
        try:
            if 'script' in case:
                script(case['script'], obs)
            else:
                mod.run(case, obs)
        except core.Violation as e:
            r = dict(status='violation', why=str(e)[:8000])
        except core.Skip as e:
            r = dict(status='skip', why=str(e)[:300])
        except (OSError, MemoryError, subprocess.SubprocessError):
            r = dict(status='error', why=traceback.format_exc()[-3000:])
        except oracle.ProbeError as e:
            r = dict(status='skip', why='the C compiler refuses the program: ' + str(e)[:200])
        except Exception:
            # the oracles below only raise when the code under test hands them something unexpected
            r = dict(status='violation', why='the generated module cannot be observed:\n' + traceback.format_exc()[-3000:])
        except BaseException:
            r = dict(status='error', why=traceback.format_exc()[-3000:])
        r['obs'] = obs.json()
        out.write(json.dumps(r) + '\n')
    return 0


if __name__ == '__main__':
    sys.exit(main())
