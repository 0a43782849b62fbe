#!/opt/venv/bin/python
"""check.py <property id>: decides one property on /repo's working tree."""
import importlib, os, shutil, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if os.environ.get('PYTHONHASHSEED') != '0' or not os.environ.get('PYTHONPYCACHEPREFIX'):
        # never read or write __pycache__ of /repo or /verif
        pyc = tempfile.mkdtemp(prefix='verif_pyc_')
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=pyc,
                   PYTHONWARNINGS='ignore', VERIF_TIER=tier, VERIF_SEED=str(seed), MPLBACKEND='Agg')
        import subprocess
        rc = subprocess.call([sys.executable, os.path.abspath(__file__), prop, tier], env=env)
        shutil.rmtree(pyc, ignore_errors=True)
        return rc
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.setrecursionlimit(5000)
    from lib import harness
    ctx = harness.Context(prop, tier, seed)
    try:
        mod = importlib.import_module('props.' + prop.lower())
        mod.run(ctx)
    except harness.Skip as e:
        ctx.errors.append('skip: %s' % e)
    except BaseException:
        import traceback
        tb = traceback.format_exc()
        if '/repo/' in tb:
            ctx.violate('exception', job='setup', info=tb[-1500:])
        else:
            ctx.errors.append(tb)
    return harness.finish(ctx)


if __name__ == '__main__':
    sys.exit(main())
