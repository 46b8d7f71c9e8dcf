#!/opt/venv/bin/python
"""./run.py check C01 [--tier quick|thorough] | replay FILE | list"""
import os, sys

ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'TZ': 'UTC', 'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8',
       'PYTHONWARNINGS': 'ignore', 'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': '/nonexistent'}


def main():
    if os.environ.get('VERIF_CLEAN') != '1':
        env = dict(ENV)
        for k in ('VERIF_SEED', 'VERIF_TIER', 'VERIF_REPO', 'VERIF_WORKERS', 'VERIF_SCALE', 'VERIF_FIRST', 'VERIF_COV'):
            if k in os.environ:
                env[k] = os.environ[k]
        env['VERIF_CLEAN'] = '1'
        os.execve(sys.executable, [sys.executable, '-s', '-B', os.path.abspath(__file__)] + sys.argv[1:], env)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    os.umask(0o022)
    from harness import core
    cmd = sys.argv[1]
    if cmd == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in sys.argv:
            tier = sys.argv[sys.argv.index('--tier') + 1]
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        sys.exit(core.check(sys.argv[2], tier, seed))
    elif cmd == 'replay':
        sys.exit(core.replay(sys.argv[2]))
    else:
        sys.exit(__doc__)


if __name__ == '__main__':
    main()
