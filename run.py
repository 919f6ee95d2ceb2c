#!/opt/venv/bin/python
"""Entry point: run.py <PROPERTY> [quick|thorough] [--replay FILE] [--jobs N]

Re-executes itself with a pinned interpreter environment (fixed hash seed, no
bytecode written to or read from /repo), then hands over to mc.core.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def main():
    if os.environ.get('MC_CHILD') != '1':
        env = {
            'PATH': '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',
            'HOME': os.environ.get('HOME', '/root'),
            'LC_ALL': 'C.UTF-8',
            'PYTHONHASHSEED': '0',
            'PYTHONDONTWRITEBYTECODE': '1',
            'MC_CHILD': '1',
            'VERIF_SEED': os.environ.get('VERIF_SEED', '1'),
            'VERIF_TIER': os.environ.get('VERIF_TIER', 'quick'),
            'MC_REPO': os.environ.get('MC_REPO', '/repo'),
            'TZ': 'UTC',
        }
        import tempfile
        scratch = tempfile.mkdtemp(prefix='mc-%s-' % (
            sys.argv[1] if len(sys.argv) > 1 else 'x'))
        env['MC_SCRATCH'] = scratch
        env['TMPDIR'] = scratch
        env['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')
        import subprocess
        import shutil
        try:
            rc = subprocess.call([PY, '-W', 'ignore', os.path.join(HERE, 'run.py')]
                                 + sys.argv[1:], env=env, cwd=scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc if rc >= 0 else 2)
    sys.path.insert(0, HERE)
    from mc import core
    sys.exit(core.main(sys.argv[1:]))


if __name__ == '__main__':
    main()
