"""Runs the programs of /verif/py, which call /repo's Python code."""
import json
import os

from .engine import VERIF, sh
from .run import ProgResult

PYTHON = '/opt/venv/bin/python'


def python(name, what, bounded, only='', limit=700):
    def run(ctx):
        res = ProgResult(f'py/{name}.py' + (f' {only}' if only else ''), what=what,
                         bounded=bounded)
        argv = [PYTHON, f'{VERIF}/py/{name}.py', str(ctx.seed), ctx.tier, only]
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TMPDIR=ctx.scratch)
        rc, out, err = sh(argv if only else argv[:-1], env=env,
                          timeout=2600 if ctx.thorough else limit)
        try:
            r = json.loads(out.strip().split('\n')[-1])
        except Exception:
            # contracts that cannot even be evaluated: pbtools does not import
            # or the program is at fault
            r2, o2, e2 = sh([PYTHON, '-c', 'import sys; sys.path.insert(0, '
                             f'{os.environ.get("VP_REPO", "/repo")!r}); import pbtools, pbtools.c_source'],
                            env=env, timeout=60)
            if r2 != 0:
                res.ok = False
                res.key = 'import'
                res.failure = 'pbtools cannot be imported\n' + e2[-2000:]
            elif rc is None:
                res.ok = False
                res.key = 'hang'
                res.failure = 'the code under test did not finish\n' + (err or '')[-2000:]
            else:
                res.error = f'exit {rc}: {out[-500:]} {err[-2000:]}'
            return res
        res.cases = r['cases']
        res.ok = r['ok']
        res.samples = r['samples']
        res.key = r.get('key', '')
        res.failure = r.get('failure', '')
        res.error = r.get('error', '')
        res.command = ' '.join(argv[:4])
        res.what += ' (' + ', '.join(f'{k}: {v}' for k, v in r['parts'].items()) + ')'
        return res
    run.__name__ = name
    return run
