"""Shared by the programs that run /repo's Python code.

Each program wraps the real function (imported from /repo, untouched) in a
contract and evaluates it on an enumerated set of inputs."""
import json
import os
import sys
import tempfile
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

SEED = int(sys.argv[1]) if len(sys.argv) > 1 else 1
THOROUGH = len(sys.argv) > 2 and sys.argv[2] == 'thorough'


class Violation(Exception):
    """A contract does not hold for an input."""

    def __init__(self, key, text):
        super().__init__(text)
        self.key = key
        self.text = text


def main(*tests):
    """Runs the tests; each yields one value per case or raises Violation."""
    only = sys.argv[3].split() if len(sys.argv) > 3 else None
    result = {'cases': 0, 'ok': True, 'parts': {}, 'samples': []}
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='vp-py-') as d:
        for t in tests:
            if only and t.__name__ not in only:
                continue
            n = 0
            os.chdir(d)
            try:
                for x in t(d):
                    n += 1
                    if n == 3:
                        result['samples'].append(str(x)[:400])
            except Violation as v:
                result.update(ok=False, key=f'{t.__name__}:{v.key}', failure=
                              f'{t.__name__}: {v.text}')
            except Exception as e:
                tb = e.__traceback__
                while tb.tb_next:
                    tb = tb.tb_next
                if os.path.dirname(os.path.abspath(tb.tb_frame.f_code.co_filename)) == HERE:
                    # raised by the program itself: decides nothing
                    result['error'] = result.get('error', '') + traceback.format_exc()[-2000:]
                    continue
                # the code under test raised where the contract allows none
                result.update(ok=False, key=f'{t.__name__}:exception', failure=
                              f'{t.__name__}: {traceback.format_exc()[-3000:]}')
            result['cases'] += n
            result['parts'][t.__name__] = n
            if not result['ok']:
                break
        os.chdir(cwd)
    print(json.dumps(result))


def require(cond, key, text):
    if not cond:
        raise Violation(key, text() if callable(text) else text)
