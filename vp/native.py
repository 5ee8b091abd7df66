"""Compiles and runs the native drivers of /verif/c/native against /repo."""
import hashlib
import os
import re
import time

from . import family
from . import schema as S
from .engine import REPO, VERIF, sh
from .run import ProgResult

CFLAGS = ['-w', '-std=c11', '-g', '-O1', '-fsanitize=address,undefined',
          '-fno-sanitize-recover=undefined']
THREADS = ['-w', '-std=c11', '-g', '-O1', '-fsanitize=thread', '-pthread']
ENV = {
       'TSAN_OPTIONS': 'halt_on_error=1',
      'PATH': '/usr/bin:/bin:/usr/local/bin',
       'ASAN_OPTIONS': 'abort_on_error=0:detect_leaks=0:'
                       'allocator_may_return_null=1:quarantine_size_mb=4',
       'UBSAN_OPTIONS': 'print_stacktrace=1'}


def execute(ctx, res, args, exe, runs, key='', limit=240):
    """Runs exe once per argument list; fills res."""
    for argv in runs:
        rc, out, err = sh([exe] + argv, timeout=limit, env=ENV)
        m = re.search(r'^OK (\d+)', out, re.M)
        if rc == 0 and m:
            res.cases += int(m.group(1))
            res.distinct = res.cases
            continue
        if 'FATAL: ThreadSanitizer' in err:
            res.error = err[-1000:]
            return res
        res.ok = False
        if rc is None:
            res.failure = f'no result after {limit} s (a call does not terminate)\n' + out[-2000:]
        else:
            res.failure = (out[-3000:] + '\n' + err[:3000]).strip() or f'exit {rc}'
        m = re.search(r'^FAIL (\S+)', out, re.M)
        res.key = key or (m.group(1) if m else 'unknown')
        res.command = ' '.join(args) + f' && {exe} ' + ' '.join(f'"{a}"' for a in argv)
        return res
    return res


def driver(name, filters='', what='', bounded='', key=''):
    """A program that runs native/<name>.c against the runtime library."""
    def run(ctx):
        tag = hashlib.md5(filters.encode()).hexdigest()[:8]
        exe = f'{ctx.scratch}/{name}-{tag}'
        src = f'{VERIF}/c/native/{name}.c'
        args = ['gcc'] + CFLAGS + [f'-I{REPO}/lib/include', src,
                                   f'{REPO}/lib/src/pbtools.c', '-o', exe]
        rc, out, err = sh(args, timeout=120)
        res = ProgResult(f'native/{name}.c', what=what, bounded=bounded)
        if rc != 0:
            res.error = 'gcc: ' + err[-1500:]
            return res
        seeds = [ctx.seed] if not ctx.thorough else \
            [ctx.seed + 1000 * i for i in range(8)]
        execute(ctx, res, args, exe, [[str(s), filters] for s in seeds], key)
        res.samples = [f'{name} seed {seeds[0]} filter {filters or "all"}']
        return res
    run.__name__ = name
    return run


def schemas(files):
    return '\n'.join(f'--- {f.name}.proto\n{S.text(f)}' for f in files)


def messages(filters, what, n=40, nrand=6, flags=None):
    """A program that generates code for the schema family and runs
    native/msg.c on every message type."""
    def run(ctx):
        res = ProgResult('native/msg.c ' + filters, what=what, bounded=
                         f'10 curated and {nrand} pseudo-random schemas, {n} '
                         'pseudo-random messages and inputs per message type and test')
        seeds = [ctx.seed] if not ctx.thorough else \
            [ctx.seed + 1000 * i for i in range(12)]
        for k, seed in enumerate(seeds):
            files = family.family(seed, nrand)
            d = f'{ctx.scratch}/msg{k}' + ('t' if flags else '')
            ok, args, exe = build(files, d, res, f'{VERIF}/c/native/msg.c', flags)
            if not ok:
                return res
            execute(ctx, res, args, exe, [[str(seed), filters, str(n)]])
            if not res.ok:
                res.failure += '\n\nschemas:\n' + schemas(files)
                return res
        res.samples = [S.text(files[i]) for i in (1, 4)]
        return res
    run.__name__ = 'messages'
    return run


def build(files, d, res, src, flags=None):
    """Generates and compiles; a failure is the result's failure."""
    try:
        family.generate(files, d)
    except family.GeneratorFailed as e:
        res.ok = False
        res.failure = f'generating C code failed: {e}\n{schemas(files)}'
        res.key = 'generate'
        res.command = f'python3 -m pbtools generate_c_source -I {d} -o {d} ' \
            + ' '.join(f'{f.name}.proto' for f in files)
        return False, None, None
    with open(f'{d}/table.h', 'w') as f:
        f.write(family.table(files))
    exe = f'{d}/exe'
    args = ['gcc'] + (flags or CFLAGS) + [f'-I{d}', f'-I{VERIF}/c/native', f'-I{REPO}/lib/include',
                               src] + [f'{d}/{f.source}' for f in files] \
        + [f'{REPO}/lib/src/pbtools.c', '-o', exe]
    rc, out, err = sh(args, timeout=200)
    if rc != 0:
        # does the generated code itself compile?
        for f in files:
            r2, o2, e2 = sh(['gcc', '-std=c11', '-w', '-fsyntax-only', f'-I{d}',
                             f'-I{REPO}/lib/include', f'{d}/{f.source}'])
            if r2 != 0:
                res.failure = f'the code generated for {f.name}.proto does not compile\n' \
                    + e2[-1500:] + '\n' + schemas(files)
                break
        else:
            res.failure = 'the generated interface is not the documented one\n' \
                + err[-1500:] + '\n' + schemas(files)
        res.ok = False
        res.key = 'compile'
        res.command = ' '.join(args)
        return False, None, None
    return True, args, exe
