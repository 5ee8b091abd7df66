"""C17: which file an import means, what happens when it is missing, and that
output depends on nothing else."""
import itertools
import os
import random
import shutil
import subprocess
import sys

from common import REPO, SEED, THOROUGH, Violation, main, require

import pbtools
import textparser
from pbtools import c_source, mys_source, rust_source
from vp import schema as S

GENERATORS = {'c': ('generate_c_source', c_source, ('c', 'h')),
              'rust': ('generate_rust_source', rust_source, ('rs',)),
              'mys': ('generate_mys_source', mys_source, ('mys',))}


def cli(args, cwd, env=None):
    e = {'PATH': '/usr/bin:/bin', 'PYTHONPATH': REPO, 'PYTHONDONTWRITEBYTECODE': '1'}
    e.update(env or {})
    return subprocess.run([sys.executable, '-m', 'pbtools'] + args, cwd=cwd, env=e,
                          capture_output=True, text=True, timeout=100)


def read_all(d):
    res = {}
    for n in sorted(os.listdir(d)):
        if os.path.isfile(f'{d}/{n}') and not n.endswith('.proto'):
            with open(f'{d}/{n}', 'rb') as f:
                res[n] = f.read()
    return res


def fresh(path):
    if os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(path)
    return path


def layout(r, d, k):
    """A working directory, import paths, and what the import means: one of
    the places, each of which declares a message of its own."""
    w = fresh(f'{d}/layout{k}')
    name = r.choice(['lib.proto', 'sub/lib.proto', 'a.b/c/lib_x.proto', 'Lib.proto'])
    places = {}         # path as given in the command -> index
    n = r.randint(0, 4)
    paths = []
    for i in range(n):
        style = r.choice(['relative', 'absolute', 'missing', 'dotted', 'slash'])
        base = f'inc{i}'
        p = {'relative': base, 'absolute': f'{w}/{base}', 'missing': f'none{i}',
             'dotted': f'./x/../{base}', 'slash': base + '/'}[style]
        if style == 'dotted':
            os.makedirs(f'{w}/x', exist_ok=True)
        paths.append(p)
        if style != 'missing':
            os.makedirs(f'{w}/{base}', exist_ok=True)
            if r.random() < .5:
                places[i] = f'{w}/{base}/{name}'
    if n and r.random() < .3:
        paths.append(r.choice(paths))
    if r.random() < .15:
        paths.append('.')
    here = r.random() < .5
    if here:
        places['cwd'] = f'{w}/{name}'
    for i, p in places.items():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(f'syntax = "proto3"; package lib; message Only{i} {{ int32 a = 1; }}'
                    f'enum Any {{ {"Z" if i != "cwd" else "C"}_{i} = 0; }}')
    chosen = next((i for i in range(n) if i in places), 'cwd' if here else None)
    # a message that only the right file declares; the others would fail
    ref = 'lib.Any' if chosen is None else f'lib.Only{chosen}'
    text = (f'syntax = "proto3"; package user; import "{name}"; '
            f'message M {{ {ref} x = 1; repeated lib.Any y = 2; }}')
    with open(f'{w}/user.proto', 'w') as f:
        f.write(text)
    return w, name, paths, chosen, places, text


def search(d):
    """Pseudo-random layouts, in this process."""
    for k in range(4000 if THOROUGH else 800):
        r = random.Random((SEED << 16) + k)
        w, name, paths, chosen, places, text = layout(r, d, k)
        os.chdir(w)
        what = f'import "{name}" with import paths {paths}, the file is in {list(places)}'
        try:
            c_source.generate_files(['user.proto'], paths, 'out')
            err = None
        except (pbtools.Error, textparser.Error) as e:
            err = str(e)
        except Exception as e:
            raise Violation('internal error', f'{e!r} for {what}')
        out = read_all('out') if os.path.isdir('out') else {}
        if chosen is None:
            require(err is not None, 'accepted', lambda: f'{what}: no error')
            require(name in err, 'name', lambda: f'{what}: the error is {err!r}')
            require(not out, 'output', lambda: f'{what}: output {list(out)} in spite of {err!r}')
        else:
            require(err is None, 'wrong file', lambda:
                    f'{what}: expected the one of {chosen!r}, but {err!r}\n{text}')
            p = pbtools.parse_file('user.proto', paths).imports[0]
            require(os.path.realpath(p.abspath) == os.path.realpath(places[chosen]),
                    'path', lambda: f'{what}: abspath {p.abspath}, expected {places[chosen]}')
            require(out, 'output', lambda: f'{what}: no output')
        os.chdir(d)
        shutil.rmtree(w)
        yield what + f': {chosen}'


def command(d):
    """The same through the command line: exit status, message, output."""
    for k in range(120 if THOROUGH else 24):
        r = random.Random((SEED << 16) + 5000 + k)
        w, name, paths, chosen, places, text = layout(r, d, k)
        with open(f'{w}/first.proto', 'w') as f:
            f.write('syntax = "proto3"; package first; message F { int32 a = 1; }')
        gen = r.choice(list(GENERATORS))
        sub, _, exts = GENERATORS[gen]
        files = r.choice([['user.proto'], ['first.proto', 'user.proto']])
        os.makedirs(f'{w}/out')
        opts = sum((['-I', p] for p in paths), [])
        p = cli([sub] + opts + ['-o', 'out'] + files, w)
        out = read_all(f'{w}/out')
        what = f'pbtools {sub} {" ".join(opts)} {" ".join(files)} with import "{name}" ' \
            f'and the file in {list(places)}'
        users = [f'user.{e}' for e in exts]
        if chosen is None:
            require(p.returncode != 0, 'status', lambda: f'{what}: exit status 0, {p.stderr}')
            require(name in p.stderr + p.stdout, 'message', lambda:
                    f'{what}: the message is {p.stdout!r} {p.stderr!r}')
            require(not any(u in out for u in users), 'output', lambda:
                    f'{what}: output {list(out)} in spite of the error')
        else:
            require(p.returncode == 0 and all(u in out for u in users), 'result', lambda:
                    f'{what}: exit status {p.returncode}, output {list(out)}, {p.stderr}')
        shutil.rmtree(w)
        yield what


def family(k):
    """Schema files with the imported ones first."""
    return S.curated() + [S.rand_file(SEED + k, i, 5) for i in range(8)]


def write(files, d):
    for f in files:
        with open(f'{d}/{f.name}.proto', 'w') as o:
            o.write(S.text(f))


def supported(gen, f, d):
    """Whether the generator takes the file at all."""
    try:
        GENERATORS[gen][1].generate_files([f'{d}/{f.name}.proto'], [d], fresh(f'{d}/probe'))
        return True
    except Exception:
        return False


def environments(d):
    """The command line under hash seeds and environments."""
    src = fresh(f'{d}/src')
    files = family(0)
    write(files, src)
    for n, imp, t in (('accents', '', ''), ('letters', 'import "accents.proto";', 'acc.M a = 2;')):
        # letters that are no ASCII, in comments and strings
        text = (f'// \u00e9\u4e2d\nsyntax = "proto3"; package {n[:3]}; {imp}\n'
                f'option java_package = "\u00fc";\nmessage M {{ int32 x = 1; {t} }} /* \u00df */\n')
        with open(f'{src}/{n}.proto', 'w', encoding='utf-8') as o:
            o.write(text)
    extra = [f'{src}/accents.proto', f'{src}/letters.proto']
    home = fresh(f'{d}/home')
    runs = [({'PYTHONHASHSEED': str(i)}, src) for i in range(8)]
    runs += [({'PYTHONHASHSEED': 'random'}, home)] * (20 if THOROUGH else 2)
    runs += [({'LANG': 'C', 'LC_ALL': 'C', 'TZ': 'Asia/Tokyo'}, home),
             ({'LANG': 'C.UTF-8', 'HOME': home, 'USER': 'somebody', 'PWD': '/'}, home),
             ({'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'}, home),
             ({'LC_ALL': 'POSIX', 'PYTHONIOENCODING': 'latin-1'}, src),
             ({'COLUMNS': '20', 'TERM': 'dumb', 'SOURCE_DATE_EPOCH': '1', 'PYTHONUTF8': '1',
               'PYTHONOPTIMIZE': '1'}, src)]
    for gen, (sub, _, _) in GENERATORS.items():
        names = [f for f in files if supported(gen, f, src)]
        require(names, 'generator', f'{sub} takes none of the schemas')
        ref = None
        for env, cwd in runs:
            out = fresh(f'{d}/out')
            p = cli([sub, '-I', src, '-o', out] + [f'{src}/{f.name}.proto' for f in names]
                    + extra, cwd, env)
            require(p.returncode == 0, 'status', lambda: f'{sub} fails with {env}: {p.stderr}')
            got = read_all(out)
            if ref is None:
                ref = got
            for n in ref:
                require(got.get(n) == ref[n], 'environment', lambda:
                        f'{sub}: {n} differs with environment {env} in {cwd} from that with '
                        f'{runs[0][0]}; schemas:\n' + '\n'.join(S.text(f) for f in names
                                                                if S.snake(f.name) in n))
            require(set(got) == set(ref), 'files', lambda: f'{sub}: files {set(got) ^ set(ref)}')
            yield f'{sub} {env}: {len(got)} files'


def together(d):
    """Files alone, together, in any order, and again in the same process."""
    src = fresh(f'{d}/src')
    for k in range(20 if THOROUGH else 4):
        r = random.Random(SEED + k)
        files = family(k)
        write(files, src)
        for gen, (sub, module, _) in GENERATORS.items():
            names = [f for f in files if supported(gen, f, src)]
            ref = {}
            for f in names:
                out = fresh(f'{d}/out')
                module.generate_files([f'{src}/{f.name}.proto'], [src], out)
                ref.update(read_all(out))
            for _ in range(3):
                order = list(names)
                r.shuffle(order)
                order = order[:r.randint(1, len(order))]
                out = fresh(f'{d}/out')
                module.generate_files([f'{src}/{f.name}.proto' for f in order], [src], out)
                for n, data in read_all(out).items():
                    require(ref.get(n) == data, 'together', lambda:
                            f'{sub}: {n} differs when generated with {[f.name for f in order]}; '
                            'schemas:\n' + '\n'.join(S.text(f) for f in order
                                                     if S.snake(f.name) in n))
                yield f'{sub} {[f.name for f in order]}'


if __name__ == '__main__':
    main(search, command, environments, together)
