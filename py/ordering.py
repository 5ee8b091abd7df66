"""C13: the code generated for every dependency graph compiles as C11 without
warnings."""
import concurrent.futures
import itertools
import os
import random
import shutil
import subprocess

from common import REPO, SEED, THOROUGH, Violation, main, require

from pbtools import c_source
from vp import schema as S

GCC = ['gcc', '-std=c11', '-Wall', '-Wextra', '-Werror', '-fsyntax-only',
       f'-I{REPO}/lib/include', '-I.']
CLANG = ['clang', '-std=c11', '-Wall', '-Wextra', '-Werror', '-fsyntax-only',
         f'-I{REPO}/lib/include', '-I.']



def compile_all(units, compiler=GCC, size=60):
    """units: [(name, schema text)]. Each has been generated; compiles them
    many at a time and reports the first that does not compile."""
    batches = [units[i:i + size] for i in range(0, len(units), size)]

    def run(batch):
        tu = f'batch_{batch[0][0]}.c'
        with open(tu, 'w') as f:
            f.write(''.join(f'#include "{n}.c"\n' for n, _ in batch))
        p = subprocess.run(compiler + [tu], capture_output=True, text=True)
        if p.returncode == 0:
            return None
        for n, text in batch:
            p = subprocess.run(compiler + [f'{n}.c'], capture_output=True, text=True)
            if p.returncode != 0:
                return f'{" ".join(compiler)} {n}.c\n{p.stderr[:1500]}\nschema:\n{text}'
        return None
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for bad in ex.map(run, batches):
            if bad:
                raise Violation('compile', 'generated code does not compile: ' + bad)


def generate(name, text, upper=False):
    with open(f'{name}.proto', 'w') as f:
        f.write(text)
    try:
        c_source.generate_files([f'{name}.proto'], ['.'], '.', c_source.Options(upper))
    except Exception as e:
        raise Violation('generate', f'{e!r} for\n{text}')


def field(r, counts, edge, target):
    n = next(counts)
    if edge == 'plain':
        return r.choice([f'{target} f{n} = {n};\n', f'oneof o{n} {{ {target} f{n} = {n}; }}\n'])
    if edge == 'repeated':
        return r.choice([f'repeated {target} f{n} = {n};\n'] * 2
                        + [f'map<int32, {target}> f{n} = {n};\n'])
    return ''


def graph_schema(r, name, n, edges, shape):
    """edges: {(i, j): kind}; shape: where the messages are declared."""
    counts = itertools.count(1)
    body = {i: [field(r, counts, edges.get((i, j)), f'M{j}') for j in range(n)]
            for i in range(n)}
    for i in range(n):
        if r.random() < .4:
            body[i].append(f'repeated Kind k{i} = {next(counts)};\n')
        r.shuffle(body[i])

    def msg(i, extra=''):
        parts = body[i] + [extra]
        r.shuffle(parts)
        return f'message M{i} {{\n{"".join(parts)}}}\n'
    kind = f'enum Kind {{ {name.upper()}_A = 0; {name.upper()}_B = 1; }}\n'
    if shape == 'flat':
        tops = [msg(i) for i in range(n)] + [kind]
    elif shape == 'outer':
        # all in one message, which the others use as well
        inner = ''.join([msg(i) for i in range(n)] + [kind])
        c = itertools.count(50)
        refs = ''.join(field(r, c, r.choice(['', 'plain', 'repeated']), f'M{i}')
                       for i in range(n))
        parts = [inner, refs]
        r.shuffle(parts)
        tops = [f'message Outer {{\n{"".join(parts)}}}\n']
    else:
        # the first contains the others; only it is visible from outside
        inner = ''.join([msg(i) for i in range(1, n)])
        c = itertools.count(50)
        user = 'message User {\n' + field(r, c, r.choice(['plain', 'repeated']), 'M0') + '}\n'
        tops = [msg(0, inner), kind, user]
    r.shuffle(tops)
    return f'syntax = "proto3";\npackage {name};\n' + ''.join(tops)


def run(units, compiler=GCC):
    texts = []
    for name, text, upper in units:
        generate(name, text, upper)
        texts.append((name, text))
    compile_all(texts, compiler)
    for name, _ in texts:
        for ext in ('proto', 'c', 'h'):
            os.remove(f'{name}.{ext}')


def graphs(d):
    """Every graph of three messages with no, plain and repeated edges, in
    every order (each labelled graph is one order), in every shape."""
    r = random.Random(SEED)
    pairs = [(i, j) for i in range(3) for j in range(3) if i != j]
    units = []
    k = 0
    for kinds in itertools.product((None, 'plain', 'repeated'), repeat=6):
        for shape in ('flat', 'outer', 'first'):
            k += 1
            if shape != 'flat' and not THOROUGH and (k + SEED) % 3:
                continue
            edges = dict(zip(pairs, kinds))
            for i in range(3):
                edges[(i, i)] = r.choice([None, None, 'plain', 'repeated'])
            units.append((f'g{k}', graph_schema(r, f'g{k}', 3, edges, shape), k % 7 == 0))
    run(units)
    for u in units:
        yield u[1]


def larger(d):
    """Random graphs of up to eight messages."""
    r = random.Random(SEED + 1)
    units = []
    for k in range(3000 if THOROUGH else 400):
        n = r.randint(4, 8)
        density = r.choice([.1, .25, .5])
        edges = {(i, j): r.choice(['plain', 'repeated']) for i in range(n) for j in range(n)
                 if r.random() < density}
        units.append((f'l{k}', graph_schema(r, f'l{k}', n, edges,
                                            r.choice(['flat', 'outer', 'first'])), k % 7 == 0))
    run(units)
    run(units[:60], CLANG)
    for u in units:
        yield u[1]


def shuffle(r, x):
    """Another declaration order of the same content."""
    r.shuffle(x.messages)
    r.shuffle(x.enums)
    if isinstance(x, S.Message):
        r.shuffle(x.fields)
        r.shuffle(x.oneofs)
    for m in x.messages:
        shuffle(r, m)


def family(d):
    """The schema family with all features, in shuffled declaration orders."""
    r = random.Random(SEED + 2)
    n = 0
    for k in range(20 if THOROUGH else 4):
        for upper in (False, True):
            files = S.curated() + [S.rand_file(SEED + k, i) for i in range(12)]
            for f in files:
                shuffle(r, f)
                with open(f'{f.name}.proto', 'w') as o:
                    o.write(S.text(f))
            units = []
            for f in files:
                text = S.text(f)
                generate(f.name, text, upper)
                units.append((f.source[:-2], text))
            compile_all(units, GCC if k % 2 else CLANG, 1)
            for f in files:
                n += 1
                yield S.text(f)


def imports(d):
    """Files importing each other by paths with dots, directories and upper
    case letters. Each message of one is used by the next."""
    r = random.Random(SEED + 3)
    dirs = ['', '', 'dir/', 'a/b/', 'Dir/', 'x.y/', 'a_b/', 'Two.Words/']
    stems = ['lib', 'Lib', 'lib.v1', 'LibFoo', 'lib_foo', 'lib.V2.x', 'libFOO', 'lib1']
    for k in range(600 if THOROUGH else 80):
        n = r.randint(2, 4)
        w = f'{d}/imp{k}'
        os.makedirs(w)
        os.chdir(w)
        names, texts = [], []
        for i in range(n):
            path = f'{r.choice(dirs)}{r.choice(stems)}{i}.proto'
            if os.path.dirname(path):
                os.makedirs(os.path.dirname(path), exist_ok=True)
            used = sorted(r.sample(range(i), r.randint(1, min(i, 2)))) if i else []
            text = f'syntax = "proto3";\npackage p{i};\n'
            text += ''.join(f'import "{names[j]}";\n' for j in used)
            text += f'message M{i} {{\n int32 x = 1;\n' + ''.join(
                f' {r.choice(["", "repeated "])}p{j}.M{j} f{j} = {j + 2};\n'
                for j in used) + '}\n'
            with open(path, 'w') as f:
                f.write(text)
            names.append(path)
            texts.append(f'{path}:\n{text}')
        try:
            c_source.generate_files(names, ['.'], 'out', c_source.Options(k % 5 == 0))
        except Exception as e:
            raise Violation('generate', f'{e!r} for\n' + '\n'.join(texts))
        sources = sorted(x for x in os.listdir('out') if x.endswith('.c'))
        require(len(sources) == n, 'files', lambda: f'{sources} for {names}')
        p = subprocess.run((GCC, CLANG)[k % 2] + ['-Iout'] + [f'out/{x}' for x in sources],
                           capture_output=True, text=True)
        require(p.returncode == 0, 'compile', lambda: 'generated code does not compile: '
                + p.stderr[:1500] + '\n'.join(texts))
        os.chdir(d)
        shutil.rmtree(w)
        yield ' '.join(names)


if __name__ == '__main__':
    main(graphs, larger, family, imports)
