"""C12: contract of type name resolution, evaluated on every way of declaring
one name in the scopes of a schema, and every way of referring to it."""
import itertools
import os
import random
import re
import shutil

from common import SEED, THOROUGH, Violation, main, require

import pbtools
import textparser
from pbtools import c_source
from vp.schema import snake

KINDS = (None, 'enum', 'message')
FORMS = ('N', '.N', 'P.N', '.P.N', 'o.N', '.o.N')
WHERE = ('Outer', 'Outer.Inner', 'Other', 'Outer.Deep.Er')
SCOPES = ('root', 'top', 'same', 'foreign', 'Outer', 'Outer.Inner', 'Other')


def expected(config, package, where, form):
    """proto3 scoping: the path of the declaration meant, or None. A path is
    (package, path inside the package, kind)."""
    if form in ('o.N', '.o.N'):
        return (config['package'], 'N', config['foreign']) if config['foreign'] else None
    top = config['top'] or config['same']
    if form in ('P.N', '.P.N'):
        return (package, 'N', top) if package and top else None
    if form == '.N':
        if package:
            return ('', 'N', config['root']) if config['root'] else None
        return ('', 'N', top) if top else None
    parts = where.split('.')
    for n in range(len(parts), 0, -1):
        scope = '.'.join(parts[:n])
        if config.get(scope):
            return (package, scope + '.N', config[scope])
    if top:
        return (package, 'N', top)
    return ('', 'N', config['root']) if package and config['root'] else None


def declare(kind, tag):
    if kind == 'enum':
        return f'enum N {{ {tag}_ZERO = 0; {tag}_ONE = 1; }}\n'
    if kind == 'message':
        return f'message N {{ int32 {tag.lower()}_v = 1; }}\n'
    return ''


def schema(r, config, package, fields):
    """fields: {where: [text of declarations]}"""
    def body(where, *inner):
        parts = list(inner) + fields.get(where, [])
        if config.get(where):
            parts.append(declare(config[where], where.replace('.', '').upper()))
        r.shuffle(parts)
        return '{\n' + ''.join(parts) + '}\n'
    inner = 'message Inner ' + body('Outer.Inner')
    deep = 'message Deep { message Er ' + body('Outer.Deep.Er') + '}\n'
    tops = ['message Outer ' + body('Outer', inner, deep), 'message Other ' + body('Other')]
    if config['top']:
        tops.append(declare(config['top'], 'TOP'))
    tops.append('message Last {}\n')
    imports = ['import "same.proto";\n', 'import "foreign.proto";\n', 'import "root.proto";\n']
    if config['top'] or not package:
        # the same name must not be declared twice in a package
        imports = [i for i in imports if not (
            ('root' in i and not package) or ('same' in i and config['top'] and config['same']))]
    r.shuffle(tops)
    r.shuffle(imports)
    return 'syntax = "proto3";\n' + (f'package {package};\n' if package else '') \
        + ''.join(imports) + ''.join(tops)


def write_imports(config, package):
    for name, pk in (('same', package), ('foreign', config['package']), ('root', '')):
        with open(f'{name}.proto', 'w') as f:
            f.write('syntax = "proto3";\n' + (f'package {pk};\n' if pk else '')
                    + f'message Decoy{name.title()} {{ {declare("message", "D")} }}\n'
                    + declare(config[name], name.upper()))


def reference(form, package, config):
    return form.replace('P', package).replace('o', config['package'])


def members(header, struct):
    """The C declaration of each member of a struct."""
    m = re.search(r'struct ' + struct + r' \{(.*?)\n\};', header, re.S)
    require(m, 'struct', lambda: f'no struct {struct} in the generated header\n{header}')
    return ' '.join(m.group(1).split())


def check_member(header, package, where, name, use, target, text):
    pk, path, kind = target
    cname = snake('.'.join(x for x in (pk, path) if x))
    full = snake('.'.join(x for x in (package, where) if x))
    body = None
    if use == 'map':
        m = re.search(r'struct (\w+)_repeated_t ' + name + ';', members(header, full + '_t'))
        require(m, 'map', lambda: f'no map member {name} in {full}_t for\n{text}')
        body = members(header, m.group(1) + '_t')
        name = 'value'
    else:
        body = members(header, full + '_t')
    if kind == 'enum':
        want = {'plain': f'enum {cname}_e {name};', 'oneof': f'enum {cname}_e {name};',
                'map': f'enum {cname}_e {name};',
                'repeated': f'struct pbtools_repeated_int32_t {name};',
                'optional': f'enum {cname}_e value; }} {name};'}[use]
    else:
        want = {'plain': f'struct {cname}_t *{name}_p;', 'oneof': f'struct {cname}_t *{name}_p;',
                'map': f'struct {cname}_t *{name}_p;',
                'repeated': f'struct {cname}_repeated_t {name};'}[use]
    got = [x for x in re.findall(r'[^;{}]*(?:\{[^}]*\} *\w+)?;', body)]
    require(want in body, 'resolution', lambda:
            f'{use} field {name} in {where} must be "{want}", the members are {got} for\n{text}')


def configs():
    for package in ('p', '', 'p.q'):
        others = itertools.cycle(['o', 'o.r', 'pp', (package or 'x') + '.z', 'q', 'N_.o', 'o'])
        for outer, inner, other, foreign in itertools.product(KINDS, repeat=4):
            for top, same in ((None, None), ('enum', None), ('message', None),
                              (None, 'enum'), (None, 'message')):
                root = {None: 'message', 'enum': None, 'message': 'enum'}[foreign] \
                    if package else None
                yield package, {'Outer': outer, 'Outer.Inner': inner, 'Other': other,
                                'foreign': foreign, 'top': top, 'same': same, 'root': root,
                                'package': next(others)}


def declaration(r, use, ref, name):
    n = next(declaration.numbers)
    if use == 'plain':
        return f'{ref} {name} = {n};\n'
    if use in ('repeated', 'optional'):
        return f'{use} {ref} {name} = {n};\n'
    if use == 'map':
        return f'map<int32, {ref}> {name} = {n};\n'
    return f'oneof one_{name} {{ {ref} {name} = {n}; }}\n'


def generate(text):
    with open('main_file.proto', 'w') as f:
        f.write(text)
    c_source.generate_files(['main_file.proto'], ['.'], '.')
    with open('main_file.h') as f:
        return f.read()


def references(d):
    """Every declaration of the name and every reference that has a meaning."""
    r = random.Random(SEED)
    allc = list(configs())
    if not THOROUGH:
        # one half, another one with another seed
        allc = [c for i, c in enumerate(allc) if (i + i // 2 + SEED) % 2 == 0]
    for package, config in allc:
        declaration.numbers = itertools.count(1)
        write_imports(config, package)
        fields, checks = {}, []
        for where in WHERE:
            for form in FORMS:
                if 'P' in form and not package:
                    continue
                target = expected(config, package, where, form)
                if target is None:
                    continue
                uses = ['plain', 'repeated', 'oneof', 'map'] \
                    + (['optional'] if target[2] == 'enum' else [])
                for use in (uses if form == 'N' else r.sample(uses, 2)):
                    name = f'f{next(declaration.numbers)}x'
                    fields.setdefault(where, []).append(
                        declaration(r, use, reference(form, package, config), name))
                    checks.append((where, name, use, target))
        text = schema(r, config, package, fields)
        try:
            header = generate(text)
        except Exception as e:
            raise Violation('rejected', f'{e!r} for\n{text}')
        for where, name, use, target in checks:
            check_member(header, package, where, name, use, target, text)
            yield f'{reference("N", package, config)} {config} {where} {name} {use} -> {target}'


def undefined(d):
    """Every reference that has no meaning: an error that names the type, and
    no output."""
    r = random.Random(SEED + 1)
    for package, config in configs():
        declaration.numbers = itertools.count(1)
        write_imports(config, package)
        todo = []
        for where in WHERE:
            for form in FORMS:
                if 'P' in form and not package:
                    continue
                if expected(config, package, where, form) is None:
                    todo.append((where, form))
        if not THOROUGH and len(todo) > 2:
            todo = r.sample(todo, 2)
        for where, form in todo:
            use = r.choice(['plain', 'repeated', 'oneof', 'map', 'optional'])
            text = schema(r, config, package, {where: [
                declaration(r, use, reference(form, package, config), 'f1x')]})
            for name in ('main_file.h', 'main_file.c'):
                if os.path.exists(name):
                    os.remove(name)
            try:
                generate(text)
                err = None
            except (pbtools.Error, textparser.Error) as e:
                err = str(e)
            except Exception as e:
                raise Violation('internal error', f'{e!r} for\n{text}')
            require(err is not None, 'accepted', lambda:
                    f'{reference(form, package, config)} in {where} is not declared, but code is '
                    f'generated for\n{text}')
            require(re.search(r'\bN\b', err), 'name', lambda:
                    f'the error {err!r} does not name the type for\n{text}')
            require(not os.path.exists('main_file.h') and not os.path.exists('main_file.c'),
                    'output', lambda: f'an error, but also output for\n{text}')
            yield f'{reference(form, package, config)} in {where}: {err}'


def chains(d):
    """Deep nestings: random trees of messages that reuse few names."""
    for k in range(4000 if THOROUGH else 600):
        r = random.Random((SEED << 16) + k)
        package = r.choice(['p', '', 'a.b'])
        names = ['A', 'B', 'C']
        count = itertools.count(1)
        checks = []
        root = {}

        def tree(depth):
            """{name: (kind, children)}"""
            res = {}
            for n in names:
                if r.random() < (.75 if depth == 0 else .45):
                    kind = r.choice(['enum', 'message', 'message'])
                    res[n] = (kind, tree(depth + 1) if kind == 'message' and depth < 3 else {})
            return res
        root = tree(0)
        scopes = []

        def render(name, kind, children, path):
            path = path + [(name, children)]
            if kind == 'enum':
                return f'enum {name} {{ {"".join(n for n, _ in path)}_Z = 0; }}\n'
            parts = [render(n, k2, c2, path) for n, (k2, c2) in children.items()]
            where = '.'.join(n for n, _ in path)
            for n in names:
                target = None
                for i in range(len(path), -1, -1):
                    scope = path[i - 1][1] if i else root
                    if n in scope:
                        target = (package, '.'.join([x for x, _ in path[:i]] + [n]), scope[n][0])
                        break
                if target is None:
                    continue
                num = next(count)
                # no repeated or map fields: these could be cyclic
                use = r.choice(['plain', 'oneof'])
                declaration.numbers = iter([num])
                parts.append(declaration(r, use, n, f'f{num}x'))
                checks.append((where, f'f{num}x', use, target))
            r.shuffle(parts)
            return f'message {name} {{\n{"".join(parts)}}}\n'
        tops = [render(n, kind, c, []) for n, (kind, c) in root.items()]
        if not tops:
            continue
        text = 'syntax = "proto3";\n' + (f'package {package};\n' if package else '') + ''.join(tops)
        try:
            header = generate(text)
        except Exception as e:
            raise Violation('rejected', f'{e!r} for\n{text}')
        for where, name, use, target in checks:
            check_member(header, package, where, name, use, target, text)
            yield f'{where} {name} {target}'


if __name__ == '__main__':
    main(references, undefined, chains)
