"""Generates C code for a schema family with /repo's generator, and the tables
the native driver works from."""
import os

from . import schema as S
from .engine import PY, REPO, VERIF, sh

KINDS = {'int32': 'T_I32', 'int64': 'T_I64', 'sint32': 'T_S32', 'sint64': 'T_S64',
         'uint32': 'T_U32', 'uint64': 'T_U64', 'fixed32': 'T_F32',
         'fixed64': 'T_F64', 'sfixed32': 'T_SF32', 'sfixed64': 'T_SF64',
         'float': 'T_FLOAT', 'double': 'T_DOUBLE', 'bool': 'T_BOOL',
         'string': 'T_STRING', 'bytes': 'T_BYTES', 'enum': 'T_ENUM',
         'message': 'T_MESSAGE'}


class GeneratorFailed(Exception):
    pass


def pbtools(args, cwd, env=None, timeout=120):
    e = {'PATH': '/usr/bin:/bin', 'PYTHONPATH': REPO, 'LANG': 'C.UTF-8',
         'PYTHONDONTWRITEBYTECODE': '1'}
    e.update(env or {})
    return sh([PY, '-m', 'pbtools'] + args, cwd=cwd, env=e, timeout=timeout)


def generate(files, d, extra=()):
    """Writes the schemas to d and generates C code there."""
    os.makedirs(d, exist_ok=True)
    for f in files:
        with open(f'{d}/{f.name}.proto', 'w') as o:
            o.write(S.text(f))
    rc, out, err = pbtools(['generate_c_source', '-I', d, '-o', d] + list(extra)
                           + [f'{f.name}.proto' for f in files], d)
    if rc != 0:
        raise GeneratorFailed(f'exit {rc}: {out}{err}')
    missing = [f.source for f in files if not os.path.exists(f'{d}/{f.source}')]
    if missing:
        raise GeneratorFailed(f'no output file {missing}')


def member(f):
    """Accessor of a field's value inside its struct."""
    if f.label == 'repeated' or f.key:
        return f.cname
    if f.label == 'optional':
        return f.cname + ('.value_p' if f.kind == 'string' else '.value')
    return f.cname + ('_p' if f.kind in ('string', 'message') else '')


def table(files):
    """The native driver's table of all messages."""
    s = ''.join(f'#include "{f.header}"\n' for f in files)
    ms = [m for f in files for m in f.all_messages()]
    for m in ms:
        s += f'static const struct mdesc D_{m.cname};\n'
    for m in ms:
        fs = sorted(m.all_fields(), key=lambda f: f.number)
        s += f'static const struct fdesc F_{m.cname}[] = {{\n'
        for f in fs:
            st = m.struct
            kind = 'message' if f.key else f.kind
            sub = f.entry if f.key else (f.type if kind == 'message' else None)
            label = 'L_REPEATED' if f.label == 'repeated' or f.key else \
                'L_OPTIONAL' if f.label == 'optional' else \
                'L_ONEOF' if f.oneof else 'L_PLAIN'
            sel, choice = '0', '0'
            if label == 'L_OPTIONAL':
                sel = f'offsetof({st}, {f.cname}.is_present)'
            if f.oneof:
                sel = f'offsetof({st}, {S.snake(f.oneof.name)})'
                choice = f.oneof.choice(f)
            fn = f'{m.cname}_{f.cname}'
            alloc = f'(int (*)(void *)){fn}_alloc' \
                if kind == 'message' and label != 'L_REPEATED' else '0'
            alloc_n = f'(int (*)(void *, int)){fn}_alloc' if label == 'L_REPEATED' else '0'
            init = f'(void (*)(void *)){fn}_init' if f.oneof and kind != 'message' else '0'
            s += (f'    {{ "{f.name}", {f.number}, {KINDS[kind]}, {label}, '
                  f'offsetof({st}, {member(f)}), {sel}, {choice}, '
                  f'{"&D_" + sub.cname if sub else 0}, {alloc}, {alloc_n}, {init} }},\n')
        s += '    { 0 }\n};\n'
        public = m.parent is None
        n = m.cname
        s += (f'static const struct mdesc D_{n} = {{ "{m.full}", sizeof({m.struct}), '
              f'{len(fs)}, {int(public)}, F_{n}, ')
        s += (f'(void *(*)(void *, size_t)){n}_new, '
              f'(int (*)(void *, uint8_t *, size_t)){n}_encode, '
              f'(int (*)(void *, const uint8_t *, size_t)){n}_decode, '
              if public else '0, 0, 0, ')
        s += (f'(void (*)(void *, struct pbtools_heap_t *)){n}_init, '
              f'(void (*)(struct pbtools_encoder_t *, void *)){n}_encode_inner, '
              f'(void (*)(struct pbtools_decoder_t *, void *)){n}_decode_inner }};\n')
    s += 'static const struct mdesc *const TABLE[] = {\n'
    s += ''.join(f'    &D_{m.cname},\n' for m in ms) + '};\n'
    s += f'#define NTABLE {len(ms)}\n'
    return s


def family(seed, n):
    return S.curated() + [S.rand_file(seed, i) for i in range(n)]
