"""Contracts of the functions generated for one schema.

For every message type of a schema one translation unit is made: the runtime
API's contracts (c/gen/stubs.h), the C files /repo's generator writes for the
schema, unchanged, and a harness with the contract of each generated function,
derived from the schema model (not from the generated code).  CBMC discharges
it for all message values, all received records and, since the decode loop is
entered in an arbitrary state, any number of records.
"""
import concurrent.futures
import json
import os
import re
import threading
import time

from . import engine, family
from . import schema as S
from .engine import REPO, VERIF, sh
from .family import member

OPS = {'float': 'OP_W32', 'fixed32': 'OP_W32', 'sfixed32': 'OP_W32',
       'double': 'OP_W64', 'fixed64': 'OP_W64', 'sfixed64': 'OP_W64',
       'string': 'OP_STRING', 'bytes': 'OP_BYTES', 'message': 'OP_MESSAGE'}
KIND = {'int32': 'K_I32', 'enum': 'K_I32', 'int64': 'K_I64', 'uint64': 'K_I64',
        'uint32': 'K_U32', 'sint32': 'K_S32', 'sint64': 'K_S64',
        'fixed32': 'K_W32', 'sfixed32': 'K_W32', 'float': 'K_W32',
        'fixed64': 'K_W64', 'sfixed64': 'K_W64', 'double': 'K_W64',
        'bool': 'K_BOOL', 'string': 'K_STRING', 'bytes': 'K_BYTES',
        'message': 'K_MESSAGE'}
PASS = {'K_W32': 'P_32', 'K_W64': 'P_64', 'K_STRING': 'P_LENGTH',
        'K_BYTES': 'P_LENGTH', 'K_MESSAGE': 'P_LENGTH'}
MEMORY = {'K_I32': 'K_W32', 'K_U32': 'K_W32', 'K_S32': 'K_W32', 'K_I64': 'K_W64',
          'K_S64': 'K_W64'}


def payload(kind, x):
    """Wire payload of value x, as uint64_t."""
    return {'int32': f'(uint64_t)(int64_t)({x})', 'enum': f'(uint64_t)(int64_t)(int)({x})',
            'int64': f'(uint64_t)({x})', 'uint32': f'(uint64_t)({x})',
            'uint64': f'({x})', 'sint32': f'zz32({x})', 'sint64': f'zz64({x})',
            'bool': f'(({x}) ? 1ull : 0ull)', 'fixed32': f'(uint64_t)({x})',
            'sfixed32': f'(uint64_t)(uint32_t)({x})', 'fixed64': f'({x})',
            'sfixed64': f'(uint64_t)({x})', 'float': f'bits_f({x})',
            'double': f'bits_d({x})'}[kind]


def decoded(kind):
    """Wire payload that value x must have after reading the record."""
    return {'int32': '(uint64_t)(int64_t)(int32_t)g_varint',
            'enum': '(uint64_t)(int64_t)(int32_t)g_varint',
            'int64': 'g_varint', 'uint64': 'g_varint',
            'uint32': '(uint64_t)(uint32_t)g_varint',
            'sint32': 'zz32(unzz32(g_varint))', 'sint64': 'zz64(unzz64(g_varint))',
            'bool': '(g_varint ? 1ull : 0ull)',
            'fixed32': 'g_w32', 'sfixed32': 'g_w32', 'float': 'g_w32',
            'fixed64': 'g_w64', 'sfixed64': 'g_w64', 'double': 'g_w64'}[kind]


class Field:
    """How one field looks in the generated struct."""

    def __init__(self, f):
        self.f = f
        self.name = f.name
        self.number = f.number
        self.repeated = f.label == 'repeated' or bool(f.key)
        self.optional = f.label == 'optional'
        self.kind = 'message' if f.key else f.kind
        self.sub = f.entry if f.key else (f.type if self.kind == 'message' else None)
        self.item = KIND[self.kind]
        self.op = 'OP_REPEATED' if self.repeated else OPS.get(self.kind, 'OP_VARINT')
        self.items = 'items_pp' if self.kind == 'string' else 'items_p'
        o = f.oneof
        self.selector = S.snake(o.name) if o else None
        self.choice = o.choice(f) if o else None

    def at(self, m):
        return f'{m}->{member(self.f)}'

    def present(self, m):
        x = self.at(m)
        if self.optional:
            return f'{m}->{self.f.cname}.is_present'
        if self.selector:
            return f'{m}->{self.selector} == {self.choice}'
        if self.repeated:
            return f'{x}.length != 0'
        return {'string': f'{x}[0] != 0', 'bytes': f'{x}.size != 0',
                'message': f'{x} != 0'}.get(self.kind) or f'{payload(self.kind, x)} != 0'

    def value_equal(self, a, b):
        x, y = self.at(a), self.at(b)
        if self.repeated:
            return (f'({x}.length == {y}.length && ({x}.length == 0 || '
                    f'(void *){x}.{self.items} == (void *){y}.{self.items}))')
        if self.kind == 'bytes':
            return f'({x}.size == {y}.size && ({x}.size == 0 || {x}.buf_p == {y}.buf_p))'
        if self.kind in ('string', 'message'):
            return f'({x} == {y})'
        return f'({payload(self.kind, x)} == {payload(self.kind, y)})'

    def equal(self, a, b):
        """Same field in two messages (oneof members: when selected)."""
        v = self.value_equal(a, b)
        if self.optional:
            p, q = self.present(a), self.present(b)
            return f'(!!{p} == !!{q} && (!{p} || {v}))'
        if self.selector:
            return f'(({self.present(a)}) ? {v} : 1)'
        return v


def checks(m):
    """The C text of message m's harness."""
    fs = [Field(f) for f in sorted(m.all_fields(), key=lambda f: f.number)]
    st, n = m.struct, m.cname
    oneofs = [(S.snake(o.name), o) for o in m.oneofs]
    t = []
    w = t.append
    w(f'static {st} *g_m, g_before, g_after;')
    w(f'static const int NUMBERS[] = {{ {", ".join(str(f.number) for f in fs) or "0"} }};')
    w('static void start(void)\n{\n    int i;\n'
      f'    g_n = {len(fs)};\n'
      '    for (i = 0; i < g_n; i++) g_num[i] = NUMBERS[i];\n'
      '    g_tag = -1;\n}')

    # unchanged(a, b, except): every field but number `except`
    w(f'static void unchanged({st} *a, {st} *b, int number, const char *unused)\n{{')
    for f in fs:
        if f.selector:
            continue
        w(f'    if (number != {f.number}) '
          f'A({f.equal("a", "b")}, "C10 C11 field {f.name} keeps its value");')
    for sel, o in oneofs:
        nums = ' && '.join(f'number != {f.number}' for f in fs if f.f.oneof is o) or '1'
        w(f'    if ({nums}) {{')
        w(f'        A(a->{sel} == b->{sel}, "C10 C11 oneof {o.name} keeps its selection");')
        for f in fs:
            if f.f.oneof is o:
                w(f'        A({f.equal("a", "b")}, "C10 C11 oneof field {f.name} keeps its value");')
        w('    }')
    w('    A(a->base.heap_p == b->base.heap_p, "C10 the message keeps its workspace");\n}')

    # -- encoding
    w(f'static char g_text[{len(fs) + 1}][2];')
    w(f'static void any_message({st} *m)\n{{\n    {st} any;\n    *m = any;\n'
      '    m->base.heap_p = &g_heap;')
    for i, f in enumerate(fs):
        x = f.at('m')
        cond = f'if ({f.present("m")}) ' if f.selector or f.optional else ''
        if f.repeated:
            w(f'    ASSUME({x}.length >= 0);')
            w(f'    {x}.{f.items} = nondet_ptr();')
        elif f.kind == 'string':
            w(f'    g_text[{i}][0] = (char)nondet_int(); {cond}{x} = g_text[{i}];')
        elif f.kind == 'bytes':
            w(f'    {cond}{x}.buf_p = nondet_ptr();')
        elif f.kind == 'message':
            w(f'    {{ static {f.sub.struct} sub; {cond}{x} = '
              + (f'&sub;' if f.selector else 'nondet_bool() ? &sub : 0;') + ' }')
    w('}')
    w(f'static void h_encode(void)\n{{\n    struct pbtools_encoder_t e, e0;\n    {st} m;\n'
      '    size_t k;\n'
      '    start();\n    any_message(&m);\n    g_before = m;\n    e0 = e;\n    g_encoder = &e;\n'
      f'    {n}_encode_inner(&e, &m);')
    for i, f in enumerate(fs):
        r = f'g_rec[{i}]'
        b = '(&g_before)'
        x = f.at(b)
        w(f'    if ({f.present(b)}) {{')
        w(f'        A({r}.count == 1, "C10 C11 C09 present field {f.name} is written exactly once");')
        w(f'        A({r}.op == {f.op}, "C10 field {f.name} has the wire type of {f.kind}");')
        if f.repeated:
            w(f'        A({r}.kind == {f.item}, "C10 C06 items of {f.name} are written as {f.kind}");')
            w(f'        A({r}.length == {x}.length && {r}.p == {x}.{f.items}, '
              f'"C10 C06 all items of {f.name} are written");')
            if f.sub:
                w(f'        A({r}.size == sizeof({f.sub.struct}) && '
                  f'{r}.fn == (void (*)()){f.sub.cname}_encode_inner, '
                  f'"C10 C06 items of {f.name} are written as {f.sub.name}");')
        elif f.kind == 'string':
            w(f'        A({r}.p == {x}, "C10 the value written is that of {f.name}");')
        elif f.kind == 'bytes':
            w(f'        A({r}.size == {x}.size && {r}.p == {x}.buf_p, '
              f'"C10 the value written is that of {f.name}");')
        elif f.kind == 'message':
            w(f'        A({r}.p == {x} && {r}.fn == (void (*)()){f.sub.cname}_encode_inner, '
              f'"C10 the value written is that of {f.name}");')
        else:
            w(f'        A({r}.value == {payload(f.kind, x)}, "C10 the value written is that of {f.name}");')
        w(f'    }} else A({r}.count == 0, "C10 C11 absent field {f.name} is not written");')
    w('    A(g_rec[MAXS].count == 0, "C10 no undeclared field number is written");')
    w('    k = (size_t)nondet_u64();\n    ASSUME(k < sizeof(m));')
    w('    A(((char *)&m)[k] == ((char *)&g_before)[k], "C16 C03 encoding leaves the message as it was");')
    w('    A(e.buf_p == e0.buf_p && e.size == e0.size && e.pos == e0.pos, '
      '"C16 C03 the encoder changes only through the runtime");')
    w('    A(0, "PROBE encode");\n}')

    # -- decoding
    w('static void entered(void)\n{\n    unchanged(g_m, &g_before, -1, 0);')
    for i, f in enumerate(fs):
        if f.repeated:
            w(f'    A(g_info[{i}] && g_info_count[{i}] == 1 && g_info[{i}]->tag == {f.number} '
              f'&& g_info[{i}]->length == 0, "C10 C06 {f.name} starts with no items");')
    w('}')
    w(f'static void havoc_message(void)\n{{\n    {st} any;\n    *g_m = any;\n'
      '    g_m->base.heap_p = &g_heap;\n    g_before = *g_m;\n}')
    w('static void stepped(void)\n{\n    g_after = *g_m;\n'
      '    if (!g_more) { unchanged(g_m, &g_before, -1, 0); return; }\n'
      '    A(g_tag != -1, "C10 the tag of a record is read");\n'
      '    A(g_tag == 0 || g_consumed == 1, "C10 a record is consumed exactly once");\n'
      '    unchanged(g_m, &g_before, g_tag, 0);\n'
      '    switch (g_tag) {')
    for i, f in enumerate(fs):
        x = f.at('g_m')
        w(f'    case {f.number}:')
        w(f'        A(g_wire == {f.op}, "C10 a record of {f.name} is read as {f.kind}");')
        if f.repeated:
            w(f'        A(g_pass == {PASS.get(f.item, "P_VARINT")}, "C10 C06 items of {f.name} are counted as {f.kind}");')
            w(f'        A({f.value_equal("g_m", "(&g_before)")}, "C10 items of {f.name} are stored after the loop");')
        elif f.kind == 'string':
            w(f'        A({x} == g_string, "C10 C11 the string is stored in {f.name}");')
        elif f.kind == 'bytes':
            w(f'        A({x}.buf_p == g_bytes.buf_p && {x}.size == g_bytes.size, "C10 C11 the bytes are stored in {f.name}");')
        elif f.kind == 'message':
            w(f'        A((void *){x} == g_message, "C10 C11 the message is stored in {f.name}");')
            w(f'        A(g_sub_size == sizeof({f.sub.struct}) && g_sub_init == (void (*)()){f.sub.cname}_init '
              f'&& g_sub_decode == (void (*)()){f.sub.cname}_decode_inner, "C10 {f.name} is decoded as {f.sub.name}");')
        else:
            w(f'        A({payload(f.kind, x)} == {decoded(f.kind)}, "C10 C11 the value is stored in {f.name}");')
        if f.optional:
            w(f'        A({f.present("g_m")}, "C11 {f.name} is present after it occurred");')
        if f.selector:
            w(f'        A({f.present("g_m")}, "C11 the oneof selects the member {f.name} decoded last");')
        w('        break;')
    w('    case 0:\n        break;\n'
      '    default:\n        A(g_skipped, "C10 C08 an undeclared field is skipped");\n        break;\n    }\n}')
    w(f'static void h_decode(void)\n{{\n    struct pbtools_decoder_t d, d0;\n    {st} m;\n    size_t k;\n'
      '    start();\n    g_mode = MODE_STEP;\n    m.base.heap_p = &g_heap;\n    g_m = &m;\n    g_before = m;\n'
      '    d0 = d;\n    g_decoder = &d;\n    g_string = nondet_ptr();\n    g_bytes.buf_p = nondet_ptr();\n'
      '    g_bytes.size = (size_t)nondet_u64();\n    g_message = nondet_ptr();\n'
      f'    {n}_decode_inner(&d, &m);\n'
      '    if (g_more && g_tag == 0) return;\n'
      '    A(g_done, "C10 decoding goes on until no data is left");')
    w('    unchanged(&m, &g_after, -1, 0);')
    for i, f in enumerate(fs):
        r = f'g_final[{i}]'
        if not f.repeated:
            w(f'    A({r}.count == 0, "C10 {f.name} is not decoded as repeated");')
            continue
        w(f'    A({r}.count == 1, "C10 C06 items of {f.name} are decoded exactly once");')
        w(f'    A({r}.p == &{f.at("(&m)")}, "C10 C06 items of {f.name} are stored in it");')
        w(f'    A({r}.kind == {f.item}, "C10 C06 items of {f.name} are decoded as {f.kind}");')
        if f.sub:
            w(f'    A({r}.size == sizeof({f.sub.struct}) && {r}.fn == (void (*)()){f.sub.cname}_decode_inner '
              f'&& {r}.init == (void (*)()){f.sub.cname}_init, "C10 C06 items of {f.name} are decoded as {f.sub.name}");')
    w('    A(g_final[MAXS].count == 0, "C10 C06 nothing else is decoded as repeated");')
    w('    A(d.buf_p == d0.buf_p && d.size == d0.size && d.pos == d0.pos && d.heap_p == d0.heap_p, '
      '"C16 the decoder changes only through the runtime");')
    w('    if (g_more) A(0, "PROBE decode a record");\n    A(0, "PROBE decode");\n}')

    # -- new messages
    w(f'static void defaults({st} *m)\n{{')
    for f in fs:
        if f.optional:
            w(f'    A(!{f.present("m")}, "C11 C09 new: optional {f.name} is not present");')
        elif f.selector:
            pass
        elif f.kind == 'string' and not f.repeated:
            w(f'    A({f.at("m")} != 0 && {f.at("m")}[0] == 0, "C11 C09 new: {f.name} is empty");')
        else:
            w(f'    A(!({f.present("m")}), "C11 C09 new: {f.name} has its default");')
    for sel, o in oneofs:
        w(f'    A(m->{sel} == {S.snake(o.message.full + "." + o.name)}_none_e, "C11 new: oneof {o.name} selects no member");')
        w(f'    A(m->{sel} == 0, "C11 new: oneof {o.name} selects no member");')
    w('}')
    w(f'static void h_init(void)\n{{\n    {st} m;\n    struct pbtools_heap_t heap;\n    start();\n'
      f'    {n}_init(&m, &heap);\n    defaults(&m);\n'
      '    A(m.base.heap_p == &heap, "C11 C05 new: the message is tied to its workspace");\n'
      '    A(0, "PROBE init");\n}')

    # -- allocation, oneof selection and entry points
    calls = []
    for f in fs:
        fn = f'{n}_{f.f.cname}'
        if f.repeated:
            calls.append((
                f'r = {fn}_alloc(&m, length);',
                [(f'g_call.count == 1 && r == g_call.ret && g_call.length == length && g_call.dest == (void *)&m.{member(f.f)}',
                  f'C05 C10 {f.name}: allocates the asked number of items'),
                 (f'g_call.kind == {MEMORY.get(f.item, f.item)}', f'C05 C10 {f.name}: items of {f.kind}'),
                 ((f'g_call.heap == m.base.heap_p && g_call.item_size == sizeof({f.sub.struct}) && '
                   f'g_call.init == (void (*)()){f.sub.cname}_init') if f.sub else
                  'g_call.base == (void *)&m.base', f'C05 C11 {f.name}: items are default {f.kind}')],
                f.number))
        elif f.sub:
            calls.append((
                f'r = {fn}_alloc(&m);',
                [(f'g_call.count == 1 && r == g_call.ret && g_call.kind == \'a\' && g_call.dest == (void *)&m.{member(f.f)} && '
                  f'g_call.heap == m.base.heap_p && g_call.item_size == sizeof({f.sub.struct}) && '
                  f'g_call.init == (void (*)()){f.sub.cname}_init',
                  f'C05 C11 {f.name}: allocates a default {f.sub.name}')]
                + ([(f'r != 0 || m.{f.selector} == {f.choice}', f'C11 {f.name}: the oneof selects the allocated member')]
                   if f.selector else []),
                f.number))
        elif f.selector:
            x = f.at('(&m)')
            # CBMC may lose track of what a pointer in a union points to
            dflt = f'({x} == "" || ({x} != 0 && {x}[0] == 0))' if f.kind == 'string' else \
                f'{x}.size == 0' if f.kind == 'bytes' else f'{payload(f.kind, x)} == 0'
            calls.append((
                f'{fn}_init(&m);',
                [(f'm.{f.selector} == {f.choice}', f'C11 {f.name}: the oneof selects the initialised member'),
                 (dflt, f'C11 {f.name}: the initialised member has its default'),
                 ('g_call.count == 0', f'C05 {f.name}: allocates nothing')],
                f.number))
    if m.parent is None:
        calls += [
            (f'p = {n}_new(w, size);',
             [(f'g_call.count == 1 && g_call.kind == \'n\' && p == g_call.result && g_call.buf == w && g_call.size == size && '
               f'g_call.item_size == sizeof({st}) && g_call.init == (void (*)()){n}_init', 'C05 C11 new: makes a default message')], -1),
            (f'r = {n}_encode(&m, w, size);',
             [(f'g_call.count == 1 && g_call.kind == \'e\' && r == g_call.ret && g_call.base == (void *)&m && g_call.buf == w && g_call.size == size && '
               f'g_call.fn == (void (*)()){n}_encode_inner', 'C03 C09 C10 encode: encodes this message into the buffer')], -1),
            (f'r = {n}_decode(&m, w, size);',
             [(f'g_call.count == 1 && g_call.kind == \'d\' && r == g_call.ret && g_call.base == (void *)&m && g_call.buf == w && g_call.size == size && '
               f'g_call.fn == (void (*)()){n}_decode_inner', 'C04 C09 C10 decode: decodes the input into this message')], -1)]
    w(f'static void h_api(void)\n{{\n    {st} m;\n    void *p, *w = nondet_ptr();\n    size_t size = (size_t)nondet_u64();\n'
      '    int r, length = nondet_int();\n    start();\n    m.base.heap_p = &g_heap;\n    g_before = m;\n'
      '    g_call.ret = nondet_int();\n    g_call.result = nondet_ptr();\n    switch (nondet_int()) {')
    for i, (call, posts, number) in enumerate(calls):
        w(f'    case {i}:\n        {call}')
        for c, text in posts:
            w(f'        A({c}, "{text}");')
        w(f'        unchanged(&m, &g_before, {number}, 0);')
        w('        break;')
    w('    default:\n        break;\n    }\n    A(0, "PROBE api");\n}')

    # -- round trip
    used = {f.number for f in fs}
    unknown = next(x for x in range(1, 10000) if x not in used)
    w(f'static void h_round(void)\n{{\n    struct pbtools_encoder_t e;\n    struct pbtools_decoder_t d;\n    {st} m, m2;\n'
      '    start();\n    any_message(&m);')
    for sel, o in oneofs:
        w(f'    ASSUME(m.{sel} >= 0 && m.{sel} <= {len(o.fields)});')
    w(f'    g_encoder = &e;\n    {n}_encode_inner(&e, &m);\n'
      f'    g_unknown = {unknown};\n    g_mode = MODE_REPLAY;\n    g_index = -1;\n    g_decoder = &d;\n'
      f'    {n}_init(&m2, &g_heap);\n    g_m = &m2;\n    {n}_decode_inner(&d, &m2);')
    for f in fs:
        a, b = '(&m)', '(&m2)'
        if f.kind == 'string' and not (f.repeated or f.selector or f.optional):
            c = f'({f.value_equal(a, b)} || ({f.at(a)}[0] == 0 && {f.at(b)}[0] == 0))'
        else:
            c = f.equal(a, b)
        w(f'    A({c}, "C09 C11 {f.name} comes back as it was");')
    for sel, o in oneofs:
        w(f'    A(m.{sel} == m2.{sel}, "C09 C11 oneof {o.name} comes back as it was");')
    w('    A(0, "PROBE round trip");\n}')

    w('int main(void)\n{\n    switch (nondet_int()) {\n    case 0: h_encode(); break;\n'
      '    case 1: h_decode(); break;\n    case 2: h_init(); break;\n    case 3: h_api(); break;\n'
      '    case 4: h_enums(); break;\n    default: h_round(); break;\n    }\n    return 0;\n}')
    return '\n'.join(t) + '\n', len(fs)


def closure(f, seen=None):
    """f's imports, then f."""
    seen = seen if seen is not None else []
    for i in f.imports:
        closure(i, seen)
    if f not in seen:
        seen.append(f)
    return seen


def unit(f, m, d):
    """Writes message m's translation unit; returns its path and unwinding."""
    body, n = checks(m)
    s = f'#define MAXS {n + 1}\n#include "{VERIF}/c/gen/stubs.h"\n'
    s += ''.join(f'#include "{x.source}"\n' for x in closure(f))
    s += 'static void h_enums(void)\n{\n'
    for e in f.all_enums():
        for name, value in e.values:
            s += (f'    A({e.enumerator(name)} == {value} || (long long){e.enumerator(name)} == {value}ll, '
                  f'"C10 {e.name}.{name} is {value}");\n')
    s += '    A(0, "PROBE enums");\n}\n'
    path = f'{d}/contract_{m.cname}.c'
    with open(path, 'w') as o:
        o.write(s + body)
    return path, n + 3


LOCALS = re.compile(r'^    (?:int wire_type|struct pbtools_repeated_info_t repeated_info_\w+);$')


def other_locals(f, m, d):
    """Locals of the decode function, other than those the contract havocs:
    with any, one iteration is not an arbitrary one."""
    text = open(f'{d}/{f.source}').read()
    i = text.find(f'\n{m.cname}_decode_inner(')
    i = max(i, text.find(f' {m.cname}_decode_inner(\n'))
    j = text.find('while (pbtools_decoder_available', i)
    if i < 0 or j < 0:
        return True
    body = text[text.find('{\n', i) + 2:j]
    for line in body.splitlines():
        if line.strip() and not line.strip().startswith('(void)') and not LOCALS.match(line) \
                and 'pbtools_repeated_info_init(' not in line:
            return True
    return False


def run_unit(f, m, d, deadline):
    """Discharges one message's contract; returns an engine.Outcome."""
    t = time.time()
    ob = engine.Obligation(f'{f.name}/{m.full}', f'contract_{m.cname}.c', 'main',
                           m.cname + '_*', small=False, contract=False)
    o = engine.Outcome(ob)
    o.unit = ''
    o.traces = {}
    o.context = lambda: 'schema:\n' + '\n'.join(
        f'--- {x.name}.proto\n{S.text(x)}' for x in closure(f)) \
        + f'message: {m.full}\n'
    try:
        path, unwind = unit(f, m, d)
        o.unit = path
    except Exception as e:
        o.note = f'unit: {e!r}'
        return o
    out_gb = path[:-2] + '.gb'
    rc, out, err = sh(['goto-cc', f'-I{d}', f'-I{REPO}/lib/include', path, '-o', out_gb])
    if rc != 0:
        o.note = 'goto-cc: ' + (err + out)[-800:]
        return o
    args = ['cbmc', out_gb, '--json-ui', '--unwind', str(unwind),
            '--unwinding-assertions', '--pointer-check', '--bounds-check',
            '--signed-overflow-check', '--no-pointer-primitive-check',
            '--object-bits', '12', '--trace']
    rc, out, err = sh(args, timeout=max(1, min(200, deadline - time.time())))
    o.seconds = time.time() - t
    if rc is None:
        o.note = 'timeout'
        return o
    try:
        data = json.loads(out)
    except ValueError:
        o.note = 'cbmc: ' + (out + err)[-500:]
        return o
    missing = set()
    results = []
    for x in data:
        results += x.get('result', [])
        text = x.get('messageText', '')
        if 'no body for' in text:
            mm = re.search(r"no body for (?:function|callee) '?([A-Za-z_0-9]+)", text)
            if not mm or not mm.group(1).startswith('nondet_'):
                missing.add(mm.group(1) if mm else text)
    for r in results:
        name, text = r['property'], r.get('description', '')
        o.props[name] = r['status']
        o.descriptions[name] = text
        if text.startswith('PROBE'):
            o.nprobes += 1
            if r['status'] == 'SUCCESS':
                o.vacuous.append(name)
            continue
        o.nobl += 1
        if r['status'] == 'SUCCESS':
            continue
        if r['status'] == 'FAILURE' and '.unwind.' not in name \
                and '.recursion' not in name:
            o.refuted.append(name)
            o.traces[name] = values(r.get('trace', []))
        else:
            o.open.append(name)
    if missing:
        o.note += ' functions without a body: ' + ', '.join(sorted(missing))
        o.open += o.refuted
        o.refuted = []
    o.status = 'undecided' if missing or not o.nobl else \
        'refuted' if o.refuted else \
        'undecided' if o.open or o.vacuous else 'discharged'
    if o.status == 'discharged' and other_locals(f, m, d):
        ob.bounded = 'one loop iteration from the state before the loop: the decode ' \
            'function carries locals the contract does not know'
    return o


def values(trace):
    res = {}
    for step in trace:
        if step.get('stepType') == 'assignment':
            lhs, v = step.get('lhs', ''), step.get('value', {})
            if 'data' in v and (re.fullmatch(r'g_(tag|wire_type|varint|w32|w64|more|call\.\w+)', lhs)
                                or re.match(r'm2?\.', lhs)):
                res[lhs] = v['data']
    return res


CACHE = {}


def contracts(pid, nrand=6, pick=None):
    """Program for check `pid`: outcomes restricted to the assertions that
    carry its id (memory safety and coverage count for all)."""
    def run(ctx):
        seeds = [ctx.seed] if not ctx.thorough else [ctx.seed + 1000 * i for i in range(4)]
        res = []
        for k, seed in enumerate(seeds):
            files = family.family(seed, nrand)
            d = f'{ctx.scratch}/contracts{k}'
            try:
                family.generate(files, d)
            except family.GeneratorFailed as e:
                continue        # reported by the message program
            units = [(f, m) for f in files for m in f.all_messages()]
            with concurrent.futures.ThreadPoolExecutor(engine.JOBS) as ex:
                res += ex.map(lambda u: run_unit(*u, d, ctx.deadline), units)
        for o in res:
            restrict(o, pid)
        return res
    return run


def restrict(o, pid):
    def mine(n):
        t = o.descriptions.get(n, '')
        ids = re.findall(r'C\d\d', t.split(' the ')[0][:40])
        return pid in ids or not ids
    o.refuted = [n for n in o.refuted if mine(n)]
    o.open = [n for n in o.open if mine(n)]
    o.nobl = sum(1 for n, t in o.descriptions.items() if mine(n) and not t.startswith('PROBE'))
    if o.status == 'refuted' and not o.refuted:
        o.status = 'undecided' if o.open or o.vacuous else 'discharged'
