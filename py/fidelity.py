"""C15: contract of parse_file: the result has exactly the declared content,
and text that does not follow the grammar is rejected at the offending token."""
import os
import random
import re

from common import SEED, THOROUGH, Violation, main, require

import pbtools
import textparser
import grammar

SCALARS = ['int32', 'int64', 'sint32', 'sint64', 'uint32', 'uint64', 'fixed32',
           'fixed64', 'sfixed32', 'sfixed64', 'float', 'double', 'bool', 'string',
           'bytes']
KEYS = [t for t in SCALARS if t not in ('float', 'double', 'bytes')]
# words that mean something elsewhere in the grammar
FIELD_WORDS = ['syntax', 'package', 'message', 'repeated', 'enum', 'service', 'rpc',
               'returns', 'stream', 'import', 'oneof', 'option', 'true', 'false',
               'map', 'reserved', 'max', 'to', 'weak', 'public', 'optional',
               'int32', 'string', 'key', 'value']
TYPE_WORDS = ['to', 'max', 'weak', 'public', 'returns', 'import', 'package',
              'syntax', 'service', 'rpc']


class Gen:
    """Makes a schema: its tokens, and what parsing it has to give."""

    def __init__(self, r, imports):
        self.r = r
        self.toks = []
        self.used = set()
        self.known = imports        # [(path, package, enum names, message names)]
        self.kinds = {}             # type name -> kind, top level

    def o(self, text):
        """Appends tokens given as text separated by spaces."""
        self.toks += text.split(' ')

    def fresh(self, kind, words=(), used=None):
        r = self.r
        used = self.used if used is None else used
        while True:
            k = r.random()
            if k < .25 and words:
                n = r.choice(words)
            elif k < .5:
                n = kind + str(r.randint(0, 999))
            else:
                n = r.choice(['a', 'Ab', 'fooBar', 'X_y', 'm', 'Z9', 'is_ok', 'UPPER',
                              'tail_', 'messageX', 'enumeration', 'mapped', 'e1', 'x0']) \
                    + r.choice(['', str(r.randint(0, 99))])
            if n not in used:
                used.add(n)
                return n

    def number(self, lo, hi):
        """(text, value) in one of the notations."""
        r = self.r
        v = r.choice([lo, hi, r.randint(lo, hi), r.randint(max(lo, -20), min(hi, 20))])
        return self.notate(v), v

    def notate(self, v):
        sign, a = '-' if v < 0 else '', abs(v)
        t = self.r.choice(['{:d}', '{:d}', '{:d}', '0x{:x}', '0X{:X}', '0{:o}', '0x00{:x}'])
        if a == 0 and t == '{:d}':
            t = self.r.choice(['{:d}', '0{:o}', '0x{:x}'])
        return sign + t.format(a)

    def fullname(self):
        return '.'.join(self.r.choice(['a', 'b2', 'Foo', 'max', 'x_y', 'enum', 'option'])
                        for _ in range(self.r.randint(1, 3)))

    def string(self):
        r = self.r
        s = ''.join(r.choice(['a', 'b', ' ', '\\"', '\\\\', '/', '//', '/*', '*/', ';', '{',
                              "'", '\u00e9', '.', '=', '0', '\\n', '\\x41', 'proto3'])
                    for _ in range(r.randint(0, 6)))
        return r.choice([s, s, 'proto3', ''])

    def constant(self):
        """(token text, kind, value)"""
        r = self.r
        k = r.choice(['string', 'string', 'bool', 'ident', 'integer'])
        if k == 'string':
            s = self.string()
            return f'"{s}"', k, s
        if k == 'bool':
            b = r.choice([True, False])
            return str(b).lower(), k, b
        if k == 'ident':
            n = self.fullname()
            return n, k, n
        t, v = self.number(-2**31, 2**31)
        return t, k, v

    def dotted(self, name):
        """Tokens of a dotted name."""
        for i, part in enumerate(name.split('.')):
            if i:
                self.toks.append('.')
            self.toks.append(part)

    def option_name(self):
        r = self.r
        if r.random() < .4:
            n = self.fullname()
            self.toks.append('(')
            self.dotted(n)
            self.toks.append(')')
            name = f'({n})'
        else:
            name = r.choice(['java_package', 'optimize_for', 'deprecated', 'option', 'max'])
            self.toks.append(name)
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            p = r.choice(['y', 'zz', 'to', 'Q1'])
            self.toks += ['.', p]
            name += '.' + p
        return name

    def assign(self):
        name = self.option_name()
        self.toks.append('=')
        t, kind, value = self.constant()
        if kind == 'ident':
            self.dotted(t)
        else:
            self.toks.append(t)
        return name, kind, value

    def field_options(self):
        if self.r.random() < .3:
            self.toks.append('[')
            for i in range(self.r.choice([1, 1, 2, 3])):
                if i:
                    self.toks.append(',')
                self.assign()
            self.toks.append(']')

    def empties(self):
        while self.r.random() < .12:
            self.toks.append(';')

    def enum(self, name, values):
        self.o('enum'), self.toks.append(name), self.toks.append('{')
        self.empties()
        for n, v in values:
            self.toks += [n, '=', self.notate(v)]
            self.field_options()
            self.toks.append(';')
            self.empties()
        self.toks.append('}')

    def values(self):
        used = set()
        n = self.r.randint(1, 5)
        return [(self.fresh('V', FIELD_WORDS, used),
                 0 if i == 0 else self.r.choice([1, -1, 2**31 - 1, -2**31, 8, 9, 255,
                                                 self.r.randint(-500, 500)]))
                for i in range(n)]

    def type_ref(self, scopes):
        """Picks a type: (kind, name); writes its tokens."""
        r = self.r
        if r.random() < .55:
            t = r.choice(SCALARS)
            self.toks.append(t)
            return 'scalar-value-type', t
        local = [(n, k) for s in scopes for n, k in s.items()]
        n, k = r.choice(local)
        top = n in self.kinds
        if top and r.random() < .4:
            if self.package and r.random() < .6:
                if r.random() < .5:
                    self.toks.append('.')
                self.dotted(self.package)
                self.toks.append('.')
            elif not self.package:
                self.toks.append('.')
        self.toks.append(n)
        return k, n

    def message(self, name, scopes, depth):
        """Returns what it declares."""
        r = self.r
        self.toks += ['message', name, '{']
        self.empties()
        inner = {}
        todo = []
        for _ in range(r.choice([0, 0, 1, 2]) if depth < 3 else 0):
            n = self.fresh('In', TYPE_WORDS)
            k = r.choice(['enum', 'message'])
            inner[n] = k
            todo.append((k, n))
        scopes = scopes + [inner]
        used = set()
        exp = {'name': name, 'fields': [], 'oneofs': [], 'enums': [], 'messages': {}}
        todo += [('field', None)] * r.randint(0, 5)
        todo += [('map', None)] * r.choice([0, 0, 0, 1, 2])
        todo += [('oneof', None)] * r.choice([0, 0, 1, 2])
        todo += [('reserved', None)] * r.choice([0, 0, 0, 1])
        r.shuffle(todo)
        for what, n in todo:
            if what == 'enum':
                values = self.values()
                self.enum(n, values)
                exp['enums'].append((n, values))
            elif what == 'message':
                exp['messages'][n] = self.message(n, scopes, depth + 1)
            elif what == 'field':
                label = r.choice(['', '', 'repeated', 'optional'])
                if label:
                    self.toks.append(label)
                mark = len(self.toks)
                kind, t = self.type_ref(scopes)
                if label == 'optional' and kind == 'message':
                    self.toks[mark - 1:] = ['repeated'] + self.toks[mark:]
                    label = 'repeated'
                f = self.fresh('f', FIELD_WORDS, used)
                num, v = self.number(1, 536870911)
                self.toks += [f, '=', num]
                self.field_options()
                self.toks.append(';')
                exp['fields'].append((f, v, t, kind, label))
            elif what == 'map':
                key = r.choice(KEYS)
                self.toks += ['map', '<', key, ',']
                kind, t = self.type_ref(scopes)
                f = self.fresh('m', FIELD_WORDS, used)
                num, v = self.number(1, 536870911)
                self.toks += ['>', f, '=', num]
                self.field_options()
                self.toks.append(';')
                exp['fields'].append((f, v, ('map', key, t, kind), 'message', 'repeated'))
            elif what == 'oneof':
                o = self.fresh('o', FIELD_WORDS, used)
                self.toks += ['oneof', o, '{']
                self.empties()
                members = []
                for _ in range(r.randint(1, 4)):
                    kind, t = self.type_ref(scopes)
                    f = self.fresh('of', FIELD_WORDS, used)
                    num, v = self.number(1, 536870911)
                    self.toks += [f, '=', num, ';']
                    self.empties()
                    members.append((f, v, t, kind))
                self.toks.append('}')
                exp['oneofs'].append((o, members))
            else:
                self.toks.append('reserved')
                if r.random() < .5:
                    for i in range(r.randint(1, 3)):
                        if i:
                            self.toks.append(',')
                        self.toks.append(self.notate(r.randint(1, 900)))
                        if r.random() < .4:
                            self.toks += ['to', r.choice(['max', self.notate(1000)])]
                else:
                    for i in range(r.randint(1, 3)):
                        if i:
                            self.toks.append(',')
                        self.toks.append(f'"{self.fresh("r")}"')
                self.toks.append(';')
            self.empties()
        self.toks.append('}')
        return exp

    def service(self):
        r = self.r
        name = self.fresh('Srv')
        self.toks += ['service', name, '{']
        rpcs = []
        for _ in range(r.randint(0, 4)):
            self.empties()
            if r.random() < .25:
                self.toks.append('option')
                self.assign()
                self.toks.append(';')
            n = self.fresh('Call', FIELD_WORDS)
            self.toks += ['rpc', n]
            parts = []
            for k in range(2):
                self.toks.append('(')
                s = r.random() < .4
                if s:
                    self.toks.append('stream')
                t = r.choice(list(self.kinds) + ['other.pk.T', 'T'])
                self.dotted(t)
                self.toks.append(')')
                parts += [t, s]
                if k == 0:
                    self.toks.append('returns')
            if r.random() < .4:
                self.toks.append('{')
                for _ in range(r.choice([0, 1, 2])):
                    self.toks.append('option')
                    self.assign()
                    self.toks.append(';')
                self.toks.append('}')
            else:
                self.toks.append(';')
            rpcs.append((n, *parts))
        self.empties()
        self.toks.append('}')
        return name, rpcs

    def file(self):
        r = self.r
        self.package = r.choice([None, 'p', 'p.q', 'a_b.c9.D', 'max.to'])
        self.toks = ['syntax', '=', '"proto3"', ';']
        exp = {'package': self.package, 'imports': [], 'options': [], 'enums': [],
               'messages': {}, 'services': []}
        todo = []
        if self.package:
            todo.append(('package', None))
        for imp in self.known:
            if r.random() < .6:
                todo.append(('import', imp))
        todo += [('option', None)] * r.choice([0, 1, 2, 3])
        todo += [('service', None)] * r.choice([0, 0, 1, 2])
        for _ in range(r.randint(1, 4)):
            n = self.fresh('T', TYPE_WORDS)
            k = r.choice(['enum', 'message', 'message'])
            self.kinds[n] = k
            todo.append((k, n))
        r.shuffle(todo)
        for what, n in todo:
            self.empties()
            if what == 'package':
                self.toks.append('package')
                self.dotted(self.package)
                self.toks.append(';')
            elif what == 'import':
                self.toks += ['import'] + r.choice([[], [], ['weak'], ['public']]) \
                    + [f'"{n[0]}"', ';']
                exp['imports'].append(n)
            elif what == 'option':
                self.toks.append('option')
                exp['options'].append(self.assign())
                self.toks.append(';')
            elif what == 'service':
                exp['services'].append(self.service())
            elif what == 'enum':
                values = self.values()
                self.enum(n, values)
                exp['enums'].append((n, values))
            else:
                exp['messages'][n] = self.message(n, [self.kinds], 0)
        self.empties()
        return exp


def layout(r, toks):
    """Tokens with white space between them, where it is needed or not."""
    word = re.compile(r'[\w\-]')
    style = r.choice(['dense', 'wild', 'plain'])
    out = [r.choice(['', '\n', '  '])]
    for i, t in enumerate(toks):
        if i:
            need = word.match(toks[i - 1][-1]) and word.match(t[0])
            if style == 'dense':
                sep = ' ' if need else ''
            elif style == 'plain':
                sep = '\n' if toks[i - 1] in (';', '{', '}') else ' '
            else:
                sep = r.choice([' ', '\n', '\t', '\r\n', '  \n ', '' if not need else ' '])
            out.append(sep)
        out.append(t)
    out.append(r.choice(['', '\n', '\n\n', ' ']))
    return ''.join(out)


def equal(text, what, got, want):
    require(got == want, what.split(' ')[0], lambda:
            f'{what}: parsed as {got!r}, declared as {want!r} in\n{text}')


def compare_message(text, m, want, names):
    where = '.'.join(names)
    equal(text, f'name of message {where}', m.name, want['name'])
    equal(text, f'full_name of message {where}', m.full_name, where)
    compare_enums(text, where, m.enums, want['enums'])
    maps = {}
    fields = []
    for f in m.fields:
        label = 'repeated' if f.repeated else 'optional' if f.optional else ''
        if f.repeated and f.optional:
            label = 'both'
        entries = [x for x in m.messages if x.name == f.type and f.type not in want['messages']]
        if entries:
            e = entries[0]
            equal(text, f'entry of map {where}.{f.name}',
                  [(x.name, x.field_number, x.repeated, x.optional) for x in e.fields],
                  [('key', 1, False, False), ('value', 2, False, False)])
            maps[e.name] = e
            t = ('map', e.fields[0].type, e.fields[1].type, e.fields[1].type_kind)
        else:
            t = f.type
        fields.append((f.name, f.field_number, t, f.type_kind, label))
    equal(text, f'fields of message {where}', fields, want['fields'])
    equal(text, f'oneofs of message {where}',
          [(o.name, [(f.name, f.field_number, f.type, f.type_kind) for f in o.fields])
           for o in m.oneofs], want['oneofs'])
    nested = [x for x in m.messages if x.name not in maps]
    equal(text, f'messages in message {where}', sorted(x.name for x in nested),
          sorted(want['messages']))
    for x in nested:
        compare_message(text, x, want['messages'][x.name], names + [x.name])


def compare_enums(text, where, got, want):
    equal(text, f'enums of {where}',
          [(e.name, [(f.name, f.field_number) for f in e.fields]) for e in got], want)
    for e in got:
        equal(text, f'full_name of enum {where}', e.full_name,
              (where + '.' if where else '') + e.name)


def compare(text, p, want):
    equal(text, 'package', p.package, want['package'])
    equal(text, 'imports', [(i.path, i.package, i.enums, i.messages) for i in p.imports],
          want['imports'])
    equal(text, 'options', [(o.name, o.kind, o.value) for o in p.options], want['options'])
    for o in p.options:
        equal(text, 'option value type', type(o.value).__name__,
              {'string': 'str', 'ident': 'str', 'bool': 'bool', 'integer': 'int'}[o.kind])
    base = want['package'] or ''
    compare_enums(text, base, p.enums, want['enums'])
    equal(text, 'messages', sorted(m.name for m in p.messages), sorted(want['messages']))
    for m in p.messages:
        compare_message(text, m, want['messages'][m.name], ([base] if base else []) + [m.name])
    equal(text, 'services',
          [(s.name, [(c.name, c.request_type.lstrip('.'), c.request_stream,
                      c.response_type.lstrip('.'), c.response_stream) for c in s.rpcs])
           for s in p.services], want['services'])


def imports(d):
    """Files to import: [(path, package, enum names, message names)]"""
    os.makedirs(f'{d}/sub.dir', exist_ok=True)
    files = [('one.proto', 'i.one', ['IE1', 'IE2'], ['IM1']),
             ('sub.dir/two.proto', None, [], ['IM2', 'IM3']),
             ('three.proto', 'p', ['IE4'], [])]
    for path, package, enums, messages in files:
        with open(f'{d}/{path}', 'w') as f:
            f.write('syntax = "proto3"; // x\n' + (f'package {package};' if package else ''))
            for e in enums:
                f.write(f'enum {e} {{ {e}_A = 0; }}')
            for m in messages:
                f.write(f'message {m} {{ message In{m} {{}} int32 a = 1; }}')
    return files


def write(text, name='x.proto'):
    with open(name, 'w', encoding='utf-8', newline='') as f:
        f.write(text)


def parse(text):
    write(text)
    return pbtools.parse_file('x.proto', ['.'])


def content(d):
    """Random schemas of the whole grammar, in random layouts."""
    files = imports(d)
    for k in range(12000 if THOROUGH else 2500):
        r = random.Random((SEED << 20) + k)
        g = Gen(r, files)
        want = g.file()
        text = layout(r, g.toks)
        bad = grammar.judge(text)
        assert bad is None, text[bad:] + '\n----\n' + text
        try:
            p = parse(text)
        except Exception as e:
            raise Violation('rejected', f'{e!r} for\n{text}')
        compare(text, p, want)
        yield text


POOL = ['{', '}', ';', '=', '.', ',', '(', ')', '[', ']', '<', '>', '1', '-1', '0x1F', 'x',
        '"s"', '"proto3"', 'message', 'enum', 'oneof', 'map', 'repeated', 'optional',
        'reserved', 'to', 'max', 'stream', 'rpc', 'returns', 'service', 'option', 'import',
        'package', 'syntax', 'true', 'int32', 'weak', 'public']


def mutate(r, toks):
    toks = list(toks)
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.choice(['delete', 'insert', 'replace', 'swap', 'cut', 'double', 'steal'])
        i = r.randrange(len(toks))
        if k == 'delete':
            del toks[i]
        elif k == 'insert':
            toks.insert(i, r.choice(POOL))
        elif k == 'replace':
            toks[i] = r.choice(POOL)
        elif k == 'swap' and i:
            toks[i - 1], toks[i] = toks[i], toks[i - 1]
        elif k == 'cut':
            toks = toks[:i + 1]
        elif k == 'double':
            toks.insert(i, toks[i])
        elif k == 'steal':
            j = r.randrange(len(toks))
            toks[i:i] = toks[j:j + r.randint(1, 4)]
        if not toks:
            toks = ['}']
    return toks


def position(text, offset):
    # files are read with universal newlines
    t = text[:offset].replace('\r\n', '\n')
    return f'line {t.count(chr(10)) + 1}, column {len(t) - t.rfind(chr(10))}:'


def candidates(text, bad):
    """Where an error at offset bad may be reported: there, or at a delimiter
    of the list it is part of."""
    res = [bad]
    for kind, value, offset in reversed(grammar.tokenize(text[:bad])[0] or []):
        if value in (';', '{', '}'):
            break
        if value in ('.', ','):
            res.append(offset)
    return res


def rejected(d):
    """Changed schemas: rejected exactly when the grammar rejects them, at the
    offending token; whatever happens, no internal error."""
    files = imports(d)
    for k in range(30000 if THOROUGH else 6000):
        r = random.Random((SEED << 20) + 7000000 + k)
        g = Gen(r, files)
        g.file()
        text = layout(r, mutate(r, g.toks))
        bad = grammar.judge(text)
        try:
            parse(text)
            err = None
        except (pbtools.Error, textparser.Error) as e:
            err = str(e)
        except Exception as e:
            raise Violation('internal error', f'{e!r} for\n{text}')
        if bad is None:
            require(err is None or not re.search(r'line \d+, column \d+', err),
                    'rejected', lambda: f'{err} for a schema that follows the grammar\n{text}')
        else:
            require(err is not None, 'accepted', lambda:
                    f'accepted, but not a schema from offset {bad} on ({text[bad:bad + 20]!r}):\n{text}')
            allowed = [position(text, o) for o in candidates(text, bad)]
            require(any(p in err for p in allowed), 'position', lambda:
                    f'{err}: expected {allowed[0]} in\n{text}')
        yield text


def bad_values(d):
    """Errors other than those of the grammar are errors of pbtools, too."""
    for text, name in (
            ('enum E { A = 08; }', '08'), ('message M { int32 a = 09; }', '09'),
            ('message M { int32 a = 1; repeated Foo x = 2; }', 'Foo'),
            ('message M { oneof o { Nope a = 1; } }', 'Nope'),
            ('message M { map<int32, Nope> a = 1; }', 'Nope'),
            ('message M { a.b.Nope a = 1; }', 'Nope'),
            ('message M { .Nope a = 1; }', 'Nope'),
            ('import "missing/file.proto"; message M {}', 'missing/file.proto'),
            ('option x = 08;', '08')):
        text = 'syntax = "proto3"; ' + text
        try:
            parse(text)
            err = None
        except (pbtools.Error, textparser.Error) as e:
            err = str(e)
        except Exception as e:
            raise Violation('internal error', f'{e!r} for {text}')
        require(err is not None and name in err, 'error', lambda:
                f'{err!r} for {text}')
        yield text


if __name__ == '__main__':
    main(content, rejected, bad_values)
