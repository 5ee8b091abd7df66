"""A model of proto3 schemas, independent of /repo: what a schema means, how it
is written down, and which C names the generated code gives it."""
import dataclasses
import random
import re

SCALARS = ['int32', 'int64', 'sint32', 'sint64', 'uint32', 'uint64', 'fixed32',
           'fixed64', 'sfixed32', 'sfixed64', 'float', 'double', 'bool',
           'string', 'bytes']
KEYS = [t for t in SCALARS if t not in ('float', 'double', 'bytes')]
CTYPE = {'int32': 'int32_t', 'sint32': 'int32_t', 'sfixed32': 'int32_t',
         'int64': 'int64_t', 'sint64': 'int64_t', 'sfixed64': 'int64_t',
         'uint32': 'uint32_t', 'fixed32': 'uint32_t',
         'uint64': 'uint64_t', 'fixed64': 'uint64_t',
         'float': 'float', 'double': 'double', 'bool': 'bool'}


def snake(name):
    """fooBar.BazQux -> foo_bar_baz_qux"""
    s = re.sub(r'[^a-zA-Z0-9]', '_', name)
    s = re.sub(r'(.)([A-Z][a-z]+)', r'\1_\2', s)
    s = re.sub(r'_+', '_', s)
    return re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', s).lower()


class Type:
    parent = None       # Message or None
    file = None

    @property
    def path(self):
        """Name inside the package."""
        return (self.parent.path + '.' if self.parent else '') + self.name

    @property
    def full(self):
        p = self.file.package
        return (p + '.' if p else '') + self.path

    @property
    def cname(self):
        return snake(self.full)


@dataclasses.dataclass(eq=False)
class Enum(Type):
    name: str
    values: list        # [(name, number)]

    @property
    def prefix(self):
        """Prefix of the enumerators' C names."""
        p = self.file.package
        full = '.'.join([x for x in (p, self.parent.path if self.parent else None) if x])
        return snake(full)

    def enumerator(self, name):
        return f'{self.prefix}_{snake(name)}_e'


@dataclasses.dataclass(eq=False)
class Field:
    name: str
    number: int
    type: object            # scalar name, Enum or Message
    label: str = ''         # '', optional, repeated
    key: str = ''           # map key type
    style: str = ''         # how the type name is written
    message: object = None
    oneof: object = None
    entry: object = None    # a map's entry message

    @property
    def kind(self):
        if isinstance(self.type, str):
            return self.type
        return 'enum' if isinstance(self.type, Enum) else 'message'

    @property
    def cname(self):
        return snake(self.name)


@dataclasses.dataclass(eq=False)
class Oneof:
    name: str
    fields: list
    message: object = None

    @property
    def cname(self):
        return snake(self.message.full + '.' + self.name)

    def choice(self, field):
        return f'{self.cname}_{field.cname}_e'


@dataclasses.dataclass(eq=False)
class Message(Type):
    name: str
    fields: list = dataclasses.field(default_factory=list)
    oneofs: list = dataclasses.field(default_factory=list)
    messages: list = dataclasses.field(default_factory=list)
    enums: list = dataclasses.field(default_factory=list)
    entry: bool = False

    def all_fields(self):
        return self.fields + [f for o in self.oneofs for f in o.fields]

    @property
    def struct(self):
        return f'struct {self.cname}_t'


@dataclasses.dataclass(eq=False)
class File:
    name: str               # file name without .proto
    package: str = ''
    imports: list = dataclasses.field(default_factory=list)
    enums: list = dataclasses.field(default_factory=list)
    messages: list = dataclasses.field(default_factory=list)
    services: list = dataclasses.field(default_factory=list)
    options: list = dataclasses.field(default_factory=list)

    def all_messages(self, entries=True):
        res = []

        def walk(ms):
            for m in ms:
                if m.entry and not entries:
                    continue
                res.append(m)
                walk(m.messages)
        walk(self.messages)
        return res

    def all_enums(self):
        res = list(self.enums)
        for m in self.all_messages():
            res += m.enums
        return res

    @property
    def header(self):
        return snake(self.name) + '.h'

    @property
    def source(self):
        return snake(self.name) + '.c'

    def link(self):
        """Sets parents and makes the entry messages of maps."""
        def walk(m, parent):
            m.parent, m.file = parent, self
            for e in m.enums:
                e.parent, e.file = m, self
            for o in m.oneofs:
                o.message = m
                for f in o.fields:
                    f.message, f.oneof = m, o
            for f in m.fields:
                f.message = m
                if f.key and f.entry is None:
                    f.entry = Message('PbtoolsMap' + f.name.title(), [
                        Field('key', 1, f.key), Field('value', 2, f.type)],
                        entry=True)
                    m.messages.append(f.entry)
            for s in m.messages:
                walk(s, m)
        for e in self.enums:
            e.parent, e.file = None, self
        for m in self.messages:
            walk(m, None)
        return self


def type_text(f, file):
    """How field f's type is written in its file."""
    t = f.type
    if isinstance(t, str):
        return t
    if t.parent is None and (f.style == 'package' or t.file.package != file.package) \
            and t.file.package:
        return t.full
    if t.parent is None and f.style == 'dot':
        return '.' + t.full
    return t.name


def field_text(f, file, ind):
    t = type_text(f, file)
    if f.key:
        return f'{ind}map<{f.key}, {t}> {f.name} = {f.number};\n'
    label = f.label + ' ' if f.label else ''
    return f'{ind}{label}{t} {f.name} = {f.number};\n'


def enum_text(e, ind):
    s = f'{ind}enum {e.name} {{\n'
    for n, v in e.values:
        s += f'{ind}  {n} = {v};\n'
    return s + f'{ind}}}\n'


def message_text(m, file, ind=''):
    s = f'{ind}message {m.name} {{\n'
    i2 = ind + '  '
    for e in m.enums:
        s += enum_text(e, i2)
    for x in m.messages:
        if not x.entry:
            s += message_text(x, file, i2)
    for f in m.fields:
        s += field_text(f, file, i2)
    for o in m.oneofs:
        s += f'{i2}oneof {o.name} {{\n'
        for f in o.fields:
            s += field_text(f, file, i2 + '  ')
        s += f'{i2}}}\n'
    return s + f'{ind}}}\n'


def text(file):
    s = 'syntax = "proto3";\n'
    if file.package:
        s += f'package {file.package};\n'
    for i in file.imports:
        s += f'import "{i.name}.proto";\n'
    for e in file.enums:
        s += enum_text(e, '')
    for m in file.messages:
        s += message_text(m, file)
    return s


# -- the family ----------------------------------------------------------------

def curated():
    """Schemas that together use every supported feature."""
    files = []

    def add(f):
        f.link()
        files.append(f)
        return f

    F, M, E = Field, Message, Enum
    nums = [1, 2, 15, 16, 17, 127, 128, 2047, 2048, 5000, 262143, 262144,
            33554432, 268435455, 268435456, 536870911]
    color = E('Color', [('RED', 0), ('GREEN', 1), ('BLUE', 2147483647),
                        ('NEG', -1), ('MIN', -2147483648)])
    add(File('plain', 'pl', enums=[color], messages=[
        M('All', [F(f'f{t}', n, t) for t, n in zip(SCALARS, nums)]
          + [F('col', 536870911, color)]),
        M('Small', [F('v', 1, 'int32')]),
        M('Empty'),
        M('Swapped', [F('c', 3, 'uint32'), F('a', 1, 'uint32'), F('b', 2, 'uint32'),
                      F('d', 4, 'fixed32'), F('e', 5, 'sfixed32'), F('g', 6, 'sint32'),
                      F('h', 7, 'int32')])]))
    pcol = E('Kind', [('NONE', 0), ('ONE', 1), ('TWO', 2)])
    add(File('opt', 'op.tio', enums=[pcol], messages=[
        M('All', [F(f'f{t}', i + 3, t, 'optional') for i, t in enumerate(SCALARS)]
          + [F('kind', 1, pcol, 'optional')]),
        M('Mixed', [F('a', 2, 'int32', 'optional'), F('b', 1, 'int32'),
                    F('c', 3, 'string', 'optional'), F('d', 4, 'string')])]))
    rk = E('Kind', [('ZERO', 0), ('ONE', 1), ('BIG', 100000)])
    small = M('Small', [F('v', 1, 'int32'), F('s', 2, 'string')])
    add(File('rep', 'rep', enums=[rk], messages=[
        small,
        M('All', [F(f'f{t}', i + 2, t, 'repeated') for i, t in enumerate(SCALARS)]
          + [F('kinds', 1, rk, 'repeated'), F('smalls', 200, small, 'repeated')]),
        M('Two', [F('a', 1, 'int32', 'repeated'), F('b', 2, 'int32', 'repeated'),
                  F('x', 3, 'int32'), F('c', 17, 'string', 'repeated'),
                  F('d', 18, 'bytes', 'repeated')]),
        M('Smalls', [F('a', 1, small, 'repeated'), F('b', 2, small, 'repeated'),
                     F('x', 3, 'fixed32', 'repeated')])]))
    ok = E('Kind', [('ZERO', 0), ('ONE', 1)])
    osub = M('Sub', [F('v', 1, 'sint64')])
    add(File('one', 'one', enums=[ok], messages=[
        osub,
        M('All', [F('before', 40, 'int32')], [
            Oneof('value', [F(f'v{t}', i + 2, t) for i, t in enumerate(SCALARS)]
                  + [F('vkind', 1, ok), F('vsub', 30, osub)])]),
        M('Pair', [F('x', 3, 'string')], [
            Oneof('left', [F('la', 1, 'int32'), F('lb', 2, 'string')]),
            Oneof('right', [F('ra', 4, 'int32'), F('rb', 5, osub), F('rc', 6, 'bytes'),
                            F('rd', 7, ok)])]),
        # several of everything
        M('Oneofs', [], [
            Oneof(f'x{k}', [F(f'x{k}i', 3 * i + 1, 'int64'), F(f'x{k}s', 3 * i + 2, 'string')]
                  + ([F(f'x{k}m', 3 * i + 3, osub)] if i > 1 else []))
            for i, k in enumerate('abcd')]),
        M('Many', [F(f'{w}{k}', 10 * i + j + 1, t, l)
                   for i, (w, t, l) in enumerate([
                       ('o', 'uint32', 'optional'), ('s', 'string', ''), ('b', 'bytes', ''),
                       ('m', osub, '')])
                   for j, k in enumerate('abcd')]),
        M('Arrays', [F(f'{w}{k}', 10 * i + j + 1, t, 'repeated')
                     for i, (w, t) in enumerate([('s', 'string'), ('m', osub), ('i', 'int32')])
                     for j, k in enumerate('abc')])]))
    inner = M('Inner', [F('v', 1, 'uint64'), F('w', 2, 'bytes')])
    mid = M('Mid', messages=[inner])
    mid.fields = [F('inner', 3, inner), F('inners', 4, inner, 'repeated')]
    outer_enum = E('Level', [('LOW', 0), ('HIGH', 7)])
    outer = M('Outer', messages=[mid], enums=[outer_enum])
    outer.fields = [F('level', 1, outer_enum), F('mid', 2, mid), F('mids', 5, mid, 'repeated')]
    node = M('Node', [F('value', 1, 'int32')])
    node.fields += [F('next', 2, node), F('children', 3, node, 'repeated')]
    a, b = M('Ping', [F('n', 1, 'int32')]), M('Pong', [F('n', 1, 'int32')])
    a.fields += [F('pong', 2, b), F('pongs', 3, b, 'repeated')]
    b.fields += [F('ping', 2, a), F('pings', 3, a, 'repeated'), F('named', 4, a, '', 'string')]
    back = M('Back', [F('n', 1, 'int32')])
    host = M('Host', [F('back', 1, back)], messages=[back])
    back.fields.append(F('hosts', 2, host, 'repeated'))
    add(File('nest', 'nest', messages=[outer, node, a, b, host]))
    me = E('Kind', [('ZERO', 0), ('ONE', 1)])
    msub = M('Sub', [F('v', 1, 'string')])
    add(File('maps', 'maps', enums=[me], messages=[
        M('Keys', [F(f'k{t}', i + 1, 'int32', '', t) for i, t in enumerate(KEYS)]),
        M('Values', [F(f'v{t}', i + 1, t, '', 'string' if i % 2 else 'int32')
                     for i, t in enumerate(SCALARS)]
          + [F('vkind', 60, me, '', 'bool'), F('vsub', 61, msub, '', 'sint64'),
             F('plain', 62, 'int32')]),
        msub]))
    # files with the imported ones first
    ie = E('Shared', [('A', 0), ('B', 3)])
    im = M('Item', [F('id', 1, 'uint32'), F('name', 2, 'string')])
    lib = add(File('sharedLib', 'shared.lib', enums=[ie], messages=[im]))
    se = E('SameEnum', [('SA', 0), ('SB', 9)])
    sm = M('SameMessage', [F('id', 1, 'fixed64')])
    same = add(File('same', 'user', enums=[se], messages=[sm]))
    ue = E('Own', [('OA', 0), ('OB', 4)])
    um = M('OwnMessage', [F('id', 1, 'bool')])
    add(File('user', 'user', imports=[lib, same], enums=[ue], messages=[
        um,
        M('User', [F('a', 1, ie), F('b', 2, im), F('c', 3, se), F('d', 4, sm),
                   F('e', 5, ue, style='package'), F('f', 6, um, style='dot'),
                   F('g', 7, im, 'repeated'), F('h', 8, se, 'repeated'),
                   F('i', 9, im, '', 'string'), F('j', 10, sm, 'repeated'),
                   F('k', 13, ue, 'optional')],
          [Oneof('pick', [F('pa', 11, im), F('pb', 12, se)])])]))
    ne = E('Color', [('RED', 0), ('BLUE', 5)])
    nm = M('Thing', [F('color', 1, ne), F('someValue', 2, 'int32'),
                     F('other_value', 3, 'string', 'optional')])
    add(File('nopkg', '', enums=[ne], messages=[nm, M('Things', [
        F('things', 1, nm, 'repeated'), F('main', 2, nm)])]))
    return files


WORDS = ('alpha beta gamma delta epsilon zeta eta theta iota kappa lam my nu xi '
         'omi pi rho sigma tau upsi phi chi psi omega').split()


def rand_file(seed, index, messages=None):
    """A pseudo-random schema file."""
    r = random.Random(seed * 1000003 + index)
    # one file of a family at most is without package: C names are global
    f = File(f'rnd{index}', r.choice([f'pk{index}', f'p{index}.q', f'pk{index}']
                                     if index % 20 else ['', 'pk0']))
    enums, msgs = [], []
    n = messages or r.randint(2, 5)
    for i in range(r.randint(1, 2)):
        e = Enum(f'En{WORDS[i].title()}',
                 [('ZERO%s' % 'AB'[i], 0)] + [(f'V{w.upper()}{"AB"[i]}',
                 r.choice([1, 2, 3, 77, 128, 300, 2147483647, -5]) + j * 0)
                  for j, w in enumerate(r.sample(WORDS, r.randint(0, 3)))])
        enums.append(e)
    f.enums = list(enums)
    avail = []          # complete messages, usable anywhere
    for i in range(n):
        m = Message('Ms' + WORDS[i].title())
        local_e = []
        if r.random() < .3:
            e = Enum('In', [('INZERO', 0), ('INONE', 1)])
            m.enums.append(e)
            local_e.append(e)
        local_m = []
        if r.random() < .4:
            s = Message('Sub')
            fill(r, s, avail, enums, r.randint(0, 4))
            m.messages.append(s)
            local_m.append(s)
        fill(r, m, avail + local_m + ([m] if r.random() < .3 else []),
             enums + local_e, r.randint(1, 9), oneofs=True)
        msgs.append(m)
        avail.append(m)
    r.shuffle(msgs)
    f.messages = msgs
    return f.link()


def fill(r, m, msgs, enums, n, oneofs=False):
    numbers = []
    while len(numbers) < n + 8:
        x = r.choice([r.randint(1, 15), r.randint(16, 40), r.randint(1, 2100),
                      r.randint(1, 536870911)])
        if x not in numbers and not 19000 <= x <= 19999:
            numbers.append(x)
    words = r.sample(WORDS, min(len(WORDS), n + 8))

    def pick():
        k = r.random()
        if k < .15 and enums:
            return r.choice(enums)
        if k < .4 and msgs:
            return r.choice(msgs)
        return r.choice(SCALARS)
    for i in range(n):
        t = pick()
        label = r.choice(['', '', 'optional', 'repeated', 'repeated'])
        key = ''
        if isinstance(t, Message):
            if label == 'optional':
                label = ''
            if label == 'repeated' and t is not m and \
                    getattr(t, 'name', '') == m.name:
                label = ''
        if r.random() < .1 and t is not m:
            key, label = r.choice(KEYS), ''
        m.fields.append(Field(words[i], numbers[i], t, label, key))
    if oneofs and r.random() < .5:
        left = r.randint(1, 8)
        for name in ('choice', 'either', 'third', 'last'):
            o = Oneof(name, [])
            for j in range(min(left, r.randint(1, 4))):
                left -= 1
                o.fields.append(Field('o' + words[n + left], numbers[n + left], pick()))
            m.oneofs.append(o)
            if not left:
                break
