"""C14: contract of ignore_comments, and of parse_file around comments."""
import itertools
import os
import random
import re

from common import SEED, THOROUGH, Violation, main, require

import pbtools
import textparser
from pbtools import parser
from vp import schema as S


def position(text, offset):
    line = text.count('\n', 0, offset) + 1
    column = offset - (text.rfind('\n', 0, offset) + 1) + 1
    return line, column


def spec(text):
    """What ignore_comments has to do, one character at a time: (result,
    None), (None, offset of the error), or None where the text is no schema
    whatever it does (a backslash or a comment end outside of comments and
    strings) or where two readings are defensible."""
    out = []
    state, start, i = 'code', 0, 0
    while i < len(text):
        two, c = text[i:i + 2], text[i]
        if state == 'code':
            if two == '//':
                state, n = 'line', 2
                out.append('  ')
            elif two == '/*':
                state, start, n = 'block', i, 2
                out.append('  ')
            elif two == '*/' or c == '\\':
                return None
            else:
                if c == '"':
                    state = 'string'
                n = 1
                out.append(c)
        elif state == 'line':
            n = 1
            if c == '\n':
                state = 'code'
            out.append(c if c == '\n' else ' ')
        elif state == 'block':
            if two == '*/':
                state, n = 'code', 2
                out.append('  ')
            elif text[i:i + 3] == '//*':
                return None         # nested or not: open to interpretation
            elif two == '/*':
                return None, start
            else:
                n = 1
                out.append(c if c == '\n' else ' ')
        else:
            if two in ('\\"', '\\\\'):
                n = 2
                out.append(two)
            else:
                n = 1
                if c == '"':
                    state = 'code'
                out.append(c)
        i += n
    if state == 'block':
        return None, start
    return ''.join(out), None


HEAD = 'syntax = "proto3";'
TAIL = 'message Last { int32 last = 1; }'


def outcome(text):
    """What parsing gives, through the public interface."""
    with open('outcome.proto', 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    try:
        p = pbtools.parse_file('outcome.proto')
    except (pbtools.Error, textparser.Error) as e:
        m = re.search(r'line (\d+), column (\d+)', str(e))
        return m.groups() if m else 'error'
    return ([(o.name, o.value) for o in p.options],
            [(m.name, [(f.name, f.type, f.field_number) for f in m.fields])
             for m in p.messages])


def confirm(text, want):
    """A wrong result of the internal function counts only when a schema shows
    it."""
    blank, error = want
    for pre, post in ((HEAD, '\n' + TAIL), (HEAD + 'option a = "x"; ', '\n' + TAIL),
                      (HEAD, ''), (HEAD + 'option a = ', '\n;' + TAIL),
                      (HEAD + 'message A { int32 a = 1;', '\n int32 b = 2; }'),
                      (HEAD + 'message A {', ''), (HEAD + ' import', ''),
                      (HEAD + ' option a = "', '";\n' + TAIL)):
        whole = pre + text + post
        w = spec(whole)
        if w is None:
            continue
        got = outcome(whole)
        if w[1] is not None:
            expected = tuple(map(str, position(whole, w[1])))
        else:
            expected = outcome(w[0])
        require(got == expected, 'public', lambda:
                f'parsing {whole!r} gives {got}, expected {expected}')


def internal(text):
    """parser.ignore_comments, or None where there is none."""
    f = getattr(parser, 'ignore_comments', None)
    if f is None:
        return None
    try:
        return f(text), None
    except (pbtools.Error, textparser.Error) as e:
        m = re.search(r'line (\d+), column (\d+)', str(e))
        return None, (tuple(map(int, m.groups())) if m else str(e))
    except (TypeError, AttributeError):
        return None


def check(text):
    want = spec(text)
    if want is None:
        return False
    got = internal(text)
    expected = want if want[1] is None else (None, position(text, want[1]))
    if got != expected:
        confirm(text, want)
    return True


def ignore_comments_exhaustive(d):
    """All strings up to a length over the characters that matter."""
    n = 8 if THOROUGH else 7
    for k in range(n + 1):
        for t in itertools.product('/*"\\\na', repeat=k):
            if check(''.join(t)):
                yield ''.join(t)


def ignore_comments_pieces(d):
    """Longer texts made of comment, string and line pieces."""
    r = random.Random(SEED)
    pieces = ['//', '/*', '*/', '"', '\\"', '\\\\', '\n', ' ', 'a', '\r\n', '\t',
              '// x\n', '/* y */', '"s"', '"/* s */"', '"// s"', '/*\n\n*/', '/**/',
              '/*/', '*', '/', '"a\\"b"', '"\\\\"', '\u00e9', "'"]
    for _ in range(300000 if THOROUGH else 60000):
        t = ''.join(r.choice(pieces) for _ in range(r.randint(1, 14)))
        if check(t):
            yield t


# -- whole schemas -------------------------------------------------------------

TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|\w+|-?\d\w*|[^\s\w]')

COMMENTS = ['// c\n', '/* c */', '/* " */', '// "x\n', '/**/', '/* // */', '// /* x\n',
            '// */ x\n', '/* a\n b\n*/', '/*\n*/', '//\n', '/* } ; { */', '// \\\n',
            '/* \\*/', '/***/', '// \u00e9 "\n', '/* \\" */']


def commented(r, text, share=.3):
    """The text with comments put between tokens, and the same with spaces in
    their place."""
    a, b = [], []
    last = 0
    for mo in TOKEN.finditer(text):
        gap = text[last:mo.start()]
        a.append(gap)
        b.append(gap)
        while r.random() < share:
            c = r.choice(COMMENTS)
            a.append(c)
            b.append(re.sub(r'[^\n]', ' ', c))
        a.append(mo.group())
        b.append(mo.group())
        last = mo.end()
    tail = r.choice(['', '// end', '/* end */', '// end\n', '\n'])
    a.append(text[last:] + tail)
    b.append(text[last:] + re.sub(r'[^\n]', ' ', tail))
    return ''.join(a), ''.join(b)


OPTIONS = ('option java_package = "a//b";\noption (x).y = "/* no comment */";\n'
           'option z = "q\\"//\\"";\noption w = "\\\\"; option u = "*/";\n')


def generated(d, name, text):
    with open(f'{d}/{name}.proto', 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    proto = pbtools.parse_file(f'{d}/{name}.proto', [d])
    from pbtools import c_source
    c_source.generate_files([f'{d}/{name}.proto'], [d], d)
    out = []
    for ext in ('h', 'c'):
        with open(f'{d}/{S.snake(name)}.{ext}') as f:
            out.append(f.read())
    return out, [(o.name, o.value) for o in proto.options]


def schemas_with_comments(d):
    """Comments instead of spaces between any tokens change nothing."""
    r = random.Random(SEED)
    files = [f for f in S.curated() if not f.imports] \
        + [S.rand_file(SEED, i) for i in range(12)]
    for k in range(6 if THOROUGH else 2):
        for f in files:
            text = S.text(f).replace('"proto3";\n', '"proto3";\n' + OPTIONS, 1)
            a, b = commented(r, text)
            try:
                ga = generated(d, f.name, a)
            except (Exception, SystemExit) as e:
                raise Violation('rejected', f'{e!r} for a schema with comments:\n{a}')
            gb = generated(d, f.name, b)
            require(ga == gb, 'differs', lambda:
                    f'comments change the result\nwith comments:\n{a}\nwithout:\n{b}')
            require([v for _, v in ga[1]] == ['a//b', '/* no comment */', 'q\\"//\\"', '\\\\', '*/'],
                    'option', lambda: f'options {ga[1]} of\n{a}')
            yield a


def positions(d):
    """An offending token is reported where it stands in the original."""
    r = random.Random(SEED + 1)
    files = [f for f in S.curated() if not f.imports] \
        + [S.rand_file(SEED, i) for i in range(6)]
    for k in range(30 if THOROUGH else 8):
        for f in files:
            text, _ = commented(r, S.text(f), .25)
            marks = [mo.start() for mo in TOKEN.finditer(spec(text)[0])]
            at = r.choice(marks)
            want = at
            broken = text[:at] + r.choice('$@?') + ' ' + text[at:]
            with open(f'{d}/x.proto', 'w', encoding='utf-8', newline='') as o:
                o.write(broken)
            try:
                pbtools.parse_file(f'{d}/x.proto')
                err = None
            except (pbtools.Error, textparser.Error) as e:
                err = str(e)
            line, column = position(broken, want)
            require(err is not None and f'line {line}, column {column}:' in err,
                    'position', lambda: f'error {err!r}, expected line {line}, column '
                    f'{column} ({broken[want]!r}) in\n{broken}')
            yield broken


def truncated(d):
    """A schema that ends too early is reported at the same place with
    comments and with spaces for them."""
    r = random.Random(SEED + 3)
    files = [f for f in S.curated() if not f.imports] \
        + [S.rand_file(SEED, i) for i in range(6)]
    tails = ['', '// end', ' // end "', '/* end */', '// end\n', '/* a\n b */', '\n// x\n// y']
    for k in range(30 if THOROUGH else 8):
        for f in files:
            text, _ = commented(r, S.text(f), .1)
            marks = [mo.end() for mo in TOKEN.finditer(spec(text)[0])]
            a = text[:r.choice(marks)] + r.choice(tails)
            want = outcome(spec(a)[0])
            got = outcome(a)
            require(got == want, 'position', lambda:
                    f'{a!r} gives {got}, without comments {want}')
            yield a


def unterminated(d):
    """An unterminated or nested block comment is an error at its start."""
    r = random.Random(SEED + 2)
    for k in range(60):
        text, _ = commented(r, S.text(S.rand_file(SEED, k % 6)), .1)
        marks = [mo.start() for mo in TOKEN.finditer(spec(text)[0])]
        at = r.choice(marks)
        kind = r.choice(['open', 'nested'])
        if kind == 'open':
            broken = text[:at] + '/* open ' + text[at:].replace('/*', '/ *').replace('*/', '* /')
        else:
            broken = text[:at] + '/* a\n /* b */ */' + text[at:]
        with open(f'{d}/x.proto', 'w', encoding='utf-8', newline='') as o:
            o.write(broken)
        try:
            pbtools.parse_file(f'{d}/x.proto')
            err = None
        except (pbtools.Error, textparser.Error) as e:
            err = str(e)
        line, column = position(broken, at)
        require(err is not None and f'line {line}, column {column}:' in err,
                kind, lambda: f'error {err!r}, expected line {line}, column {column} in\n{broken}')
        yield broken


if __name__ == '__main__':
    main(ignore_comments_exhaustive, ignore_comments_pieces, schemas_with_comments,
         positions, truncated, unterminated)
