"""Loop annotations for /repo's C code.

CBMC takes loop contracts from the program text, so the loops of some internal
functions are annotated in a copy of /repo/lib/src/pbtools.c that is made anew
on every run.  The only change is text inserted between the tokens of the
original: a macro call behind the header of the loop (its contract) and at the
start and end of its body (ghost assignments).  Dropping the inserted text gives the
original back, which is checked.  A loop that no longer has the expected shape
is left alone; its obligation is then undecided, not refuted.
"""
import os
import re

from .engine import REPO

MARK = re.compile(r'/\*vp\*/.*?/\*pv\*/', re.S)


def matching(s, i, a, b):
    depth = 0
    while i < len(s):
        if s[i] == a:
            depth += 1
        elif s[i] == b:
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise ValueError('unbalanced')


def body(s, name):
    """(start, end) of the body of the function, braces included."""
    for m in re.finditer(r'^[A-Za-z_][^\n;#]*\b%s\(' % re.escape(name), s, re.M):
        j = matching(s, m.end() - 1, '(', ')')
        k = re.compile(r'\s*\{').match(s, j + 1)
        if k:
            return k.end() - 1, matching(s, k.end() - 1, '{', '}')
    raise ValueError(f'no function {name}')


def insert(text):
    return ('/*vp*/\n#pragma CPROVER check push\n#pragma CPROVER check disable "pointer"\n'
            '#pragma CPROVER check disable "bounds"\n'
            '#pragma CPROVER check disable "signed-overflow"\n'
            f'{text}\n#pragma CPROVER check pop\n/*pv*/')


DECLARATION = re.compile(
    r'^[ \t]+(?:const |unsigned |struct )*[A-Za-z_]\w*[ \t*]+(\w+)(\[\w+\])?\s*(?:=[^;]*)?;', re.M)


def assigned_locals(before, loop, counter):
    """Locals declared before the loop and changed by its body: they belong to
    its frame whatever they are."""
    res = []
    for m in DECLARATION.finditer(before):
        n = m.group(1)
        if n != counter and n not in res and re.search(
                r'\b%s\b(?:\[[^]]*\])?\s*(?:=(?!=)|\+\+|--|[-+*/%%|&^]=|<<=|>>=)'
                r'|(?:\+\+|--|&)\s*%s\b' % (n, n), loop):
            res.append(n)
    return res


def annotate(s, name, header, macro):
    """Annotates the only loop of a function.  The named groups of the header
    become the arguments of the macros."""
    a, b = body(s, name)
    text = s[a:b]
    loops = list(re.finditer(r'\b(for|while)\s*\(', text))
    if len(loops) != 1 or re.search(r'\bdo\b|\bgoto\b|\bcontinue\b', text):
        raise ValueError(f'{name}: not one plain loop')
    i = loops[0].end() - 1
    j = matching(text, i, '(', ')')
    m = re.fullmatch(header, ' '.join(text[i + 1:j].split()))
    if not m:
        raise ValueError(f'{name}: loop header {text[i + 1:j]!r}')
    k = re.compile(r'\s*\{').match(text, j + 1)
    if not k:
        raise ValueError(f'{name}: loop body without braces')
    end = matching(text, k.end() - 1, '{', '}')
    args = ', '.join(m.groups())
    changed = [m.group(1)] + assigned_locals(text[:loops[0].start()],
                                             text[k.end():end], m.group(1))
    text = (text[:j + 1] + insert(f'{macro}_LOOP({args}, {", ".join(changed)})')
            + text[j + 1:k.end()] + insert(f'{macro}_BEGIN({args});')
            + text[k.end():end]
            + insert(f'{macro}_END({args});') + text[end:])
    return s[:a] + text + s[b:]


DOWN = r'(\w+) = repeated_p->length - 1; \1 >= 0; \1--'
UP = r'(\w+) = 0; \1 < (?:repeated_p->)?length; \1\+\+'
SITES = [
    ('encoder_write_repeated', DOWN, 'REP'),
    ('pbtools_encoder_write_repeated_string', DOWN, 'REPS'),
    ('pbtools_encoder_write_repeated_bytes', DOWN, 'REPB'),
    ('pbtools_encode_repeated_inner', UP, 'REPM'),
    ('pbtools_alloc_repeated_string', UP, 'ALLOCS'),
    ('pbtools_alloc_repeated', UP, 'ALLOCM'),
    ('repeated_info_decode_varint', r'pbtools_decoder_available\(&(\w+)\)', 'INFO'),
]


def annotated(scratch):
    """Writes the annotated copy; returns (its directory, {macro: problem})."""
    d = os.path.join(scratch, 'annotated')
    src = open(f'{REPO}/lib/src/pbtools.c').read()
    s, problems = src, {}
    for name, header, macro in SITES:
        try:
            s = annotate(s, name, header, macro)
        except ValueError as e:
            problems[macro] = str(e)
    assert MARK.sub('', s) == src
    os.makedirs(d, exist_ok=True)
    defs = ''.join(f'#ifndef {m}_LOOP\n#define {m}_LOOP(x, ...)\n#define {m}_BEGIN(x)\n#define {m}_END(x)\n#endif\n'
                   for _, _, m in SITES)
    with open(f'{d}/pbtools.c', 'w') as f:
        f.write(defs + '#line 1 "pbtools.c"\n' + s)
    return d, problems
