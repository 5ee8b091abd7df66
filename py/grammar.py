"""The supported proto3 grammar, written down independently of /repo: a
tokenizer and a recogniser that follows every alternative at once."""
import re

TOKEN = re.compile(r'(?P<space>\s+)|(?P<ident>[a-zA-Z]\w*)|(?P<int>-?(?:0[xX][0-9a-fA-F]+|[0-9]+))'
                   r'|(?P<string>"(?:\\.|[^"\\])*")|(?P<punct>[.,=;{}()\[\]<>])')


def tokenize(text):
    """[(kind, value, offset)], or the offset of what is no token."""
    res, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if m is None:
            return None, i
        if m.lastgroup != 'space':
            res.append((m.lastgroup, m.group(), i))
        i = m.end()
    return res, None


class Recogniser:
    """Sets of end positions; `far` is the first token no alternative takes."""

    def __init__(self, tokens):
        self.tokens = tokens
        self.far = 0

    def tok(self, test):
        def f(i):
            self.far = max(self.far, i)
            if i < len(self.tokens) and test(*self.tokens[i][:2]):
                return {i + 1}
            return set()
        return f

    def p(self, value):
        return self.tok(lambda k, v: v == value and k in ('punct', 'ident'))

    def seq(self, *fs):
        fs = [self.p(f) if isinstance(f, str) else f for f in fs]

        def g(i):
            ends = {i}
            for f in fs:
                ends = set().union(*(f(e) for e in ends))
            return ends
        return g

    def alt(self, *fs):
        fs = [self.p(f) if isinstance(f, str) else f for f in fs]
        return lambda i: set().union(*(f(i) for f in fs))

    def opt(self, f):
        return self.alt(f, lambda i: {i})

    def but(self, values, f):
        """What f takes, unless it starts with one of the values."""
        def g(i):
            if i < len(self.tokens) and self.tokens[i][1] in values:
                return set()
            return f(i)
        return g

    def many(self, f):
        def g(i):
            todo, ends = {i}, {i}
            while todo:
                new = set().union(*(f(e) for e in todo)) - ends
                ends |= new
                todo = new
            return ends
        return g

    def comma(self, f):
        return self.seq(f, self.many(self.seq(',', f)))

    def accepts(self):
        ident = self.tok(lambda k, v: k == 'ident')
        integer = self.tok(lambda k, v: k == 'int')
        string = self.tok(lambda k, v: k == 'string')
        full = self.seq(ident, self.many(self.seq('.', ident)))
        plain = self.tok(lambda k, v: k == 'ident' and v not in ('true', 'false'))
        type_ = self.seq(self.opt(self.p('.')), full)
        constant = self.alt('true', 'false', string, integer,
                            self.seq(plain, self.many(self.seq('.', ident))))
        oname = self.seq(self.alt(ident, self.seq('(', full, ')')),
                         self.many(self.seq('.', ident)))
        opts = self.opt(self.seq('[', self.comma(self.seq(oname, '=', constant)), ']'))
        import_ = self.seq('import', self.opt(self.alt('weak', 'public')), string, ';')
        option = self.seq('option', oname, '=', constant, ';')
        enum = self.seq('enum', ident, '{', self.many(self.alt(
            self.seq(ident, '=', integer, opts, ';'), ';')), '}')
        oneof = self.seq('oneof', ident, '{', self.many(self.alt(
            self.seq(type_, ident, '=', integer, ';'), ';')), '}')
        map_ = self.seq('map', '<', ident, ',', type_, '>', ident, '=', integer, opts, ';')
        rng = self.seq(integer, self.opt(self.seq('to', self.alt(integer, 'max'))))
        reserved = self.seq('reserved', self.alt(self.comma(rng), self.comma(string)), ';')
        # a label is a label even where it could be a type
        field = self.seq(self.alt(self.seq(self.alt('repeated', 'optional'), type_),
                                  self.but(('repeated', 'optional'), type_)),
                         ident, '=', integer, opts, ';')
        memo = {}

        def message(i):
            if i not in memo:
                memo[i] = body(i)
            return memo[i]
        body = self.seq('message', ident, '{', self.many(self.alt(
            field, enum, message, oneof, map_, reserved, ';')), '}')
        rtype = self.seq('(', self.alt(self.seq('stream', type_),
                                        self.but(('stream',), type_)), ')')
        rpc = self.seq('rpc', ident, rtype, 'returns', rtype,
                       self.alt(self.seq('{', self.many(option), '}'), ';'))
        service = self.seq('service', ident, '{', self.many(self.alt(option, rpc, ';')), '}')
        package = self.seq('package', full, ';')
        syntax = self.seq('syntax', '=', self.tok(lambda k, v: v == '"proto3"'), ';')
        proto = self.seq(syntax, self.many(self.alt(
            import_, package, option, message, enum, service, ';')))
        ends = proto(0)
        self.far = max(self.far, *(ends or {0}))
        return len(self.tokens) in ends


def judge(text):
    """None when the text follows the grammar, else the offset of the first
    token (or of the end of the text) that cannot follow what precedes it."""
    tokens, bad = tokenize(text)
    if tokens is None:
        return bad
    r = Recogniser(tokens)
    if r.accepts():
        return None
    return tokens[r.far][2] if r.far < len(tokens) else len(text)
