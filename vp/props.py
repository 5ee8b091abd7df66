"""What decides each property: obligations (contracts on real code) and
labelled bounded programs."""

import dataclasses

from . import annotate
from .engine import Obligation as O
from .native import THREADS, driver, messages
from .gencontracts import contracts
from .pyprog import python
from .run import Property

SCALARS = ('int32 int64 sint32 sint64 uint32 uint64 fixed32 fixed64 sfixed32 '
           'sfixed64 float double bool enum').split()
ARRAYS = [t for t in SCALARS if t != 'enum'] + ['bytes']

LIBC = ('memcpy, memmove, memset and strlen are replaced by contracts of the C '
        'standard (c/libc.h); memcpy and memset of constant size keep CBMC\'s '
        'own model')
CBMC = 'CBMC 6.11.0 (goto-cc, goto-instrument --dfcc, cbmc) and its SAT back ends'
LP64 = 'LP64, little-endian x86-64 memory model of CBMC; gcc is assumed to compile the same C'
BUF = ('buffers and workspaces up to INT_MAX-15 bytes (the API stores sizes in '
       'int), strings and bytes below 2 GiB')


def enc_scalar(ctx):
    return [O('write_' + t + s, 'enc_scalar.c', 'h_' + t + s,
              'pbtools_encoder_write_' + t + s)
            for t in SCALARS for s in ('', '_always')]


def enc_blob(ctx):
    obs = [O('write_' + t, 'enc_blob.c', 'h_' + t, 'pbtools_encoder_write_' + t,
             split=True, coarse=1)
           for t in ('string', 'bytes', 'string_always', 'bytes_always')]
    return obs + [O('sub_message_' + t, 'enc_blob.c', 'h_sub_' + t,
                    'pbtools_encoder_sub_message_' + t, split=True, coarse=1)
                  for t in ('encode', 'encode_always')]


def enc_top(ctx):
    return [O('message_encode', 'enc_top.c', 'h_message_encode',
              'pbtools_message_encode', split=True, coarse=1)]


def dec_scalar(ctx):
    return [O('read_' + t, 'dec_scalar.c', 'h_' + t, 'pbtools_decoder_read_' + t,
              split=True, coarse=1) for t in SCALARS]


def dec_tag(ctx):
    return [O('read_tag', 'dec_scalar.c', 'h_tag', 'pbtools_decoder_read_tag',
              split=True, coarse=1),
            O('skip_field', 'dec_scalar.c', 'h_skip',
              'pbtools_decoder_skip_field', split=True, coarse=3),
            O('available', 'dec_scalar.c', 'h_available',
              'pbtools_decoder_available')]


def dec_blob(ctx):
    return [O(a, 'dec_blob.c', 'h_' + a, f, split=True, coarse=4) for a, f in (
        ('string', 'pbtools_decoder_read_string'),
        ('bytes', 'pbtools_decoder_read_bytes'),
        ('sub_message', 'pbtools_decoder_sub_message_decode'))]


def dec_top(ctx):
    return [O('message_decode', 'dec_blob.c', 'h_message_decode',
              'pbtools_message_decode', split=True, coarse=1)]


def heap(ctx):
    return [O('message_new', 'heap.c', 'h_message_new', 'pbtools_message_new',
              split=True, coarse=1),
            O('sub_message_alloc', 'heap.c', 'h_sub_message_alloc',
              'pbtools_sub_message_alloc', split=True, coarse=1)] + [
        O('alloc_' + t, 'heap.c', 'h_alloc_' + t, 'pbtools_alloc_repeated_' + t,
          split=True, coarse=1) for t in ARRAYS]


# packed item types: struct, element type, wire type, 64 bits on the wire
PACKED = """
int32    int32  int32_t  K_VARINT (uint64_t)(int64_t)(x)
int64    int64  int64_t  K_VARINT (uint64_t)(x)
sint32   int32  int32_t  K_VARINT spec_zz32(x)
sint64   int64  int64_t  K_VARINT spec_zz64(x)
uint32   uint32 uint32_t K_VARINT (uint64_t)(x)
uint64   uint64 uint64_t K_VARINT (x)
fixed32  uint32 uint32_t K_I32    (uint64_t)(x)
fixed64  uint64 uint64_t K_I64    (x)
sfixed32 int32  int32_t  K_I32    (uint64_t)(uint32_t)(x)
sfixed64 int64  int64_t  K_I64    (uint64_t)(x)
float    float  float    K_I32    spec_fbits(x)
double   double double   K_I64    spec_dbits(x)
bool     bool   _Bool    K_VARINT ((x)?1ull:0ull)
"""
PACKED = {l.split()[0]: l.split()[1:] for l in PACKED.strip().splitlines()}


def annotated(ctx):
    """The annotated copy of pbtools.c, see annotate.py."""
    if not hasattr(ctx, 'annotated'):
        ctx.annotated = annotate.annotated(ctx.scratch)
    return ctx.annotated


def loop(ctx, macro, name, tu, harness, fn, looped, defs):
    d, problems = annotated(ctx)
    if macro in problems:
        ctx.notes.append(f'{fn}: loop not annotated: {problems[macro]}')
        return []
    return [O(name, tu, harness, fn, split=True, coarse=1, loops=(looped,),
              fresh_src=d, defs=defs)]


def enc_packed(types, rest=()):
    def obs(ctx):
        res = []
        for t in types + (rest if ctx.thorough else ()):
            st, elem, kind, payload = PACKED[t]
            res += loop(ctx, 'REP', 'repeated_' + t, 'enc_rep.c', 'h_rep',
                        'pbtools_encoder_write_repeated_' + t,
                        'encoder_write_repeated',
                        ('ITEM=' + t, 'STRUCT=' + st, 'ELEM=' + elem,
                         'KIND=' + kind, 'PAYLOAD(x)=' + payload,
                         'MAXITEMS=1073741824'))
        return res
    return obs


def enc_items(ctx):
    res = []
    for t, m, defs in (('bytes', 'REPB', ()), ('string', 'REPS', ('STRING',))):
        f = 'pbtools_encoder_write_repeated_' + t
        res += loop(ctx, m, 'repeated_' + t, 'enc_repb.c', 'h_repb', f, f,
                    ('MAXN=(1<<26)',) + defs)
    f = 'pbtools_encode_repeated_inner'
    return res + loop(ctx, 'REPM', 'repeated_message', 'enc_repm.c', 'h_repm', f, f,
                      ('ITEMSIZE=24',))


def alloc_items(ctx):
    """Arrays of strings and messages, of any length."""
    res = []
    for t, m in (('string', 'ALLOCS'), ('message', 'ALLOCM')):
        f = 'pbtools_alloc_repeated' + ('_string' if t == 'string' else '')
        res += [dataclasses.replace(o, coarse=2) for o in
                loop(ctx, m, 'alloc_' + t, 'heap_rep.c', 'h_alloc_' + t, f, f, ())]
    return res


# item size on the wire: 1 varint, 0 length delimited
INFO = dict(fixed32=4, fixed64=8, sfixed32=4, sfixed64=8, float=4, double=8,
            string=0, bytes=0, message=0)


def dec_info(types, rest=()):
    """The first pass of the decoders of repeated fields."""
    def obs(ctx):
        res = []
        for t in types + (rest if ctx.thorough else ()):
            k = INFO.get(t, 1)
            f = 'pbtools_repeated_info_decode' + ('_' + t if t != 'message' else '')
            name, defs = 'info_' + t, ('FN=' + f, f'ITEM={k}')
            if k == 1:
                res += [dataclasses.replace(o, coarse=3) for o in
                        loop(ctx, 'INFO', name, 'dec_info.c', 'h_info', f,
                             'repeated_info_decode_varint', defs)]
            else:
                res.append(O(name, 'dec_info.c', 'h_info', f, split=True, coarse=3,
                             defs=defs))
        return res
    return obs


def dec_init(ctx):
    return [O('info_init', 'dec_init.c', 'h_info_init', 'pbtools_repeated_info_init'),
            O('bytes_init', 'dec_init.c', 'h_bytes_init', 'pbtools_bytes_init')]


def strings(ctx):
    return [O('error_strings', 'errors.c', 'h_error_strings',
              'pbtools_error_code_to_string', contract=False, small=False,
              unwind=80)]


def both(*fs):
    def obligations(ctx):
        seen, res = set(), []
        for f in fs:
            for o in f(ctx):
                if o.name not in seen:
                    seen.add(o.name)
                    res.append(o)
        return res
    return obligations


def thorough(f):
    return lambda ctx: f(ctx) if ctx.thorough else []


def frame(*fs):
    """Only the frame and the safety of the same obligations."""
    def obligations(ctx):
        return [dataclasses.replace(o, split=True, coarse=1, only=('safety', 'probes'))
                for o in both(*fs)(ctx)]
    return obligations


def names(prefix, ts=SCALARS, suffixes=('',)):
    return ' '.join(prefix + t + s for t in ts for s in suffixes)


# a quick run proves the packed encoders of a few types under each of
# C06, C03 and C16, a thorough one all of them under each
QUICK_C06 = tuple('int32 fixed32 bool'.split())
QUICK_C03 = tuple('sint64 uint32 double'.split())
QUICK_C16 = tuple('uint64 float'.split())
PACKED_REST = tuple('int64 sint32 fixed64 sfixed32 sfixed64'.split())

INFO_C06 = ('int32', 'fixed64', 'message')
INFO_C04 = ('fixed32', 'string')
INFO_REST = tuple(t for t in ARRAYS + ['string', 'message'])


def others(quick):
    return tuple(t for t in INFO_REST if t not in quick)


ENC_SCALARS = names('pbtools_encoder_write_', SCALARS, ('', '_always'))
DEC_SCALARS = names('pbtools_decoder_read_')

ENC_WHAT = ('concrete calls with boundary and pseudo-random values, compared '
            'with the reference encoder in spec.h')
DEC_WHAT = ('concrete calls on boundary and pseudo-random byte strings, '
            'compared with the reference decoder in spec.h')

MSG_WHAT = ('messages of generated types built, encoded and decoded through the '
            'generated API, and wire bytes made by the driver, compared with an '
            'independent reference codec working from the schema')

REPEATED = ('loop contracts are inserted into a copy of pbtools.c made on every run '
            '(vp/annotate.py; removing the inserted text gives the original back, '
            'which is checked); at most 2^26 strings or bytes, 2^30 bytes of packed '
            'items; messages of 24 bytes (the item size is a constant of the caller); '
            'the nested encoder is any function that meets the contract of the '
            'generated encoders')

STUBS = ('c/gen/stubs.h: the contracts of the runtime API as an abstract wire, '
         'linked to the bytes by C01, C02, C06, C07 and C08')
FAMILY = ('validated for every message type of the schema family (curated and '
          'pseudo-random schemas of this run), not for all schemas')

PROPS = {}


def prop(*a, **k):
    p = Property(*a, **k)
    PROPS[p.id] = p


prop('C01', 'function contracts on the encoder API enforced by CBMC (DFCC)',
     'proof',
     'Every pbtools_encoder_write_<scalar>[_always] has a contract that states '
     'its exact output bytes, position and frame for all values, field numbers, '
     'buffer sizes and fill levels.',
     both(enc_scalar),
     (driver('enc', ENC_SCALARS, ENC_WHAT, '20 field numbers x about 80 values x buffer sizes'),),
     (CBMC, LP64), (BUF, LIBC))

prop('C02', 'function contracts on the decoder API enforced by CBMC (DFCC)',
     'proof',
     'Every pbtools_decoder_read_<scalar> has a contract that states the value, '
     'the bytes consumed and the error for every input.',
     both(dec_scalar),
     (driver('dec', DEC_SCALARS, DEC_WHAT, 'inputs up to 12 bytes'),),
     (CBMC, LP64), (BUF, LIBC))

prop('C03', 'function contracts with frame and sticky-error postconditions '
     'enforced by CBMC (DFCC)', 'proof',
     'Frame, fit and stickiness of every encoder API function, and of '
     'pbtools_message_encode over an abstract inner encoder that satisfies the '
     'same contract.',
     both(enc_scalar, enc_blob, enc_top,
          enc_packed(QUICK_C03, QUICK_C06 + QUICK_C16 + PACKED_REST)),
     (driver('enc', '', ENC_WHAT, 'buffers up to 400 bytes'),),
     (CBMC, LP64), (BUF, LIBC))

prop('C05', 'function contracts on workspace allocation enforced by CBMC (DFCC)',
     'proof',
     'Contracts of every function that takes memory from the workspace: in '
     'bounds, aligned, above everything allocated before, failure leaves the '
     'workspace as it was.',
     both(heap, alloc_items, dec_blob),
     (driver('dec', 'message_new sub_message_alloc alloc_repeated_message '
             'pbtools_decoder_read_string pbtools_decoder_read_bytes sub_message_decode '
             + names('pbtools_alloc_repeated_', ARRAYS), DEC_WHAT,
             'workspaces up to 140 bytes; sizes and counts up to the extremes'),),
     (CBMC, LP64), (BUF, LIBC))

prop('C07', 'function contracts on strings, bytes and nested messages enforced '
     'by CBMC (DFCC)', 'proof',
     'Exact bytes written, exact bytes read, exact span of nested decoders.',
     both(enc_blob, dec_blob),
     (driver('enc', 'write_string write_bytes sub_message_encode', ENC_WHAT, 'contents up to 300 bytes'),
      driver('dec', 'pbtools_decoder_read_string pbtools_decoder_read_bytes sub_message_decode', DEC_WHAT, 'inputs up to 40 bytes')),
     (CBMC, LP64), (BUF, LIBC))

prop('C08', 'function contracts on tag reading and field skipping enforced by '
     'CBMC (DFCC)', 'proof',
     'Contracts of read_tag, skip_field and error_code_to_string.',
     both(dec_tag, dec_top, strings),
     (driver('dec', 'read_tag skip_field message_decode error_code_to_string', DEC_WHAT, 'inputs up to 24 bytes'),
      messages('t_valid t_mutated', MSG_WHAT)),
     (CBMC, LP64), (BUF, LIBC))

prop('C04', 'function contracts on every decoder API function enforced by CBMC '
     '(DFCC)', 'proof',
     'Memory safety, frame, documented error and stickiness of every decoder '
     'function, the first pass over repeated fields (any number of items) '
     'included; the second pass and whole messages by bounded programs.',
     both(dec_tag, dec_scalar, dec_blob, dec_top, dec_init,
          dec_info(INFO_C04, others(INFO_C04))),
     (messages('t_mutated t_valid', MSG_WHAT, n=60),
      driver('dec', '', DEC_WHAT, 'inputs up to 40 bytes')),
     (CBMC, LP64), (BUF, LIBC))

prop('C06', 'function and loop contracts on the encoders and the counting decoders '
     'of repeated fields enforced by CBMC (DFCC); the second pass of the decoders by '
     'labelled bounded programs', 'proof',
     'Encoders of repeated fields and the first pass of their decoders (counting the '
     'items, remembering the first): loop contracts, for any number of items. The '
     'second pass of the decoders (storing the items): bounded only.',
     both(enc_items, enc_packed(QUICK_C06, QUICK_C03 + QUICK_C16 + PACKED_REST), dec_init,
          dec_info(INFO_C06, others(INFO_C06))),
     (messages('t_round t_valid t_large', MSG_WHAT, n=80),),
     (CBMC, LP64), (BUF, LIBC, REPEATED))

prop('C09', 'contracts on generated encode and decode functions', 'translation_validation',
     'Round trip.', None,
     (messages('t_round t_large', MSG_WHAT, n=150),),
     (CBMC, LP64, STUBS), (BUF, LIBC, FAMILY), contracts=(contracts('C09'),))

prop('C10', 'contracts on generated encode and decode functions', 'translation_validation',
     'Declared fields.', None,
     (messages('t_round t_valid', MSG_WHAT, n=80),),
     (CBMC, LP64, STUBS), (BUF, LIBC, FAMILY), contracts=(contracts('C10'),))

prop('C11', 'contracts on generated encode and decode functions', 'translation_validation',
     'Presence.', None,
     (messages('t_new t_round t_valid', MSG_WHAT, n=80),),
     (CBMC, LP64, STUBS), (BUF, LIBC, FAMILY), contracts=(contracts('C11'),))

prop('C16', 'frame (assigns) clauses of the contracts of every runtime function and '
     'of the contracts on generated functions, enforced by CBMC (DFCC)', 'proof',
     'Each function changes only what its contract names, and none has static '
     'state; the contracts give the result as a function of the arguments.',
     both(frame(enc_scalar, enc_blob, enc_top, dec_scalar, dec_tag, dec_blob, dec_top,
                heap, thorough(enc_items), dec_init),
          enc_packed(QUICK_C16, QUICK_C06 + QUICK_C03 + PACKED_REST)),
     (messages('t_independent t_round t_mutated', MSG_WHAT, n=60),
      messages('t_threads', 'two threads with messages of their own, under the thread '
               'sanitizer', n=4, flags=THREADS)),
     (CBMC, LP64, STUBS), (BUF, LIBC, REPEATED, FAMILY), contracts=(contracts('C16'),))

prop('C14', 'executable contracts on the real Python functions, evaluated on '
     'enumerated inputs', 'exploration',
     'The contract of ignore_comments is evaluated on every string over the '
     'significant characters up to a length; equivalence to white space and '
     'positions are evaluated on whole schemas.', None,
     (python('comments', 'strings and schemas given to the real parser and generator',
             'all strings over six significant characters up to length 7 '
             '(8 thorough); pseudo-random longer texts; schema family with '
             'comments between any tokens'),))

prop('C12', 'executable contract of type name resolution on the real Python code, '
     'evaluated on an exhaustive set of scope configurations', 'exploration',
     'The C type and kind of every reference is compared with proto3 scoping for '
     'every way of declaring one name in the scopes of a schema.', None,
     (python('scoping', 'schemas given to the real parser and C generator',
             'one name declared as nothing, enum or message in seven scopes, three '
             'packages, six forms of reference from four places (half of the '
             'configurations per quick run, all in a thorough one); random nestings '
             'up to four deep'),))

prop('C13', 'executable contract of declaration order on the real generator, '
     'decided by the C compilers on an exhaustive set of dependency graphs',
     'exploration',
     'Every labelled graph of three messages (none, plain, repeated edges) in '
     'three nesting shapes, random larger graphs and the schema family in random '
     'declaration orders compile with -Wall -Wextra -Werror.', None,
     (python('ordering', 'schemas given to the real generator, the output to gcc and clang',
             'three messages exhaustively, up to eight pseudo-randomly'),
      messages('t_new', MSG_WHAT, n=2)))

prop('C15', 'executable contract of parse_file on the real Python code, evaluated '
     'on generated schema texts with an independent recogniser of the grammar',
     'exploration',
     'Random schemas of the whole grammar in random layouts have exactly their '
     'declared content; mutated ones are rejected exactly when an independent '
     'recogniser rejects them, at the offending token.', None,
     (python('fidelity', 'schema texts given to the real parser',
             'pseudo-random schemas and token mutations of them'),))

prop('C17', 'executable contracts of find_file, load_imports and generate_files on '
     'the real Python code, evaluated on generated file layouts and environments',
     'exploration',
     'Import search order, missing imports, and byte-identical output over hash '
     'seeds, environments, other files and their order.', None,
     (python('files', 'file layouts, environments and file lists given to the real '
             'command line and generators',
             'up to six import paths; 8 hash seeds and 5 environments; pseudo-random '
             'file lists'),))
