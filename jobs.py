"""The jobs of every property: harness, bounds, budgets."""

OPS = ['URL', 'ORIGIN', 'SCHEME', 'AUTHORITY', 'USERINFO', 'USERINFO_PART', 'USER', 'ENC_USER', 'PASSWORD', 'ENC_PASSWORD', 'PASSWORD_PART',
       'HOST', 'ENC_HOST', 'PORT', 'PORT_PART', 'PATH', 'QUERY', 'ENC_QUERY', 'QUERY_PART', 'FRAGMENT', 'ENC_FRAGMENT', 'FRAGMENT_PART', 'NORMALIZE', 'NORMALIZE_SCHEME']
API = ['set_encoded_url', 'set_encoded_origin', 'set_scheme', 'set_encoded_authority', 'set_encoded_userinfo', 'set_userinfo_part', 'set_user', 'set_encoded_user',
       'set_password', 'set_encoded_password', 'set_password_part', 'set_host', 'set_encoded_host', 'set_port', 'set_port_part', 'set_encoded_path', 'set_query',
       'set_encoded_query', 'set_query_part', 'set_fragment', 'set_encoded_fragment', 'set_fragment_part', 'normalize', 'normalize_scheme']
PLAIN = [6, 8, 11, 16, 19]

ASSUMPTIONS = [
    'the LLVM IR clang 18 makes of the harness and /repo/include is what is executed; gcc builds the same source',
    'BOOST_THROW_EXCEPTION throws the same exception object without a source location',
    'heap blocks are fresh, exactly sized and disjoint; every access is checked against them; allocation in the standard library does not fail',
    'uninitialised memory holds arbitrary bytes; std::exception constructors and operator new/delete are modelled',
    'nothing is claimed about texts, arguments and histories outside of the bounds of the jobs',
]

ALPHA = {'any': 'any byte', 'delims': "one of a1:/?#@%&=.[]-A and space", 'delims8': 'one of a:/?#@1&', 'auth8': 'one of a:@1[]/.', 'query8': 'one of ?a&=%26#',
         'path4': 'one of a/:.', 'hex8': 'one of %2aF/?:g'}


class Job:
    def __init__(self, file, defs, need=False, time=240, cost=1, reach=(), witness=False, bound='', nodes=60000000, z3total=15, iters=400, name=None):
        self.file, self.need, self.time, self.cost, self.reach, self.witness = file, need, time, cost, list(reach), witness
        self.defs = defs if isinstance(defs, list) else defs.split()
        self.bound, self.nodes, self.z3total, self.iters = bound, nodes, z3total, iters
        self.name = name or (file.replace('.cpp', '') + '-' + '-'.join(d[2:].replace('=', '') for d in self.defs))


def parse(p, n, a='any', own=0, **kw):
    d = '-DVP=%d -DVN=%d -DVA=%s' % (p, n, a) + (' -DVOWN=1' if own else '')
    b = ('texts with any combination of absent, empty and non-empty parts (10752 layouts)' if n == 0 else 'texts of up to %d characters, each %s' % (n, ALPHA[a])) + \
        (', read into a container' if own else ', read into a view')
    kw.setdefault('reach', ['accepted'])
    return Job('parse.cpp', d, bound=b, **kw)


def ip(p, mode, alpha, n, **kw):
    al = {0: 'any byte', 1: 'a hex digit, : or .', 2: 'a digit or .', 3: 'one of 1a:.'}[alpha]
    return Job('ip.cpp', '-DVP=%d -DVMODE=%d -DVALPHA=%d -DVN=%d' % (p, mode, alpha, n), bound=('"//[" t "]"' if mode == 6 else '"//" t') + ', t of up to %d characters, each %s' % (n, al),
               reach=['accepted'], **kw)


def edit(p, op, n, m, a='any', b='any', small=False, **kw):
    d = '-DVP=%d -DVOP=%d -DVN=%d -DVM=%d -DVA=%s -DVB=%s' % (p, op, n, m, a, b) + (' -DVSMALL' if small else '')
    st = ('a URL with any combination of absent, empty and non-empty parts (%s layouts)' % ('504' if small else '10752')) if n == 0 else 'any valid URL of up to %d characters, each %s' % (n, ALPHA[a])
    j = Job('edit.cpp', d, bound='%s with any argument of up to %d characters, each %s, on %s, with and without spare capacity%s' % (
        API[op], m, ALPHA[b], st, ', with and without an allocation failure' if p == 10 else ''), reach=['modified'], **kw)
    j.name = 'edit-%s-P%d-N%d%s-M%d%s%s' % (OPS[op], p, n, '' if a == 'any' else a, m, '' if b == 'any' else b, '-small' if small else '')
    return j


SEG = ['iteration', 'erase', 'erase range', 'insert_encoded', 'insert', 'replace_encoded', 'replace']


def seg(op, n, m=2, a='any', b='any', small=False, **kw):
    d = '-DVOP=%d -DVN=%d -DVM=%d -DVA=%s -DVB=%s' % (op, n, m, a, b) + (' -DVSMALL' if small else '')
    st = 'URLs with any combination of absent, empty and non-empty parts' if n == 0 else 'any valid URL of up to %d characters, each %s' % (n, ALPHA[a])
    return Job('seg.cpp', d, bound='segments: %s on %s%s' % (SEG[op], st, '' if op < 3 else ', argument of up to %d characters, each %s, allocation failure included' % (m, ALPHA[b])),
               reach=['two segments'] if op == 0 else ['edited'], **kw)


def param(op, n, m=1, a='any', b='any', **kw):
    d = '-DVOP=%d -DVN=%d -DVM=%d -DVA=%s -DVB=%s' % (op, n, m, a, b)
    st = 'URLs with any combination of absent, empty and non-empty parts' if n == 0 else 'of up to %d characters, each %s' % (n, ALPHA[a])
    return Job('param.cpp', d, bound=('iteration over the parameters of any valid URL ' + st) if op == 0 else
               'look-up of any key of up to %d characters, each %s, in any query %s (%s)' % (m, ALPHA[b], st, 'view' if op == 1 else 'container'),
               reach=['two parameters'] if op == 0 else ['present', 'absent'], **kw)


def misc(op, defs, bound, **kw):
    return Job('misc.cpp', '-DVOP=%d %s' % (op, defs), bound=bound, **kw)


def pool(defs, bound, **kw):
    return Job('pool.cpp', defs, bound=bound, **kw)


BIG = dict(time=3000, nodes=150000000, z3total=60)


def edits(p, ops, tier):
    j = []
    q = tier == 'quick'
    for k, op in enumerate(ops):
        noarg = op >= 22
        j.append(edit(p, op, 4, 0 if noarg else 2, need=True, cost=2, witness=(k % 6 == 0) if q else True))
        j.append(edit(p, op, 5, 0 if noarg else 2, cost=4))
        j.append(edit(p, op, 0, 0 if noarg else 1, small=True, cost=8, time=150))
        if not noarg:
            j.append(edit(p, op, 1, 4, cost=3))
        if op in (0, 1, 3, 4, 5, 12):
            j.append(edit(p, op, 0, 6, b='auth8', small=True, cost=9, time=200))
        if op == 15:
            j.append(edit(p, op, 0, 5, b='path4', small=True, cost=9, time=200))
        if not q:
            j.append(edit(p, op, 0, 0 if noarg else 1, cost=15, **BIG))
            j.append(edit(p, op, 6, 0 if noarg else 2, cost=20, **BIG))
            j.append(edit(p, op, 9, 0 if noarg else 1, a='delims8', cost=20, **BIG))
            if not noarg:
                j.append(edit(p, op, 0, 2, cost=30, **BIG))
                j.append(edit(p, op, 2, 6, cost=20, **BIG))
                j.append(edit(p, op, 0, 8, b='delims', small=True, cost=25, **BIG))
    return j


def jobs(prop, tier):
    q = tier == 'quick'
    j = []
    if prop == 'C01':
        j += [parse(1, 6, need=True, witness=True), parse(1, 10, cost=11), parse(1, 10, 'delims', cost=9), parse(1, 13, 'delims8', cost=6), parse(1, 7, own=1, cost=3),
              ip(1, 6, 1, 10, need=True, witness=True, cost=2), ip(1, 6, 1, 20, cost=12), ip(1, 6, 3, 45, cost=18), ip(1, 4, 2, 16, cost=2, need=True), ip(1, 4, 0, 7, cost=4)]
        if not q:
            j += [parse(1, n, cost=50, **BIG) for n in (11, 12, 13)] + [parse(1, n, 'delims', cost=30, **BIG) for n in (12, 14)] + [parse(1, n, 'delims8', cost=30, **BIG) for n in (16, 20)] + \
                 [ip(1, 6, 1, n, cost=40, **BIG) for n in (28, 36, 45)] + [parse(1, 9, own=1, **BIG), parse(1, 0, **BIG), ip(1, 4, 0, 9, **BIG)]
    elif prop == 'C02':
        j += [parse(2, 6, need=True, witness=True), parse(2, 8, cost=5), parse(2, 12, 'delims8', cost=6), parse(2, 9, 'delims', cost=6), parse(2, 5, own=1, need=True, witness=True, cost=2), parse(2, 7, own=1, cost=4),
              parse(2, 0, own=1, cost=4), parse(2, 0, cost=20, time=200)]
        if not q:
            j += [parse(2, n, cost=50, **BIG) for n in (10, 11, 12)] + [parse(2, n, 'delims8', cost=50, **BIG) for n in (15, 18)] + [parse(2, n, own=1, cost=50, **BIG) for n in (8, 9, 10)] + \
                 [parse(2, n, 'delims8', own=1, cost=50, **BIG) for n in (12, 14)]
    elif prop == 'C03':
        j += [parse(3, 6, need=True, witness=True), parse(3, 8, cost=6), parse(3, 11, 'delims8', cost=6), parse(3, 9, 'delims', cost=6), parse(3, 5, own=1, need=True, witness=True, cost=2), parse(3, 7, own=1, cost=4),
              parse(3, 0, own=1, cost=4), parse(3, 0, cost=5), parse(3, 10, 'hex8', cost=3), ip(3, 6, 1, 16, cost=5), ip(3, 6, 3, 45, cost=18), ip(3, 4, 2, 16)]
        if not q:
            j += [parse(3, n, cost=50, **BIG) for n in (9, 10, 11)] + [parse(3, n, 'delims8', cost=50, **BIG) for n in (14, 17)] + [parse(3, n, own=1, cost=50, **BIG) for n in (8, 9)]
    elif prop == 'C04':
        j += [parse(4, 6, need=True, witness=True), parse(4, 9, cost=6), parse(4, 11, 'delims', cost=10), ip(4, 6, 1, 13, need=True, witness=True, cost=3), ip(4, 6, 1, 20, cost=12), ip(4, 6, 3, 45, cost=18),
              ip(4, 4, 2, 16, need=True, witness=True), ip(4, 4, 0, 8, cost=6), parse(4, 6, own=1), parse(4, 0, own=1, cost=4)]
        j += [edit(9, op, 0, 7, b='auth8', small=True, cost=9) for op in (11, 12)]
        if not q:
            j += [parse(4, n, cost=50, **BIG) for n in (10, 11, 12)] + [ip(4, 6, 1, n, cost=40, **BIG) for n in (28, 36, 45)] + [ip(4, 4, 0, 9, **BIG)]
    elif prop == 'C05':
        j += [parse(5, 6, need=True, witness=True), parse(5, 9, cost=8), parse(5, 13, 'hex8', cost=6), parse(5, 12, 'delims8', cost=6), parse(5, 5, own=1, need=True, witness=True), parse(5, 8, own=1, cost=6),
              parse(5, 0, cost=5), parse(5, 0, own=1, cost=4), parse(5, 12, 'hex8', own=1, cost=5)]
        if not q:
            j += [parse(5, n, cost=50, **BIG) for n in (10, 11, 12)] + [parse(5, n, 'hex8', cost=50, **BIG) for n in (16, 20)] + [parse(5, n, own=1, cost=50, **BIG) for n in (9, 10)]
    elif prop == 'C06':
        j += edits(6, PLAIN, tier)
        j += [edit(6, op, 2, 5, cost=4) for op in PLAIN]
    elif prop == 'C07':
        j += edits(7, [k for k in range(22) if k not in PLAIN] + [11], tier)
    elif prop in ('C08', 'C09', 'C10', 'C11'):
        p = int(prop[1:])
        j += edits(p, range(22) if p == 8 else range(24), tier)
        if p == 9:
            j += [parse(2, 5, own=1), parse(4, 5, own=1)]
        if p == 10:
            j += [seg(op, 5, 1, cost=5) for op in (3, 4, 5, 6)]
    elif prop == 'C12':
        j += [seg(0, 6, need=True, witness=True), seg(0, 9, a='delims8', cost=5), seg(0, 0, cost=3), seg(0, 10, a='path4', cost=5)]
        j += [seg(op, 4, 2, need=True, witness=True, cost=3) for op in range(1, 7)]
        j += [seg(op, 5, 2, cost=20) for op in range(1, 7)]
        j += [seg(op, 0, 1, small=True, cost=10) for op in range(1, 7)]
        j += [seg(op, 8, 2, a='path4', b='path4', cost=10) for op in range(1, 7)]
        if not q:
            j += [seg(0, n, **BIG) for n in (8, 9)] + [seg(op, 6, 2, cost=50, **BIG) for op in range(1, 7)] + [seg(op, 0, 2, cost=50, **BIG) for op in range(1, 7)] + \
                 [seg(op, 12, 2, a='path4', b='path4', cost=50, **BIG) for op in range(1, 7)]
    elif prop == 'C13':
        j += [param(0, 6, need=True, witness=True), param(0, 7, cost=4), param(0, 9, a='query8', cost=8), param(0, 0, cost=3),
              param(1, 4, 1, need=True, witness=True, cost=3), param(2, 4, 1, need=True, witness=True, cost=3), param(1, 7, 2, a='query8', cost=10), param(2, 7, 2, a='query8', cost=10),
              param(1, 8, 2, a='query8', b='query8', cost=10), param(2, 8, 2, a='query8', b='query8', cost=10)]
        if not q:
            j += [param(0, n, **BIG) for n in (8, 9)] + [param(0, n, a='query8', **BIG) for n in (11, 13)] + [param(k, n, 3, a='query8', b='query8', cost=50, **BIG) for k in (1, 2) for n in (9, 10)] + \
                 [param(k, 5, 2, cost=50, **BIG) for k in (1, 2)]
    elif prop == 'C14':
        j += [misc(0, '-DVN=8', 'scheme names of up to 8 arbitrary bytes', need=True, witness=True, reach=['special', 'unknown']),
              misc(1, '-DVN=6', 'normalization of any valid URL of up to 6 arbitrary bytes', need=True, witness=True, reach=['scheme', 'authority']),
              misc(1, '-DVN=8', 'normalization of any valid URL of up to 8 arbitrary bytes', cost=6),
              misc(1, '-DVN=11 -DVA=delims', 'normalization of any valid URL of up to 11 characters, each ' + ALPHA['delims'], cost=8),
              misc(1, '-DVN=0 -DVSMALL', 'normalization of URLs with any combination of absent and present parts', cost=8)]
        if not q:
            j += [misc(0, '-DVN=24', 'scheme names of up to 24 arbitrary bytes', **BIG)] + [misc(1, '-DVN=%d' % n, 'normalization of any valid URL of up to %d arbitrary bytes' % n, cost=50, **BIG) for n in (9, 10, 11)] + \
                 [misc(1, '-DVN=0', 'normalization of URLs with any combination of absent, empty and present parts', **BIG)]
    elif prop == 'C15':
        st = ['the empty URL', '//h', 's://u:p@h:12/p?q#f', '//:99999999999/x', '/x']
        j += [misc(2, '-DVSTART=%d' % k, 'every 32 bit value as the port of ' + st[k], need=k in (1, 2), witness=k == 1, cost=20, reach=['ten digits', 'zero'], time=400, z3total=120) for k in range(5)]
    elif prop == 'C16':
        j += [pool('-DVN=1', 'one request of any type on buffers of up to 17 bytes at 16 alignments', need=True, witness=True, reach=['served', 'full']),
              pool('-DVN=2 -DVS=4', 'two requests on buffers of up to 17 bytes at 4 alignments', need=True, witness=True, reach=['served', 'full']),
              pool('-DVN=3 -DVL=10 -DVS=4', 'three requests on buffers of up to 9 bytes at 4 alignments', need=True, reach=['served', 'full']),
              pool('-DVN=3 -DVL=18 -DVS=2', 'three requests on buffers of up to 17 bytes at 2 alignments', reach=['served', 'full']),
              pool('-DVN=1 -DVL=40', 'one request on buffers of up to 39 bytes at 16 alignments', reach=['served', 'full']),
              pool('-DVN=4 -DVL=8 -DVS=3', 'four requests on buffers of up to 7 bytes at 3 alignments', reach=['served', 'full']),
              pool('-DVOP=1 -DVN=4', 'decoded host and query of 14 to 20 characters, 4 of them arbitrary, held in pools of 8 and 128 bytes', need=True, witness=True, reach=['decoded'])]
        if not q:
            j += [pool('-DVN=4 -DVL=12 -DVS=4', 'four requests on buffers of up to 11 bytes at 4 alignments', **BIG), pool('-DVN=5 -DVL=10 -DVS=4', 'five requests on buffers of up to 9 bytes at 4 alignments', **BIG)]
    return j


PROPS = {
    'C09': {'assume': ['induction over histories: every container state in the bounds is built from its text; that operations leave such a state is what is checked']},
    'C12': {'assume': ['known findings K1, K2 are excluded from the jobs and probed separately']},
}
for _k in range(1, 17):
    PROPS.setdefault('C%02d' % _k, {})
