"""The cases behind each property."""
import itertools
import os

import gen
import lib
from core import Batch, run_batches
from lib import file_, op, parse

SENT = b'\x4d'
START = b'\x1b\x1b\x1b\x1b\x01\x01\x01\x01'
SUITES = {}


def suite(*props):
    def reg(f):
        for p in props:
            SUITES[p] = f
        return f
    return reg


# ------------------------------------------------------------------- helpers

def root(d):
    """goal under which the code parses d"""
    return 'msg' if d.g == 'msg' else d.g


def parsed(d, *more, tail=SENT):
    return [parse(d.g, d.w + tail)] + list(more)


def parsed_w(g, w, *more):
    return [parse(g, w + SENT), *more]


def twrite(lim=-1, more=0):
    return op('twrite', k=1, lim=lim, more=more)


def heap():
    return op('heap')


def free(k=1):
    return op('free', k=k)


def base_msgs(ctx):
    return gen.derive(gen.ROOT_MSGS, 0, stats=ctx.stats)


def is_bad_firm(d):
    """The error is found inside of d, whatever follows."""
    return d.n and any(w in n for n in d.n for w in (' bool', 'tag 0', 'struct uint', 'msg 5', 'msg 7', ' u32'))


def frame(payload):
    """A transport frame around payload; the reader does not look at the checksum."""
    pad = -len(payload) % 4
    return START + payload + bytes(pad) + b'\x1b\x1b\x1b\x1b\x1a' + bytes([pad, 0x12, 0x34])


def list_header(n):
    """The shortest header of a list of n elements."""
    d = [n & 15]
    while n >> 4:
        n >>= 4
        d.insert(0, n & 15)
    return bytes([(0x80 if len(d) > 1 else 0) | 0x70 | d[0]] + [(0x80 if i < len(d) - 2 else 0) | x for i, x in enumerate(d[1:])])


def oct_element(b):
    """An octet string with the shortest header."""
    k = 1
    while len(b) + k >= 16 ** k:
        k += 1
    n = len(b) + k
    d = [(n >> (4 * (k - 1 - i))) & 15 for i in range(k)]
    return bytes([(0x80 if i < k - 1 else 0) | x for i, x in enumerate(d)]) + b


ELEMS = {'list': 'entry', 'path': 'oct', 'hdrseq': 'hdr', 'perseq': 'per', 'valseq': 'valentry', 'octseq': 'oct',
         'periodseq': 'period'}


def long_containers(ctx, counts):
    """goal, bytes, number of elements that are announced, elements"""
    pools = {}
    for e in sorted(set(ELEMS.values())):
        ds = gen.derive([[e, '']], 3, 'rnd', 8, 4, stats=ctx.stats)
        pools[e] = [d.w for d in ds if len(d.w) < 60 and d.w not in (b'\x01', b'\x80\x02')]
    for g, e in sorted(ELEMS.items()):
        for n in counts:
            es = [ctx.rng.choice(pools[e]) for _ in range(n)]
            if e == 'oct':  # each one another
                es = [b'\x03' + i.to_bytes(2, 'big') for i in range(n)]
            yield g, n, es


def frame_sized(ctx, goals=None):
    """goal, bytes: nested as deep and with as many elements as fit into a frame (8080 bytes)"""
    rng = ctx.rng
    out = []
    for n in ctx.pick((63, 128, 300, 700, 1100, 1980), (63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513, 700, 900, 1023, 1024, 1025, 1100, 1500, 1980)):
        out.append(('tree', b''.join(b'\x73\x01\x01' + rng.choice((b'\x71', b'\x71', b'\xf0\x01')) for _ in range(n)) + b'\x73\x02\x07\x01\x01'))
    node = lambda i: b'\x73\x03' + i.to_bytes(2, 'big') + b'\x01\x01'
    entry = lambda i: b'\x77\x01\x01\x01\x01\x01\x63' + i.to_bytes(2, 'big') + b'\x01'
    kinds = (('octseq', 8000, lambda i: b'\x01' if i % 3 else b'\x03' + i.to_bytes(2, 'big')), ('path', 2600, lambda i: b'\x03' + i.to_bytes(2, 'big')),
             ('list', 800, entry), ('tree', 1300, node), ('valseq', 1600, lambda i: b'\x72\x63' + i.to_bytes(2, 'big') + b'\x01'),
             ('hdrseq', 1300, lambda i: b'\x73\x03' + i.to_bytes(2, 'big') + b'\x62\x1e\x52\xff'),
             ('periodseq', 1000, lambda i: b'\x75\x01\x62\x1e\x01\x63' + i.to_bytes(2, 'big') + b'\x01'), ('perseq', 900, lambda i: b'\x74\x01\x65\0\0' + i.to_bytes(2, 'big') + b'\x70\x01'))
    for g, most, el in kinds:
        for n in (most,) if not ctx.deep else (most // 2, most, 1000, 1024):
            w = list_header(n) + b''.join(el(i) for i in range(n))
            out.append((g, b'\x73\x01\x01' + w if g == 'tree' else w))
    return out


def trees(ctx, shape):
    """A tree: shape(depth) children for a node; named by a counter."""
    count = [0]

    def node(depth):
        count[0] += 1
        kids = [node(depth + 1) for _ in range(shape(depth))]
        val = ctx.rng.choice((b'\x01', b'\x72\x62\x01\x62\x07', b'\x72\x62\x01\x55\xff\xff\x00\x01', b'\x72\x62\x04\x72\x62\x01\x62\x05'))
        return b'\x73' + oct_element(count[0].to_bytes(3, 'big')) + val + (list_header(len(kids)) + b''.join(kids) if kids else b'\x01')
    return node(0)


def container_groups(ctx, kinds, n=1):
    """For every container some of it and some of its elements."""
    pairs = (('path', 'oct'), ('octseq', 'oct'), ('hdrseq', 'hdr'), ('perseq', 'per'), ('valseq', 'valentry'), ('periodseq', 'period'),
             ('list', 'list'), ('tree', 'tree'), ('file', 'msg'))
    pool = buildable(gen.derive([[e, 'closereq'] for e in sorted({e for _, e in pairs})], 3, 'rnd', 30, 3, stats=ctx.stats)
                     + gen.derive([[g, ''] for g in sorted({g for g, e in pairs if g not in (e, 'file')})], 1, stats=ctx.stats))
    out = []
    for g, e in pairs:
        es = sorted((d for d in pool if d.g == e and len(d.w) < 60), key=lambda d: len(d.w))
        cs = [] if g == e else sorted((d for d in pool if d.g == g), key=lambda d: len(d.w))[1:1 + n]
        ini = [g] if g in ('path', 'octseq', 'list', 'tree', 'file') else []
        out.append(gen.group(cs + ctx.sample(es[:2 * n + 2], n), kinds.replace('add', 'addmsg') if g == 'file' else kinds, ini))
    return out


# ------------------------------------------------------------ C07, C08: grammar

@suite('C07')
def c07(ctx):
    roots = gen.ROOT_GOALS + gen.ROOT_MSGS
    ds = gen.derive(roots, 1, stats=ctx.stats)
    ds += gen.derive(gen.ROOT_MSGS, 8, 'rnd', ctx.pick(40, 1500), 5, stats=ctx.stats)
    ds += gen.absents(ctx.pick(25, 300), ctx.stats)
    if ctx.deep:
        ds += gen.derive(gen.ROOT_STRUCT_BODIES + gen.ROOT_BODIES, 1, stats=ctx.stats)
        ds += gen.derive(gen.ROOT_GOALS, 5, 'rnd', 300, 4, stats=ctx.stats)
        ds += gen.derive([[g, ''] for g in gen.CONTAINERS + gen.STRUCTS], 2, stats=ctx.stats)
    cases = []
    for i, d in enumerate(ds):
        c = parsed(d, free())
        if d.g == 'msg' and i % 3 == 0:
            c = [file_(d.w), op('dump', k=1), free()]
        cases.append(c)
    # many elements, deep and wide trees
    big = []
    for g, n, es in long_containers(ctx, ctx.pick((15, 16, 17, 255, 256, 257, 300), (14, 15, 16, 17, 18, 31, 32, 33, 127, 128, 129, 254, 255, 256,
                                                                                    257, 258, 300, 511, 512, 513, 1000, 4096))):
        big.append([parse(g, list_header(n) + b''.join(es) + SENT), free()])
    for shape in (lambda d: 1 if d < 14 else 0, lambda d: 1 if d < 40 else 0, lambda d: 3 if d < 3 else 0, lambda d: 17 if d == 0 else 1 if d < 3 else 0,
                  lambda d: 300 if d == 0 else 0, lambda d: 2 if d < 6 else 0, lambda d: 256 if d == 1 else 1 if d == 0 else 0,
                  lambda d: ctx.rng.randrange(0, 4) if d < 6 else 0, lambda d: ctx.rng.choice((0, 1, 1, 2)) if d < 30 else 0):
        t = trees(ctx, shape)
        big.append([parse('tree', t + SENT), op('dump', k=1), free()])
        big.append([parse('procres', b'\x73\x01\x72\x02\x01\x02\x02' + t + SENT), free()])
    frames = [[parse(g, w + SENT), op('dump', k=1), free()] for g, w in frame_sized(ctx)]
    # strings without content are entries like others
    for g, head in (('path', b''), ('octseq', b''), ('procres', b'\x73\x02\x06'), 
                    ('setreq', b'\x75\x02\x06\x01\x01'), ('packres', b'\x78\x01\x01\x01'), ('plistres', b'\x79\x02\x03\x01\x01')):
        tail = {'procres': b'\x73\x02\x04\x01\x01', 'setreq': b'\x73\x02\x04\x01\x01', 'packres': b'\x70\x70\x01\x02\x07',
                'plistres': b'\x01\x01\x70\x01\x02\x07'}.get(g, b'')
        for es in ((b'\x80\x02',), (b'\x80\x02', b'\x02\x07'), (b'\x02\x07', b'\x80\x02', b'\x01', b'\x80\x80\x03', b'\x02\x08')):
            cases.append(parsed_w(g, head + list_header(len(es)) + b''.join(es) + tail, free()))
    for n in (255, 256, 1000, 4092, 4093, 70000):
        big.append([parse('oct', oct_element(bytes((i * 7 + i // 256) % 256 for i in range(n))) + SENT)])
        big.append([parse('listres', b'\x77\x01\x03\x05\x06' + oct_element(bytes((i * 7 + i // 256) % 256 for i in range(n))) + b'\x01\x71' +
                          b'\x77\x02\x09\x01\x01\x01\x01\x62\x03\x01\x02\x08\x01' + SENT), free()])
    run_batches(ctx, [Batch('derived', cases), Batch('large', big), Batch('as large as a frame', frames)])


@suite('C08')
def c08(ctx):
    roots = gen.ROOT_GOALS + gen.ROOT_MSGS
    ds = gen.derive(roots, 1, want=['bad'], stats=ctx.stats)
    ds += gen.derive(gen.ROOT_MSGS, 5, 'rnd', ctx.pick(20, 1000), 6, want=['bad'], stats=ctx.stats)
    if ctx.deep:
        ds += gen.derive(gen.ROOT_STRUCT_BODIES + gen.ROOT_BODIES, 1, want=['bad'], stats=ctx.stats)
        ds += gen.derive(gen.ROOT_GOALS, 5, 'rnd', 400, 4, want=['bad'], stats=ctx.stats)
    cases = []
    for i, d in enumerate(ds):
        c = parsed(d)
        if d.g == 'msg' and i % 4 == 0:
            c = [file_(d.w + SENT)]
        cases.append(c)
    # everything cut off at every byte
    bases = gen.derive(gen.ROOT_GOALS + gen.ROOT_STRUCT_BODIES + gen.ROOT_MSGS, 0, stats=ctx.stats)
    for d in bases:
        n = len(d.w)
        cuts = range(n) if ctx.deep or d.g not in gen.BODY else sorted({0, 1, 2, n // 2, n - 2, n - 1})
        for k in cuts:
            cases.append([parse(d.g, d.w[:k])])
    # every byte replaced by a header of another kind
    heads = [0x00, 0x01, 0x02, 0x42, 0x52, 0x55, 0x62, 0x65, 0x70, 0x71, 0x72, 0x7f, 0x81, 0xf1]
    for d in bases:
        if d.g == 'msg':
            continue
        for k in range(len(d.w)):
            hs = heads if ctx.deep else ctx.rng.sample(heads, 1)
            for h in hs:
                if d.w[k] != h:
                    cases.append([parse(d.g, d.w[:k] + bytes([h]) + d.w[k + 1:] + SENT)])
    # many elements, fewer or more than announced, one of them broken
    for g, n, es in long_containers(ctx, ctx.pick((16, 255, 256, 257), (15, 16, 17, 127, 128, 255, 256, 257, 511, 512, 1000))):
        w = b''.join(es)
        cases.append([parse(g, list_header(n + 1) + w + SENT)])
        cases.append([parse(g, list_header(n + 256) + w)])
        cases.append([parse(g, list_header(n) + w[:-1])])
        i = ctx.rng.randrange(n)
        cases.append([parse(g, list_header(n) + b''.join(es[:i] + [b'\x42\x01\x01'] + es[i + 1:]) + SENT)])
        cases.append([parse(g, list_header(n) + b''.join(es[:-1] + [ctx.rng.choice((b'\x71\x01', b'\x62\x01', b'\x42\x01'))]) + SENT)])
        body = {'path': b'\x73\x01%s\x73\x02\x01\x01\x01', 'list': b'\x77\x01\x02\x03\x02\x04\x01%s\x01\x01'}.get(g)
        if body:
            for m in (n, n + 1, n - 1):
                cases.append([parse('procres' if g == 'path' else 'listres', body % (list_header(m) + w) + SENT)])
    run_batches(ctx, [Batch('derived', cases)])


# ------------------------------------------------------- C05, C06: messages in files

@suite('C05')
def c05(ctx):
    drops = gen.derive(gen.ROOT_MSGS, 1, want=['drop'], stats=ctx.stats)
    oks = [d for d in gen.derive([['msg', b] for b in ctx.sample(gen.BODY, ctx.pick(4, 14))], 1, stats=ctx.stats)
           if any('crc' in n for n in d.n)]
    drops += gen.derive(gen.ROOT_MSGS, 4, 'rnd', ctx.pick(40, 800), 6, want=['drop'], stats=ctx.stats)
    bases = base_msgs(ctx)
    other = bases[0].w
    cases = []
    for d in drops + oks:
        cases.append(parsed(d))
        cases.append([file_(other + d.w + bases[-1].w)])
    # one bit of a message flipped: checksum or content
    for d in ctx.sample(bases, ctx.pick(5, 14)) + ctx.sample(oks, ctx.pick(5, 60)):
        n = len(d.w)
        bits = list(range(8 * n))
        if not ctx.deep:
            bits = ctx.sample(bits, 100) + list(range(8 * n - 32, 8 * n))
        for b in bits:
            w = bytearray(d.w)
            w[b // 8] ^= 1 << (b % 8)
            cases.append([parse('msg', bytes(w) + SENT)])
    # two bits of the checksum, and every checksum that is one of the two, mangled
    for d in ctx.sample(bases, ctx.pick(3, 14)):
        n = len(d.w)
        for a, b in itertools.combinations(range(16), 2):
            w = bytearray(d.w)
            for k in (a, b):
                w[n - 3 + k // 8] ^= 1 << (k % 8)
            cases.append([file_(bytes(w) + other)])
    # messages of any size
    for n in ctx.pick((100, 215, 250, 300, 4096, 33000, 66000), tuple(range(200, 260)) + (300, 511, 512, 4096, 8000, 32768, 33000, 65535, 65536, 66000)):
        m = b'\x76' + oct_element(bytes((i * 13 + n) % 256 for i in range(n))) + b'\x62\x00\x62\x00\x72\x63\x02\x01\x71\x01\x63'
        c = crc16(m[:-1])
        for good in (0, 1, 2):
            w = m + (c if good else bytes([c[0], c[1] ^ 0x10])) + b'\x00'
            if good == 2:
                w = other + w
            cases.append([file_(w + other)])
    run_batches(ctx, [Batch('checksums', cases)])


def message_pieces(ctx, n_ok, n_drop, n_bad):
    oks = gen.derive(gen.ROOT_MSGS, 3, 'rnd', max(2, n_ok // 14 + 1), 10, stats=ctx.stats)
    oks = [d for d in oks if len(d.w) < 300 and 'crc no end' not in d.n]
    some = []
    if n_drop or n_bad:
        few = [b for b in gen.BODY if b not in ('listres', 'plistres', 'packreq', 'plistreq')]
        some = gen.derive([['msg', b] for b in ctx.sample(few, 3)], 1, want=['bad', 'drop'], stats=ctx.stats)
    drops = [d for d in some if d.c == 'drop']
    bads = [d for d in some if d.c == 'bad' and is_bad_firm(d)]
    ps = [(d.w, 'ok', d.t) for d in ctx.sample(oks, n_ok)]
    ps += [(d.w, 'drop', []) for d in ctx.sample(drops, n_drop)]
    ps += [(d.w, 'bad', []) for d in ctx.sample(bads, n_bad)]
    ps += [(b'\0', 'zero', []), (b'\0\0\0', 'zero', []), (b'\0' * 40, 'zero', [])]
    return ps


@suite('C06')
def c06(ctx):
    ps2 = message_pieces(ctx, 30, 6, 4)
    byc = {c: [p for p in ps2 if p[1] == c] for c in ('ok', 'drop', 'bad', 'zero')}
    ps = ctx.sample(byc['ok'], 3) + byc['drop'][:1] + byc['bad'][:1] + byc['zero'][:2]
    seqs = [(ps, ix) for ix in gen.files(ps, ctx.stats, 'all', ctx.pick(3, 5))]
    seqs += [(ps2, ix) for ix in gen.files(ps2, ctx.stats, 'rnd', 12, ctx.pick(300, 4000))]
    cases = [[file_(b''.join(p[i][0] for i in ix)), op('dump', k=1), free()] for p, ix in seqs]
    # cut off anywhere
    for p, ix in ctx.sample(seqs, ctx.pick(150, 2000)):
        w = b''.join(p[i][0] for i in ix)
        cases.append([file_(w[:ctx.rng.randrange(len(w) + 1)])])
    cases += [[file_(b'')], [file_(bytes(9))]]
    m1, m2 = byc['ok'][0][0], byc['ok'][1][0]
    # many that are dropped, in a row and between others
    short = min(byc['drop'], key=lambda p: len(p[0]))[0]
    for n in (3, 5, 8, 9, 16, 17, 33, 65, 100, 257):
        cases.append([file_(m1 + short * n + m2), op('dump', k=1), free()])
        cases.append([file_((short + min((m1, m2), key=len)) * n), op('dump', k=1), free()])
    for n in (4, 16, 255, 256, 300, 4096, 70000):
        cases.append([file_(m1 + bytes(n) + m2 + bytes(n)), op('dump', k=1)])
        cases.append([file_(bytes(n) + m2 + m1), op('dump', k=1)])
    # many messages
    small = min((p for p in ps2 if p[1] == 'ok'), key=lambda p: len(p[0]))[0]
    big = [[file_(small, rep=n), free()] for n in ctx.pick((127, 128, 255, 256, 300, 32767, 32768, 33000),
                                                           (127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 70000))]
    run_batches(ctx, [Batch('files', cases), Batch('many', big, variant='plain')])


# -------------------------------------------------------------- C09, C10, C12

INTPAT = [b'\x00', b'\x01', b'\x7f', b'\x80', b'\xff', b'\xfe']


def int_patterns(n, rng, extra):
    out = set()
    if n == 0:
        return [b'']
    for p in (0x00, 0xff, 0x7f, 0x80, 0x01, 0x55, 0xaa):
        out.add(bytes([p]) * n)
    for hi in (0x00, 0x01, 0x7f, 0x80, 0x81, 0xfe, 0xff):
        for lo in (0x00, 0xff, 0x01):
            out.add(bytes([hi]) + bytes([lo]) * (n - 1))
            out.add(bytes([hi]) + bytes(n - 1 - min(1, n - 1)) + bytes([lo]) * min(1, n - 1))
    for i in range(8 * n):
        v = 1 << i
        out.add(v.to_bytes(n, 'big'))
        out.add(((1 << (8 * n)) - 1 - v).to_bytes(n, 'big'))
    for _ in range(extra):
        out.add(bytes(rng.randrange(256) for _ in range(n)))
    return sorted(out)


def int_elements(ctx, extra):
    """goal, header, data: every field width with every number of bytes"""
    for g in gen.NUMS + ['value', 'status']:
        for t in (0x50, 0x60):
            signed = g[0] == 'i' if g in gen.NUMS else None
            if signed is not None and signed != (t == 0x50):
                continue
            if g == 'status' and t == 0x50:
                continue
            w = int(g[1:]) // 8 if g in gen.NUMS else 8
            for n in range(0, w + 2):
                for p in int_patterns(n, ctx.rng, extra):
                    yield g, bytes([t + n + 1]), p


@suite('C09')
def c09(ctx):
    cases = []
    tails = [b'\x00', b'\xff', b'\x80\x7f']
    for i, (g, h, p) in enumerate(int_elements(ctx, ctx.pick(0, 40))):
        ts = tails if ctx.deep or len(p) <= 2 else [tails[i % 3]]
        for t in ts:
            cases.append([parse(g, h + p + t)])
    if ctx.deep:
        for g in gen.NUMS + ['value', 'status']:
            for b in range(256):
                t = 0x50 if g[0] == 'i' else 0x60
                cases.append([parse(g, bytes([t + 2, b]) + SENT)])
                if g != 'u8' and g != 'i8':
                    for c in range(0, 256, 5):
                        cases.append([parse(g, bytes([t + 3, b, c]) + SENT)])
    # encoding
    for g in gen.NUMS:
        t = 0x50 if g[0] == 'i' else 0x60
        w = int(g[1:]) // 8
        for k, p in enumerate(int_patterns(w, ctx.rng, ctx.pick(4, 100))):
            tok = [[3, t] + list(p)]
            goals = [g, 'value'] + (['status'] if t == 0x60 else [])
            for gg in goals if ctx.deep else [goals[k % len(goals)]]:
                cases.append([op('build', g=gg, k=1, toks=tok), op('newbuf', q=1, size=32, fill=255 * (k % 2)),
                              op('write', k=1, q=1), op('write', k=1, q=1)])
    # in context: all number fields of the messages
    ds = gen.derive(gen.ROOT_STRUCT_BODIES, 1, stats=ctx.stats)
    ds = [d for d in ds if any(n.split()[0] in ('num', 'any', 'value', 'status') for n in d.n)]
    if not ctx.deep:
        ds = ctx.sample(ds, 500)
    cases += [parsed(d) for d in ds]
    run_batches(ctx, [Batch('integers', cases)])


@suite('C10')
def c10(ctx):
    types = [0x00, 0x40, 0x50, 0x60, 0x70]
    lens = list(range(0, ctx.pick(600, 5000)))
    for k in range(2, 8):
        for d in range(-9, 10):
            lens.append((1 << (4 * k)) + d)
    lens += [0x7fffffff // 16, 1 << 24, (1 << 27) - 1, (1 << 28) - 10]
    lens = sorted(set(l for l in lens if 0 <= l < (1 << 28) - 9))
    ops = [op('hdrw', type=t, len=l, fill=f) for t in types for l in lens
           for f in ((0, 255) if l < 40 else ((l * 37) % 256,))]
    cases = [ops[i:i + 200] for i in range(0, len(ops), 200)]
    # reading: every one and two byte header, longer ones
    rd = [bytes([a]) for a in range(256)] + [bytes([a, b]) for a in range(0x80, 256) for b in range(0, 256, ctx.pick(3, 1))]
    for t in (0x80, 0xc0, 0xd0, 0xe0, 0xf0):
        for n in range(2, 12):
            for _ in range(ctx.pick(12, 200)):
                d = [ctx.rng.choice((0, 0, 0, 1, 7, 8, 15)) for _ in range(n)]
                h = bytes([t | d[0]] + [0x80 | ctx.rng.choice((0, 0x10, 0x70)) | x for x in d[1:-1]] + [d[-1] | ctx.rng.choice((0, 0x30))])
                rd.append(h)
                rd.append(h[:ctx.rng.randrange(len(h) + 1)])
            for v in (0x7fffffff, 0x80000000, 0xffffffff, 0x7ffffff, 0x8000000, n, n - 1, n + 1, 15, 16, 255, 256):
                if v < 16 ** n:
                    d = [(v >> (4 * (n - 1 - i))) & 15 for i in range(n)]
                    rd.append(bytes([t | d[0]] + [0x80 | x for x in d[1:-1]] + [d[-1]]))
    rd.append(b'')
    ops = []
    for i, h in enumerate(rd):
        for tail in ((b'',) if i % 2 else (b'\xff',)):
            ops.append(op('hdrr', **{'in': h + (tail if h else b'')}))
    ops += [op('opt', **{'in': bytes([a, 7])}) for a in range(256)] + [op('opt', **{'in': b'\x01'})]
    cases += [ops[i:i + 200] for i in range(0, len(ops), 200)]
    # elements of these lengths
    for n in ctx.pick((0, 1, 13, 14, 15, 16, 252, 253, 254, 255, 256, 4091, 4092, 4093, 4094),
                      tuple(range(0, 300)) + (4090, 4091, 4092, 4093, 4094, 65529, 65530, 65531, 65532)):
        tok = [[6, 97, n]] if n > 600 else [[1] + [(n * 3 + i) % 256 for i in range(n)]]
        cases.append([op('build', g='oct', k=1, toks=tok), op('newbuf', q=1, size=ctx.rng.choice((1, 16, n + 20)), fill=255),
                      op('writer', k=1, q=1), free()])
    for n in ctx.pick((0, 1, 14, 15, 16, 17, 255, 256, 257), tuple(range(0, 40)) + (255, 256, 257, 4095, 4096, 4097)):
        for g in ('path', 'octseq'):
            tok = [[4, n]] + [[1, i % 256] for i in range(n)]
            cases.append([op('build', g=g, k=1, toks=tok), op('newbuf', q=1, size=16, fill=255), op('write', k=1, q=1), free()])
    run_batches(ctx, [Batch('headers', cases)])


@suite('C12')
def c12(ctx):
    # a time in every place where one can be
    ds = gen.derive([['time', ''], ['per', ''], ['ppv', ''], ['tupel', '']]
                    + [[b, ''] for b in ('openres', 'packreq', 'packres', 'plistreq', 'plistres', 'listres')]
                    + [['msg', 'listres'], ['msg', 'plistreq']], 1, want=['ok', 'bad'], stats=ctx.stats)
    ds = [d for d in ds if d.g == 'time' or any('time' in n for n in d.n)]
    two = gen.derive([['per', ''], ['listres', ''], ['plistres', ''], ['packreq', '']], 2,
                     *(('all',) if ctx.deep else ('rnd', 500, 3)), stats=ctx.stats)
    two = [d for d in two if len([n for n in d.n if 'time' in n]) == 2]
    ds += two
    cases = [parsed(d) for d in ds]
    # all lists below a tag, with three or other numbers of elements
    el = [b'\x01', b'\x62\x01', b'\x63\x01\x02', b'\x65\x01\x02\x03\x04', b'\x52\x01', b'\x53\x01\x02', b'\x55\x01\x02\x03\x04',
          b'\x02a', b'\x42\x01', b'\x61', b'\x51', b'\x71\x01', b'\x69\0\0\0\0\1\2\3\4']
    combos = list(itertools.product(el, repeat=3)) if ctx.deep else [tuple(ctx.rng.choice(el) for _ in range(3)) for _ in range(350)]
    for c in combos:
        cases.append([parse('time', b'\x72\x62\x03\x73' + b''.join(c) + SENT)])
    for n in (0, 1, 2, 4, 5, 15, 16):
        h = bytes([0x70 + n]) if n < 16 else b'\xf1\x00'
        cases.append([parse('time', b'\x72\x62\x02' + h + b'\x65\0\0\0\1' + b'\x53\0\x3c' * (n - 1 if n else 0) + SENT)])
    for a in range(256):  # every first byte of a time, of its tag and of its value
        cases.append([parse('time', bytes([a]) + b'\x62\x01\x65\x00\x00\x01\x02' + SENT)])
        cases.append([parse('time', b'\x72' + bytes([a]) + b'\x01\x65\x00\x00\x01\x02' + SENT)])
        cases.append([parse('time', b'\x72\x62\x01' + bytes([a]) + b'\x83\x00\x01\x02\x03\x04\x05\x06' + SENT)])
        cases.append([parse('time', b'\x72\x62' + bytes([a]) + b'\x65\x83\x00\x01\x02' + SENT)])
    for n in range(1, 10):
        for v in int_patterns(n, ctx.rng, 2)[:ctx.pick(12, 100)]:
            cases.append([parse('time', bytes([0x61 + n]) + v + SENT)])
            cases.append([parse('time', b'\x72\x62\x02' + bytes([0x61 + n]) + v + SENT)])
    run_batches(ctx, [Batch('times', cases)])


# ------------------------------------------------------------------- C11: DZG

@suite('C11')
def c11(ctx):
    recs = gen.dzg(ctx.stats, 'all', 'full', 0, 2, vary=0) + gen.dzg(ctx.stats, 'all', 'full', 0, 2)
    recs += gen.dzg(ctx.stats, 'rnd', 'full', 0, 8, ctx.pick(400, 5000))
    recs += gen.dzg(ctx.stats, 'all', 'short', 1, ctx.pick(3, 4))
    cases = []
    for i, r in enumerate(recs):
        if i % 4 == 0:
            cases.append([file_(bytes(r['w']))])
        elif i % 4 == 1:
            cases.append([parse('list', bytes(r['l']) + SENT), parse('list', bytes(r['l']) + SENT, 2), op('dump', k=1)])
        else:
            cases.append([file_(bytes(r['w'])), op('dump', k=1), free()])
    # other entries before, between and after; several meters in a list
    dz = [r for r in recs if r['l'] and len(r['l']) > 20]
    oth = b'\x77\x07\x01\x00\x02\x08%c\xff\x01\x01\x62\x1e\x52\xff\x53\xff\x38\x01'
    ident = b'\x77\x07\x01\x00\x60\x01\x00\xff\x01\x01\x01\x01\x0b\x0a\x01DZG\x00%s\x01'
    power = b'\x77\x07\x01\x00\x10\x07\x00\xff\x01\x01\x62\x1b\x52\xff\x53\xff\x38\x01'
    for n in ctx.pick((1, 2, 5, 13, 14, 30, 255, 256, 300), (1, 2, 3, 4, 5, 6, 7, 8, 13, 14, 15, 16, 30, 100, 253, 254, 255, 256, 257, 300, 1000)):
        o = [oth % (i % 256) for i in range(n)]
        for sn in (42000001, 49000000, 58000000):
            i = ident % sn.to_bytes(4, 'big')
            for es in ([i] + o + [power], o + [i, power], [i, power] + o + [power], [power] + o + [i], o[:1] * n + [i] + o + [power, power]):
                cases.append([parse('list', list_header(len(es)) + b''.join(es) + SENT)])
    # serial numbers all over
    ser = b'\x77\x07\x01\x00\x60\x01\x00\xff\x01\x01\x01\x01\x0b%s\x01'
    pow_ = b'\x77\x07\x01\x00\x10\x07\x00\xff\x01\x01\x62\x1b\x52\xff\x53\xff\x38\x01'
    serials = set()
    for lim in (42000000, 48999999, 55000000, 58999999):
        serials.update(range(lim - 3, lim + 4))
        serials.update(lim ^ (1 << b) for b in range(32))
    serials.update(ctx.rng.randrange(40000000, 61000000) for _ in range(ctx.pick(200, 5000)))
    serials.update((0, 1, 0xffffffff, 0x80000000, 42, 4200000, 420000000, 550000000))
    for n in sorted(serials):
        for hi in (b'\x0a\x01DZG\x00', b'\x0a\x01DZG\x01') if n % 5 == 0 else (b'\x0a\x01DZG\x00',):
            cases.append([parse('list', b'\x72' + ser % (hi + n.to_bytes(4, 'big')) + pow_ + SENT)])
    run_batches(ctx, [Batch('lists', cases)])


# ----------------------------------------------------------- C13, C14, C15: encoding

def buildable(ds):
    return [d for d in ds if d.t and d.t[0][0] != 0]


def bg(d):
    return d.g


NB = dict(size=512, fill=0xff)


@suite('C13')
def c13(ctx):
    ds = gen.derive(gen.ROOT_GOALS + gen.ROOT_MSGS, 1, stats=ctx.stats)
    ds += gen.derive(gen.ROOT_BODIES, 0, stats=ctx.stats)
    ds += gen.derive(gen.ROOT_MSGS, 8, 'rnd', ctx.pick(20, 1500), 4, stats=ctx.stats)
    ds += gen.absents(ctx.pick(15, 300), ctx.stats)
    if ctx.deep:
        ds += gen.derive(gen.ROOT_STRUCT_BODIES, 1, stats=ctx.stats)
        ds += gen.derive([[g, ''] for g in gen.CONTAINERS + gen.STRUCTS], 2, stats=ctx.stats)
    seen = set()
    cases = []
    for i, d in enumerate(buildable(ds)):
        key = repr((d.g, d.t))
        if key in seen:
            continue
        seen.add(key)
        size = (512, 16, 1, 3000)[i % 4]
        cases.append([op('build', g=bg(d), k=1, toks=d.t), op('newbuf', q=1, size=size, fill=(0, 255, 0x5a)[i % 3]),
                      op('write', k=1, q=1)])
    for g in gen.LEAVES + gen.CONTAINERS + ['period', 'tupel', 'tree', 'ppv', 'body']:
        cases.append([op('absent', g=g, write=1)])
    for b in range(256):  # everything but zero is true
        cases.append([op('build', g=('bool', 'value')[b % 2], k=1, toks=[[2, b]]), op('newbuf', q=1, size=b % 5, fill=b ^ 255), op('write', k=1, q=1)])
    # many elements
    large = []
    for g, n, es in long_containers(ctx, ctx.pick((255, 256, 300), (127, 128, 255, 256, 257, 300, 1000, 4096))):
        large.append([parse(g, list_header(n) + b''.join(es) + SENT), op('newbuf', q=1, size=(1, 5000)[n % 2], fill=255), op('write', k=1, q=1), free()])
    for shape in (lambda d: 1 if d < 40 else 0, lambda d: 17 if d == 0 else 1 if d < 3 else 0, lambda d: 300 if d == 0 else 0, lambda d: 2 if d < 6 else 0):
        large.append([parse('tree', trees(ctx, shape) + SENT), op('newbuf', q=1, size=7, fill=255), op('write', k=1, q=1), free()])
    for n in ctx.pick((70000,), (4093, 65535, 65536, 70000)):
        large.append([op('build', g='oct', k=1, toks=[[6, 65, n]]), op('newbuf', q=1, size=7, fill=255), op('writer', k=1, q=1), free()])
    for _ in range(3):  # messages as they are created, complete or not
        cases.append([op('init', g='msg', k=1), op('newbuf', q=1, size=9, fill=255), op('write', k=1, q=1), op('dump', k=1), op('write', k=1, q=1)])
    groups = [gen.group([d for d in ds if d.g == 'body' and d.b == b][:2], 'parse init setbody write dump free newbuf', ['msg']) for b in gen.BODY]
    cases += gen.histories([g for g in groups if g['pool']], ctx.stats, 'all', ctx.pick(4, 5))
    run_batches(ctx, [Batch('built', cases), Batch('large', large)])


@suite('C14')
def c14(ctx):
    ds = gen.derive(gen.ROOT_GOALS + gen.ROOT_MSGS, 1, stats=ctx.stats)
    ds += gen.derive(gen.ROOT_MSGS, 8, 'rnd', ctx.pick(30, 1500), 4, stats=ctx.stats)
    ds += gen.absents(ctx.pick(15, 300), ctx.stats)
    if ctx.deep:
        ds += gen.derive(gen.ROOT_STRUCT_BODIES, 1, stats=ctx.stats)
    recs = []
    for i, d in enumerate(buildable(ds)):
        recs.append((d, [parse(d.g, d.w + SENT), op('newbuf', q=1, size=(4096, 64)[i % 2], fill=255), op('write', k=1, q=1),
                         op('dump', k=1)]))
    for g, w in frame_sized(ctx):
        if g != 'octseq':
            recs.append((gen.Derived({'g': g, 'b': '', 'w': list(w), 'c': 'ok', 'n': 0, 't': []}), [parse(g, w + SENT), op('newbuf', q=1, size=64, fill=255), op('write', k=1, q=1), op('dump', k=1)]))
    run_batches(ctx, [Batch('decoded and encoded', [c for _, c in recs])])
    # what was written is read again: the bytes come from the specification's own encoder
    # by way of the recorded, accepted result
    rec = lib.run_cases([c for _, c in recs])
    second = []
    for (d, _), r in zip(recs, rec):
        if r is None or len(r) != 4 or 'bytes' not in r[2]['r']:
            continue
        w = bytes(r[2]['r']['bytes'])
        if w == b'\x01':  # an empty string is written as an absent one
            second.append([parse(d.g, w + SENT)])
            continue
        second.append([parse(d.g, w + SENT), op('newbuf', q=1, size=4096, fill=0), op('write', k=1, q=1)])
    run_batches(ctx, [Batch('decoded again', second)])


@suite('C15')
def c15(ctx):
    ds = [d for d in gen.derive(gen.ROOT_MSGS, 6, 'rnd', ctx.pick(10, 200), 5, stats=ctx.stats)]
    ds += ctx.sample(buildable(gen.derive(gen.ROOT_GOALS, 1, stats=ctx.stats)), ctx.pick(400, 3000))
    cases = []
    for d in ds:
        n = len(d.w)
        for size in ctx.sample(sorted({0, 1, 2, n // 2, max(0, n - 1), n, n + 1, 512, 5000}), ctx.pick(3, 9)):
            for fill in ctx.rng.sample((0, 255, 0x80, 0x0f), 1):
                cases.append([op('build', g=d.g, k=1, toks=d.t), op('newbuf', q=1, size=size, fill=fill),
                              op('write', k=1, q=1), op('write', k=1, q=1), op('rewind', q=1), op('write', k=1, q=1),
                              op('newbuf', q=2, size=3 * n + 40, fill=255 - fill), op('write', k=1, q=2), op('dump', k=1)])
    # every short history of buffers and what is written to them
    small = sorted((d for d in ds if len(d.w) < 60), key=lambda d: len(d.w))
    byg = lambda g: ctx.sample([d for d in small if d.g == g], 1)
    groups = [gen.group(byg('msg') + byg('oct'), 'build newbuf write rewind reparse free'), gen.group(byg('tree') + byg('value'), 'build newbuf write rewind freebuf')]
    cases += gen.histories(groups, ctx.stats, 'all', ctx.pick(5, 6), bufs=2, sizes=(0, 600) if ctx.deep else (3,))
    cases += gen.histories([gen.group(ctx.sample(small, 12), 'build build newbuf write write write write write write rewind freebuf free')], ctx.stats, 'rnd',
                           80, ctx.pick(25, 800), slots=5, bufs=3, sizes=(0, 1, 16, 600, 1000))
    # a file read from the line is written again
    ps = message_pieces(ctx, 12, 1, 0)
    fs = gen.files(ps, ctx.stats, 'rnd', 10, ctx.pick(80, 1500))
    for ix in fs:
        w = b''.join(ps[i][0] for i in ix)
        cases.append([file_(w), op('fwrite', k=1, rw=1), op('fwrite', k=1, rw=1), op('dump', k=1), op('fwrite', k=1, rw=0), free()])
        # to a descriptor, again and again, in between to its own buffer
        c = [file_(w)]
        for _ in range(ctx.rng.randrange(2, 6)):
            c.append(ctx.rng.choice((twrite(-1), twrite(-1), twrite(ctx.rng.randrange(60)),
                                     op('fwrite', k=1, rw=1), op('dump', k=1))))
        cases.append(c + [twrite(-1), op('dump', k=1)])
    # files of any size
    small = min((p for p in ps if p[1] == 'ok'), key=lambda p: len(p[0]))
    for n in ctx.pick((1, 2, 9, 40, 200), (1, 2, 3, 7, 20, 50, 128, 256, 700, 1500)):
        c = [op('init', g='file', k=1)]
        for i in range(n):
            c += [op('build', g='msg', k=2, toks=small[2]), op('addmsg', k=1, m=2)]
        c += [op('fwrite', k=1, rw=0), op('fwrite', k=1, rw=1), free()]
        cases.append(c)
    for n in ctx.pick((500, 512, 513, 600, 5000, 70000), (400, 500, 505, 510, 511, 512, 513, 514, 600, 1023, 1024, 1025, 5000, 65536, 200000)):
        for size in (0, 1, 512, n):
            cases.append([op('build', g='oct', k=1, toks=[[6, 65 + n % 9, n]]), op('newbuf', q=1, size=size, fill=255),
                          op('writer', k=1, q=1), op('writer', k=1, q=1), free()])
    run_batches(ctx, [Batch('written', cases)])


# ----------------------------------------------------------------- C16, C17

def hostile(ctx, n):
    """Damaged messages and garbage."""
    rng = ctx.rng
    pool = ctx.pool = getattr(ctx, 'pool', None) or [d.w for d in gen.derive(gen.ROOT_MSGS, 5, 'rnd', ctx.pick(20, 200), 5, want=['ok', 'bad', 'drop'], stats=ctx.stats)]
    out = []
    special = [0, 1, 2, 0x0f, 0x10, 0x42, 0x52, 0x62, 0x65, 0x69, 0x6f, 0x70, 0x72, 0x76, 0x77, 0x7f, 0x80, 0x81, 0x8f, 0xd1, 0xe8,
               0xf0, 0xf1, 0xff]
    for i in range(n):
        w = bytearray(rng.choice(pool))
        for _ in range(rng.choice((1, 1, 2, 4))):
            if not w:
                break
            k = rng.randrange(7)
            p = rng.randrange(len(w))
            if k == 0:
                w[p] = rng.choice(special)
            elif k == 1:
                w[p] ^= 1 << rng.randrange(8)
            elif k == 2:
                del w[p:]
            elif k == 3:
                del w[p:p + rng.randrange(1, 9)]
            elif k == 4:
                w[p:p] = bytes(rng.choice(special) for _ in range(rng.randrange(1, 9)))
            elif k == 5:
                o = rng.choice(pool)
                w[p:] = o[rng.randrange(len(o)):]
            else:
                w[p:p + 1] = bytes([0x80 | w[p]] + [0x80 | rng.choice((0, 7, 15))] * rng.randrange(9) + [rng.randrange(16)])
        out.append(bytes(w))
    for i in range(n // 10):
        out.append(bytes(rng.choice(special) for _ in range(rng.randrange(40))))
    return out


ANYGOAL = gen.LEAVES + gen.CONTAINERS + gen.STRUCTS + gen.BODY + ['body', 'msg']


@suite('C16')
def c16(ctx):
    rng = ctx.rng
    cases = []
    for w in hostile(ctx, ctx.pick(2500, 40000)):
        k = rng.randrange(4)
        if k < 2:
            cases.append([file_(w), op('print', k=1), op('fwrite', k=1, rw=1), free()])
        elif k == 2:
            cases.append([parse('msg', w)])
        else:
            cases.append([parse(rng.choice(ANYGOAL), w[rng.randrange(len(w) + 1):] or SENT)])
    # what is close to well formed, for every structure
    ds = gen.derive(gen.ROOT_GOALS + gen.ROOT_STRUCT_BODIES, 1, want=['bad'], stats=ctx.stats)
    for d in ds if ctx.deep else ctx.sample(ds, 1500):
        cases.append([parse(d.g, d.w)])
        cases.append([parse(d.g, d.w[:rng.randrange(len(d.w) + 1)])])
    # what can be decoded can be printed, encoded and freed
    oks = gen.derive(gen.ROOT_MSGS, 1, stats=ctx.stats)
    for d in oks if ctx.deep else ctx.sample(oks, 700):
        cases.append([file_(d.w), op('print', k=1), op('fwrite', k=1, rw=1), free()])
    # single bytes and pairs for every goal
    for g in ANYGOAL:
        for a in range(256) if ctx.deep else rng.sample(range(256), 20):
            cases.append([parse(g, bytes([a]))])
            cases.append([parse(g, bytes([a]) + bytes(rng.choice((0, 1, 0x62, 0x72, 0xff)) for _ in range(rng.randrange(1, 12))))])
    # nested trees and lists as deep as a frame can be
    for n in (30, 100):
        cases.append([file_(b'\x73\x01\x01\x71' * n)])
        cases.append([file_(b'\x76\x01\x01\x01\x72\x63\x05\x01\x73\x01\x70' + b'\x73\x01\x01\x71' * n)])
        cases.append([parse('tree', b'\x73\x01\x01\x71' * n + b'\x73\x01\x01\x01' + SENT)])
        cases.append([parse('tree', b'\x73\x01\x01\xf1\x80\x80\x80\x00' * n)])
    cases += [[parse(g, w), free()] for g, w in frame_sized(ctx)]
    many = []

    def survive(g, w):
        many.append([op('survive', g=g, rep=0, unit=[], **{'in': w})])
    # announced, but not there
    for g in gen.LEAVES + gen.CONTAINERS + ['tree', 'ppv', 'packreq', 'packres', 'plistres', 'procres', 'listres', 'msg']:
        heads = {'procres': b'\x73\x01', 'packres': b'\x78\x01\x01\x01\x70', 'plistres': b'\x79\x01\x01\x01\x01\x01\x01', 'tree': b'\x73\x01\x01',
                 'packreq': b'\x79\x01\x01\x01\x01\x01\x01\x01', 'listres': b'\x77\x01\x01\x01\x01',
                 'msg': b'\x76\x01\x01\x01\x72\x63\x07\x01\x77\x01\x01\x01\x01'}
        for n in ctx.pick((0xffff, 0xfffff, 0xffffff, 0x7fffffff, 0xfffffff), [(1 << k) - j for k in range(8, 32) for j in (0, 1)]):
            for t in (0x70, 0x00, 0x50):
                w = bytes([list_header(n)[0] & 0x8f | t]) + list_header(n)[1:]
                for tail in (b'', b'\x01\x01\x01\x01\x01\x01\x01', b'\x02\x41\x02\x42'):
                    survive(g, heads.get(g, b'') + w + tail)
    cases += [[parse(o['g'], o['in'])] for (o,) in ctx.sample(many, ctx.pick(150, 1500)) if o['g'] != 'file']
    for n in (500, 1000, 1500, 2000):
        survive('file', b'\x76\x01\x01\x01\x72\x63\x05\x01\x73\x01\x70' + b'\x73\x01\x01\x71' * n)
        survive('tree', b'\x73\x01\x01\x71' * n + b'\x73\x01\x01\x01' + SENT)
        survive('tree', b'\x73\x01\x01\xf1\x80\x80\x80\x00' * (n // 2))
    for w in hostile(ctx, ctx.pick(15000, 400000)):
        if rng.random() < .7:
            survive('file', w)
        else:
            survive(rng.choice(ANYGOAL), w[rng.randrange(len(w) + 1):] or SENT)
    for i in range(ctx.pick(15, 400)):  # of the size of a frame
        survive('file', b''.join(hostile(ctx, 60))[:8080])
    big = []
    for n in ctx.pick((60000,), (60000, 100000, 400000)):  # more elements than a stack has room for
        for g, e in (('list', b'\x77' + b'\x01' * 7), ('path', b'\x02\x41'), ('octseq', b'\x01'), ('hdrseq', b'\x73\x01\x01\x01')):
            big.append([op('survive', g=g, rep=n, unit=e, **{'in': list_header(n)})])
        big.append([op('survive', g='tree', rep=n, unit=b'\x73\x01\x01\x01', **{'in': b'\x73\x01\x01' + list_header(n)})])
        big.append([op('survive', g='file', rep=n, unit=b'\0', **{'in': b''})])
    run_batches(ctx, [Batch('hostile', cases), Batch('survived', many), Batch('huge', big, variant='plain'), Batch('initialised', ctx.sample(cases, ctx.pick(2500, 20000)), variant='msan'),
                      Batch('survived, initialised', ctx.sample(many, ctx.pick(5000, 100000)), variant='msan')])


@suite('C17')
def c17(ctx):
    rng = ctx.rng
    cases = []
    # parses that fail at every point
    ds = gen.derive(gen.ROOT_GOALS + gen.ROOT_MSGS, 1, want=['bad', 'drop'], stats=ctx.stats)
    for d in ds if ctx.deep else ctx.sample(ds, 2500):
        cases.append([parse(d.g, d.w + SENT), heap()] if d.c != 'ok' else [parse(d.g, d.w + SENT), free(), heap()])
    bases = gen.derive(gen.ROOT_GOALS + gen.ROOT_STRUCT_BODIES + gen.ROOT_MSGS, 0, stats=ctx.stats)
    oks = gen.derive(gen.ROOT_GOALS + gen.ROOT_MSGS, 1, stats=ctx.stats)
    for d in bases:
        for k in range(len(d.w)):
            if ctx.deep or d.g not in gen.BODY or k % 3 == 0:
                cases.append([file_(d.w[:k]), free(), heap()] if d.g == 'msg' else [parse(d.g, d.w[:k]), heap()])
    for i, d in enumerate(buildable(oks)):
        if i % 3 and not ctx.deep:  # each at least once
            cases.append([parse(d.g, d.w + SENT), free(), heap()] if i % 3 == 1 else [op('build', g=d.g, k=1, toks=d.t), free(), heap()])
            continue
        cases.append([parse(d.g, d.w + SENT), op('newbuf', q=1, size=rng.choice((0, 16, 512)), fill=255), op('write', k=1, q=1),
                      op('write', k=1, q=1), free(), op('freebuf', q=1), heap()])
        cases.append([op('build', g=d.g, k=1, toks=d.t), op('newbuf', q=1, size=512, fill=255), op('write', k=1, q=1),
                      op('write', k=1, q=1), free(), op('freebuf', q=1), heap()])
    for w in hostile(ctx, ctx.pick(600, 10000)):
        cases.append([file_(w), free(), heap()])
    # histories, at the end of which everything is freed
    some = lambda gs, n: ctx.sample([d for d in oks if d.g in gs and len(d.w) < 60 and d.t[0][0]], n)
    brk = lambda gs, n: ctx.sample([d for d in ds if d.g in gs and len(d.w) < 60], n)
    kinds = 'parse build dump free newbuf write freebuf'
    groups = [gen.group(some(gs, 1) + brk(gs, 1), kinds) for gs in (('tree',), ('list',), ('time', 'value'), ('path', 'periodseq'))]
    groups += [gen.group(some(('msg',), 1), 'parse init addmsg fwrite twrite free', ['file', 'msg']),
               gen.group(some(('oct',), 1) + some(('path',), 1), 'parse init add free write newbuf freebuf', ['path'])]
    cases += gen.histories(groups, ctx.stats, 'all', ctx.pick(4, 5), sizes=(0, 600) if ctx.deep else (0,), end='free')
    everything = gen.group(ctx.sample([d for d in oks if len(d.w) < 200], 40) + ctx.sample(ds, 15),
                           'parse parse parse build build init dump free free newbuf rewind freebuf write write write fwrite twrite addmsg add setbody reparse strhex',
                           ('file', 'msg', 'tree', 'path'))
    cases += gen.histories([everything], ctx.stats, 'rnd', 60, ctx.pick(60, 1500), slots=6, bufs=2, sizes=(0, 600), end='free')
    # files
    ps = message_pieces(ctx, 12, 4, 3)
    for ix in gen.files(ps, ctx.stats, 'rnd', 8, ctx.pick(120, 1500)):
        w = b''.join(ps[i][0] for i in ix)
        cases.append([file_(w), op('fwrite', k=1, rw=1), op('fwrite', k=1, rw=1), free(), heap()])
    okp = [p for p in ps if p[1] == 'ok']
    for n in (0, 1, 2, 5):
        c = [op('init', g='file', k=1)]
        for i in range(n):
            c += [op('build', g='msg', k=2, toks=rng.choice(okp)[2]), op('addmsg', k=1, m=2)]
        cases.append(c + [op('fwrite', k=1, rw=0), twrite(-1), twrite(5), twrite(-2),
                          op('print', k=1), free(), heap()])
    for g in ('msg', 'tree', 'path', 'octseq', 'list', 'time') + tuple(gen.BODY):
        cases.append([op('init', g=g, k=1), free(), heap()])
    for g in gen.LEAVES + gen.CONTAINERS + gen.STRUCTS + gen.BODY + ['body', 'msg', 'file']:
        cases.append([op('absent', g=g, write=0), heap()])
    # conversions and transport
    for text in (b'', b'00', b'0', b'00ffAb', b'123', b'aB' * 40):
        cases.append([op('fromhex', k=1, text=text)] + ([op('cmphex', a=1, text=text), op('cmphex', a=1, text=b'0'), free()]
                                                       if len(text) % 2 == 0 else []) + [heap()])
    for tok in ([1, 65, 66, 0], [1], [1] + [65] * 500, [2, 255], [3, 80, 1]):
        cases.append([op('build', g='value', k=1, toks=[tok])] + ([op('strhex', k=1, mixed=0), op('strhex', k=1, mixed=1)] if tok[0] == 1 else [])
                     + [op('double', k=1), free(), heap()])
    cases.append([op('ids', n=20), heap()])
    for kind in ('octseq', 'path', 'tree', 'list', 'file'):
        for n in (0, 1, 2, 3, 17, 64):
            cases.append([op('bigadd', kind=kind, n=n), heap()])
    for r in gen.lines(ctx.stats, 'rnd', 'all', 'none', 5, (0, 7, 8, 15, 16, 24, 40, 100), 8, 1, ctx.pick(150, 1500)):
        m = r['max'] if not any(e[1] in (3, 4) for e in r['ev']) else 1000
        cases.append([op('tread', calls=4, max=m, ev=r['ev'], **{'in': bytes(r['line'])}), heap()])
        cases.append([op('listen', mode=0, ev=r['ev'], **{'in': bytes(r['line'])}), heap()])
    run_batches(ctx, [Batch('heap', cases, track=False)])


# ------------------------------------------------------------ C18, C19, C24, C25, C26

@suite('C18')
def c18(ctx):
    cases = []
    for t in (0x50, 0x60):
        for w in (1, 2, 4, 8):
            ps = set(int_patterns(w, ctx.rng, ctx.pick(60, 3000)))
            if w == 1:
                ps = set(bytes([a]) for a in range(256))
            if w == 2 and ctx.deep:
                ps = set(bytes([a, b]) for a in range(256) for b in range(256))
            if w == 8:  # around the rounding points
                for e in range(50, 64):
                    for m in ctx.rng.sample(range(1 << 11), ctx.pick(6, 60)) + [0, 1, 2, 3, 1023, 1024, 1025, 2047]:
                        for base in (1 << e, (1 << e) + (1 << (e - 1)), (1 << (e + 1)) - 2048):
                            v = base + m
                            for x in (v, -v):
                                ps.add((x % (1 << 64)).to_bytes(8, 'big'))
                        if ctx.deep:
                            v = ctx.rng.getrandbits(e) | (1 << e)
                            v = (v >> (e - 53)) << (e - 53) | (1 << (e - 54)) if e > 54 else v
                            ps.update(((v + d) % (1 << 64)).to_bytes(8, 'big') for d in (-1, 0, 1))
            ps = sorted(ps)
            for i in range(0, len(ps), 20):
                c = []
                for j, p in enumerate(ps[i:i + 20]):
                    c += [op('build', g='value', k=1, toks=[[3, t] + list(p)]), op('double', k=1), free()]
                cases.append(c)
    for n in range(1, 9):  # decoded
        for t in (0x50, 0x60):
            for p in int_patterns(n, ctx.rng, 4)[:ctx.pick(30, 300)]:
                cases.append([parse('value', bytes([t + n + 1]) + p + SENT), op('double', k=1)])
    for tok in ([1], [1, 0x31], [1, 1, 0, 2, 3, 4, 5, 6, 7], [1] + [255] * 40, [2, 0], [2, 255]):
        cases.append([op('build', g='value', k=1, toks=[tok]), op('double', k=1)])
    run_batches(ctx, [Batch('double', cases)])


@suite('C19')
def c19(ctx):
    rng = ctx.rng
    strs = [b''] + [bytes([a]) for a in range(256)]
    strs += [bytes([65, a, 66]) for a in range(256)]
    for n in ctx.pick((2, 3, 7, 15, 16, 40, 85, 86, 127, 128, 255, 256, 300), tuple(range(2, 90)) + (127, 128, 255, 256, 300, 1000)):
        for _ in range(ctx.pick(6, 30)):
            k = rng.randrange(n + 1)
            strs.append(bytes(rng.randrange(0x21, 0x7b) for _ in range(k)) + bytes(rng.choice((0, 1, 0x20, 0x7b, 0x7f, 0x80, 0xff, 65)) for _ in range(n - k)))
            strs.append(bytes(rng.randrange(256) for _ in range(n)))
        strs.append(bytes(rng.randrange(0x21, 0x7b) for _ in range(n)))
        strs.append(bytes(n))
        strs.append(b'\xff' * n)
    strs += [bytes(rng.randrange(0x21, 0x7b) for _ in range(n)) + bytes([7, 65]) * 9 for n in ctx.pick((1000, 22000), (1000, 4096, 11000, 22000, 66000))]
    cases = []
    for i in range(0, len(strs), 8):
        c = []
        for s in strs[i:i + 8]:
            c += [op('build', g='value', k=1, toks=[[1] + list(s)]), op('strhex', k=1, mixed=0), op('strhex', k=1, mixed=1),
                  op('strhex', k=1, mixed=0), free()]
        cases.append(c)
    for s in ctx.sample(strs, 100):  # decoded
        if s:
            n = len(s) + 1
            h = bytes([n]) if n < 16 else bytes([0x80 | ((n + 1) >> 4), (n + 1) & 15]) if n < 255 else None
            if h:
                cases.append([parse('value', h + s + SENT), op('strhex', k=1, mixed=1), op('dump', k=1)])
    run_batches(ctx, [Batch('text', cases)])


@suite('C24')
def c24(ctx):
    rng = ctx.rng
    strs = [b'', b'\0', b'\0\0', b'a', b'a\0', b'a\0b', b'a\0c', b'ab', b'ba', b'\xff', b'\x80', b'\x7f', b'\0a', b'abc', b'abd', b'ab\0']
    strs += [bytes(rng.randrange(256) for _ in range(n)) for n in (5, 16, 17, 300)]
    strs += [strs[-1][:-1] + bytes([strs[-1][-1] ^ 1]), strs[-1][:-1], strs[-1][:150] + b'\0' + strs[-1][151:]]
    if ctx.deep:
        strs += [bytes([a]) for a in range(256)]
    # lengths that agree in their low bits
    x = bytes(rng.randrange(1, 256) for _ in range(700))
    strs += [x[:3], x[:259], x[:515], x[:256], x[:512], x[:255], x[:511] + b'\x00']
    cases = []

    def mk(s, k, how):
        if how == 0 or not s or len(s) > 13:
            return op('build', g='oct', k=k, toks=[[1] + list(s)])
        if how == 1:
            return parse('oct', bytes([len(s) + 1]) + s + SENT, k)
        t = s.hex()
        return op('fromhex', k=k, text=(t.upper() if how == 2 else t).encode())
    pairs = list(itertools.product(strs, strs))
    for i, (a, b) in enumerate(pairs if len(pairs) < 30000 else ctx.sample(pairs, 30000)):
        cases.append([mk(a, 1, i % 4), mk(b, 2, (i // 4) % 4), op('cmp', a=1, b=2), op('cmp', a=2, b=1), op('cmp', a=1, b=1),
                      op('cmphex', a=1, text=b.hex().encode()), op('cmphex', a=1, text=b.hex().upper().encode()),
                      op('cmphex', a=1, text=(b.hex() + '0').encode()), op('cmphex', a=1, text=b.hex()[1:].encode()),
                      op('dump', k=1), op('dump', k=2)])
    for a, b in ((b'abc', b'abc' + bytes(65536)), (b'', bytes(65536)), (bytes(65536) + b'a', bytes(65536) + b'b'), (bytes(65537), bytes(65537))):
        cases.append([op('build', g='oct', k=1, toks=[[1] + list(a)]), op('build', g='oct', k=2, toks=[[1] + list(b)]),
                      op('cmp', a=1, b=2), op('cmp', a=2, b=1), op('cmphex', a=1, text=b.hex().encode()), op('cmphex', a=2, text=b.hex().encode())])
    digits = b'0123456789abcdefABCDEF'
    for a in digits:
        for b in digits:
            cases.append([op('fromhex', k=1, text=bytes([a, b])), op('dump', k=1), op('cmphex', a=1, text=bytes([b, a])),
                          op('cmphex', a=1, text=bytes([a, b]))])
    for n in range(0, ctx.pick(40, 200)):
        t = bytes(rng.choice(digits) for _ in range(n))
        c = [op('fromhex', k=1, text=t)]
        if n % 2 == 0:
            c += [op('cmphex', a=1, text=t), op('cmphex', a=1, text=t.swapcase()), op('cmphex', a=1, text=t[:-1])]
        cases.append(c)
    large = [[op('hexrun', byte=x, n=n)] for n in (1, 2, 255, 65536, 300001, 1200000) for x in (0, 171)]
    run_batches(ctx, [Batch('strings', cases), Batch('long text', large)])


@suite('C25')
def c25(ctx):
    rng = ctx.rng
    ins = [b''] + [bytes([a]) for a in range(256)] + [bytes(n) for n in range(2, 40)] + [b'\xff' * n for n in range(2, 40)]
    ins += [b'123456789', b'\x1b' * 4]
    for a in range(0, 256, ctx.pick(5, 1)):
        for b in range(0, 256, ctx.pick(17, 3)):
            ins.append(bytes([a, b]))
    for n in ctx.pick((3, 4, 5, 8, 16, 17, 64, 255, 256, 257, 1000, 4096), tuple(range(3, 300)) + (1000, 4096, 8096)):
        for _ in range(ctx.pick(8, 12)):
            ins.append(bytes(rng.randrange(256) for _ in range(n)))
    for n in (12,):
        for b in range(8 * n):
            w = bytearray(n)
            w[b // 8] = 1 << (b % 8)
            ins.append(bytes(w))
    ins += [bytes(rng.randrange(256) for _ in range(n)) for n in ctx.pick((65535, 65536), (65535, 65536, 65537, 100000))]
    cases = [[op('crc', **{'in': x}) for x in ins[i:i + 10]] for i in range(0, len(ins), 10)]
    run_batches(ctx, [Batch('checksums', cases)])


@suite('C26')
def c26(ctx):
    cases = []
    msgs = gen.derive(gen.ROOT_MSGS, 0, stats=ctx.stats)
    for i in range(ctx.pick(20, 200)):
        cases.append([op('ids', n=ctx.pick(60, 200)), op('init', g='msg', k=1), op('init', g='msg', k=2), op('dump', k=1), op('ids', n=30),
                      op('free', k=1), op('init', g='msg', k=3), op('dump', k=2)])
    for i in range(ctx.pick(1, 12)):  # many in one process
        cases.append([op('ids', n=n) for n in (1, 300, 700, 1, 256, 255, ctx.pick(100, 3000))])
    # ids of different processes' worth of messages, and through encoding and decoding
    for d in msgs:
        cases.append([op('idmsg', k=1, toks=d.t), op('newbuf', q=1, size=512, fill=255), op('write', k=1, q=1), op('dump', k=1),
                      op('reparse', k=2, q=1), op('dump', k=2), op('idmsg', k=3, toks=d.t), op('write', k=3, q=1), op('dump', k=3)])
    run_batches(ctx, [Batch('ids', cases, shards=4), Batch('ids without libuuid', cases[-len(msgs) - 3:], variant='nouuid', shards=2)])


# ------------------------------------------------------------------------ C22

@suite('C22')
def c22(ctx):
    rng = ctx.rng
    cases, large = [], []
    for kind in ('octseq', 'path', 'tree', 'list', 'file'):
        ns = list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000]
        ns += ctx.pick([4096], [2000, 4096, 10000, 20000])
        if kind != 'list' or ctx.deep:
            ns += [32767, 32768, 33000] + ([65535, 65536, 70000] if ctx.deep or kind == 'octseq' else [])
        for n in ns:
            (cases if n < 1000 else large).append([op('bigadd', kind=kind, n=n)])
    ds = gen.derive([[g, ''] for g in gen.CONTAINERS] + [['tree', ''], ['listres', ''], ['packres', ''], ['plistres', '']], 3, 'rnd',
                    ctx.pick(60, 1000), 3, stats=ctx.stats)
    ds += gen.derive([[g, ''] for g in gen.CONTAINERS], 1, stats=ctx.stats)
    for d in buildable(ds):
        cases.append([op('build', g=d.g, k=1, toks=d.t), op('dump', k=1), free()])
    # every history of additions, up to a length
    cases += gen.histories(container_groups(ctx, 'build init add free dump'), ctx.stats, 'all', ctx.pick(5, 6), slots=3)
    # longer ones
    cases += gen.histories(container_groups(ctx, 'parse build build build init add add add add free dump newbuf write', 3), ctx.stats, 'rnd',
                           60, ctx.pick(12, 300), slots=4, end='free')
    # files
    pool = gen.derive(gen.ROOT_MSGS, 2, 'rnd', 3, 8, stats=ctx.stats)
    for n in list(range(0, 8)) + [20, 60]:
        c = [op('init', g='file', k=1)]
        for i in range(n):
            c += [op('build', g='msg', k=2, toks=rng.choice(pool).t), op('addmsg', k=1, m=2)]
            if rng.random() < .3:
                c += [op('dump', k=1)]
        cases.append(c + [op('dump', k=1), op('fwrite', k=1, rw=0), op('build', g='msg', k=2, toks=rng.choice(pool).t),
                          op('addmsg', k=1, m=2), op('dump', k=1)])
    for d in ctx.sample(pool, 12):  # to a file that was read
        c = [file_(d.w + rng.choice(pool).w)]
        for i in range(3):
            c += [op('build', g='msg', k=2, toks=rng.choice(pool).t), op('addmsg', k=1, m=2)]
        cases.append(c + [op('dump', k=1), free()])
    run_batches(ctx, [Batch('containers', cases), Batch('large', large, variant='plain')])


# ------------------------------------------------------- C01, C02, C03, C04: transport

def tread(r, calls=None, mx=None, ev=None):
    line = bytes(r['line'])
    return op('tread', calls=calls or (2 + line.count(b'\x1b\x1b\x1b\x1b\x1a')), max=mx if mx is not None else r['max'],
              ev=r['ev'] if ev is None else ev, **{'in': line})


def listen(r, mode=0, ev=None):
    return op('listen', mode=mode, ev=r['ev'] if ev is None else ev, **{'in': bytes(r['line'])})


def repeated(ctx, noise=True):
    """the same many times, in front of a line: no number of frames or of bytes between them matters"""
    f1, f2 = frame(b'\x76\x05\x01\x02'), frame(b'')
    cases = []
    for n in (255, 256, 257, 32767, 65535, 65536, 65537, 100001):
        cases += [[op('lrun', max=m, n=n, lead=lead, **{'in': b'\x1b\x1b\x01' + f1 + f2})]
                  for m in (0, 64) for lead in (f1, f2, b'\x1b\x1b\x1b\x1b\x01\x01\x00' + f1)]
    for n in () if not noise else ctx.pick((40000, 1 << 20), (40000, 65536, 200000, 1 << 20, 3 << 20)):
        cases += [[op('lrun', max=m, n=n, lead=lead, **{'in': f1 + f2})]
                  for m in (0, 64) for lead in (b'\0', b'\x1b\x1b\x1b\x1b\x01\x01\x01\0', b'\x01\x1b\x1a')]
    return cases


def reader_model(ctx, line, maxes, queue, live=False, alphabet='{27,1,26,0}', group=2):
    params = {'line': line, 'max': list(maxes), 'queue': queue}
    import json
    import shutil
    work = lib.workdir('model')
    try:
        pf = os.path.join(work, 'params.json')
        with open(pf, 'w') as f:
            f.write(json.dumps(params) + '\n')
        cfg = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS G=%d Esc=27 One=1 End=26 BYTES=%s LINE<-PLine MAXBUF<-PMax '
               'QUEUE<-PQueue\nINVARIANTS CallsRight NeverTooLong FrameIsRead\n' % (group, alphabet)
               + ('PROPERTY Ends\n' if live else ''))
        r = lib.tlc_ok('MCReader', cfg, env={'PARAMS': pf}, heap='12g' if ctx.deep else '6g',
                       timeout=3000 if ctx.deep else 600)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ctx.stats['states'] += r.distinct
    ctx.stats['transitions'] += r.generated
    ctx.stats.setdefault('model_runs', []).append(
        {'module': 'MCReader', 'params': params, 'alphabet': alphabet, 'distinct_states': r.distinct, 'wall_s': round(r.wall, 1),
         'invariants': ['CallsRight', 'NeverTooLong', 'FrameIsRead'] + (['Ends'] if live else [])})


@suite('C01')
def c01(ctx):
    rng = ctx.rng
    reader_model(ctx, ctx.pick(7, 9), ctx.pick([8], [8, 10]), 2, live=True)
    cases = []
    recs = gen.lines(ctx.stats, 'rnd', 'good', 'two', 5, (100, 64, 200), 12, 0, ctx.pick(700, 8000))
    recs += gen.lines(ctx.stats, 'rnd', 'all', 'two', 4, (100, 64, 40), 12, 0, ctx.pick(300, 4000))
    for i, r in enumerate(recs):
        cases.append([tread(r)] if i % 3 else [listen(r)])
    # a few lines, with every interruption at every byte
    for r in ctx.sample([r for r in recs if len(r['line']) < 70], ctx.pick(4, 40)):
        for p in range(len(r['line']) + 1):
            for what in (0, 1, 2, 5, 6):
                cases.append([tread(r, ev=[[p, what, 1 + p % 3]]), listen(r, ev=[[p, what, 1]])])
        # byte by byte, each one interrupted
        cases.append([tread(r, ev=[[p, rng.choice((1, 2, 5, 6)), rng.randrange(1, 4)] for p in range(len(r['line']) + 1)]),
                      listen(r, ev=[[p, 0, 1] for p in range(len(r['line']) + 1)])])
        cases.append([tread(r, ev=[[p, w, 1] for p in range(0, len(r['line']) + 1, 2) for w in (0, 1, 2, 5, 6)])])
    # a real pipe, fed by another thread
    pipes = []
    for r in ctx.sample([r for r in recs[:ctx.pick(700, 8000)]], ctx.pick(60, 800)):
        line = bytes(r['line']) + frame(b'\x01\x02\x03\x04')
        cuts = sorted(rng.sample(range(1, len(line)), min(len(line) - 1, rng.randrange(0, 12))))
        pipes.append([op('preads', calls=rng.randrange(1, 5), max=rng.choice((200, 201)), cuts=cuts, **{'in': line})])
    # frames of real size
    for n in ctx.pick((1000, 8080, 8076), (4, 100, 1000, 5000, 8000, 8076, 8080)):
        pl = bytes(rng.choice((0, 1, 7, 0x1a, 0x62, 0x76)) for _ in range(n))
        line = b'\x1b\x1b' + frame(pl) + b'\x01\x1b' + frame(pl[:96])
        ev = [[rng.randrange(len(line)), rng.choice((0, 0, 1, 2, 5)), 1] for _ in range(40)]
        cases.append([op('listen', mode=0, ev=ev, **{'in': line}), op('tread', calls=3, max=8096, ev=ev, **{'in': line})])
    # frames of sizes around powers of two, many frames, many interruptions in a row
    for m in ctx.pick((256, 1024, 4096), (64, 128, 256, 512, 1024, 2048, 4096)):
        for n in range(m - 32, m + 20, 4):
            f = frame(bytes((i * 11 + 5) % 251 for i in range(n)))
            if n % 8:
                cases.append([op('tread', calls=3, max=m + 40, ev=[[m // 2, 0, 1], [m - 1, 2, 1]], **{'in': f + f})])
            else:
                cases.append([op('listen', mode=0, ev=[[m // 2, 0, 1], [m, 1, 1]], **{'in': f + f})])
    # every pad count and check sum: frames end where they end, whatever these say
    tails = [bytes([p, a, b]) for p in (0, 1, 2, 3, 4, 5, 0x1a, 0x1b, 0x80, 255) for a, b in ((0, 0), (0x1b, 0x1b), (1, 1), (255, 255), (0x1a, 0), (0, 0x1b), (0x1b, 1), (0x12, 0x34))]
    tails += [bytes([p, 9, 8]) for p in range(256)]
    for i in range(0, len(tails), 4):
        line = b''
        for j, t in enumerate(tails[i:i + 4]):
            line += START + (b'', b'\x76\x05\x01\x02', b'\0\0\0\0\x1a\x1b\x1b\x1b')[(i + j) % 3] + b'\x1b\x1b\x1b\x1b\x1a' + t + (b'', b'\x1b', b'\x1b\x1b\x01')[(i // 3 + j) % 3]
        cases.append([op('tread', calls=6, max=40, ev=[], **{'in': line}), op('listen', mode=0, ev=[], **{'in': line})])
    # all values of the bytes of a payload, and of the byte behind an escape
    for b in range(256):
        line = b''.join(frame(x) for x in (bytes([b]) * 8, bytes([0x1b, 0x1b, 0x1b, b]), bytes([b, 0x1b, 0x1b, 0x1b]), bytes([b, 1, 1, 1]), bytes([1, 1, 1, b])) if x != b'\x1b' * len(x))
        cases.append([op('tread', calls=7, max=64, ev=[], **{'in': line}), op('listen', mode=0, ev=[], **{'in': line}),
                      op('tread', calls=3, max=64, ev=[], **{'in': START + b'\x1b\x1b\x1b\x1b' + bytes([b, 0, 0, 0]) + frame(b'abcd')})])
    # longer than 64 KB
    for n in ctx.pick((65516, 65524, 70000), (32748, 32756, 65516, 65520, 65524, 65528, 65600, 70000, 140000)):
        f = frame(bytes((i * 11 + 5) % 251 for i in range(n)))
        cases.append([op('tread', calls=3, max=200000, ev=[[n // 2, 0, 1], [n // 2 + 1, 2, 1], [n, 1, 1]], **{'in': b'\x1b\x01' + f + frame(b'abcd')})])
    for n in ctx.pick((300,), (127, 128, 255, 256, 257, 600, 1000)):
        line = b''.join(frame(i.to_bytes(4, 'big')) for i in range(n))
        cases.append([op('listen', mode=0, ev=[], **{'in': line}), op('tread', calls=n + 1, max=64, ev=[], **{'in': line})])
    for n in (4, 9, 10, 11, 16, 33, 100, 300, 1100, 70000):
        r = rng.choice([r for r in recs if len(r['line']) < 70])
        for what in (1, 2, 5, 6):
            at = [rng.randrange(len(r['line']) + 1) for _ in range(3)]
            cases.append([tread(r, ev=[[at[0], what, n]]), listen(r, ev=[[p, what, n] for p in sorted(set(at))])])
    run_batches(ctx, [Batch('arrivals', cases), Batch('repeated', repeated(ctx, noise=ctx.deep), variant='plain'), Batch('pipes', pipes, retries=2)])


@suite('C02')
def c02(ctx):
    reader_model(ctx, ctx.pick(8, 10), ctx.pick([8, 12], [8, 10, 12]), 1)
    cases = []
    recs = gen.lines(ctx.stats, 'all', 'bytes', 'two', ctx.pick(7, 9), (100,))
    cases += [[tread(r, mx=(100, 24, 20)[i % 3])] for i, r in enumerate(recs)]
    recs = gen.lines(ctx.stats, 'all', 'noise', 'two', ctx.pick(2, 3), (100,))
    cases += [[tread(r), listen(r)] if i % 2 else [listen(r)] for i, r in enumerate(recs)]
    recs = gen.lines(ctx.stats, 'rnd', 'good', 'two', 7, (100, 64), 4, 0, ctx.pick(500, 6000))
    cases += [[tread(r), listen(r)] for r in recs]
    # joined midway through a frame
    f = frame(bytes(range(3, 23))) + frame(b'\x1b\x1b\x1b\x00' * 3) + frame(b'\x76\x05\x01\x02\x1a\x00\x00\x00')
    for k in range(len(f)):
        cases.append([op('tread', calls=4, max=100, ev=[], **{'in': f[k:] + f}), op('listen', mode=0, ev=[], **{'in': f[k:] + f})])
    # long noise, in front of and between the frames
    f1, f2 = frame(b'\x76\x05\x01\x02'), frame(bytes(range(40, 60)))
    for n in ctx.pick((255, 256, 257, 4096, 8096, 20000), (63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 8095, 8096, 8097, 20000, 65536, 70000)):
        for noise in (bytes(n), b'\x1b' * n, b'\x01' * n, (b'\x1b\x1b\x1b\x1b\x01\x01\x01' + b'\x00' * (n % 3)) * (n // 8),
                      bytes(ctx.rng.choice((0x1b, 0x1b, 0x1b, 1, 0x1a, 0)) for _ in range(n))):
            cases.append([op('tread', calls=3, max=100, ev=[], **{'in': noise + f1 + f2})])
            cases.append([op('listen', mode=0, ev=[], **{'in': f2 + noise + f1})])
    run_batches(ctx, [Batch('noise', cases), Batch('repeated', repeated(ctx), variant='plain')])


@suite('C03')
def c03(ctx):
    rng = ctx.rng
    reader_model(ctx, ctx.pick(8, 10), ctx.pick([3, 9], [3, 8, 9, 10, 12]), ctx.pick(2, 3))
    cases = []
    maxes = (0, 1, 7, 8, 11, 12, 15, 16, 17, 20, 24, 25, 28, 40, 100)
    recs = gen.lines(ctx.stats, 'all', 'all', 'none', 1, maxes)
    recs += gen.lines(ctx.stats, 'rnd', 'all', 'none', 5, maxes, 4, 0, ctx.pick(900, 10000))
    recs += gen.lines(ctx.stats, 'all', 'all', 'frame', 2, ctx.pick((16, 24), (8, 12, 16, 20, 24, 64)))
    for i, r in enumerate(recs):
        cases.append([tread(r)] if i % 4 else [tread(r), listen(r)])
    # failures and ends at every byte of some lines
    base = ctx.sample([r for r in recs if 40 < len(r['line']) < 90], ctx.pick(5, 60))
    for r in base:
        for p in range(len(r['line']) + 1):
            what = (3, 4)[p % 2]
            cases.append([tread(r, mx=1000, ev=[[p, what, 1]]), listen(r, ev=[[p, 7 - what, 1]])])
            cases.append([op('tread', calls=3, max=100, ev=[], **{'in': bytes(r['line'])[:p]})])
    # sizes around the end of the frame
    for n in range(0, ctx.pick(28, 100), 4):
        fr = frame(bytes(n))
        for m in range(max(0, len(fr) - 9), len(fr) + 10):
            cases.append([op('tread', calls=3, max=m, ev=[], **{'in': fr + frame(b'abcd')})])
    for n in ctx.pick((8076, 8080, 8084, 9000), (8072, 8076, 8080, 8084, 8088, 8092, 9000)):
        pl = bytes((i * 7) % 251 if i % 9 else 0x1b for i in range(n))
        cases.append([op('listen', mode=0, ev=[], **{'in': frame(b'abcd') + frame(pl) + frame(b'efgh')})])
        cases.append([op('tread', calls=2, max=n + 16 - 4 * rng.randrange(3), ev=[], **{'in': frame(pl) + frame(b'efgh')})])
    for n in ctx.pick((65512, 65520, 65524), (32744, 32752, 32756, 65508, 65512, 65516, 65520, 65524, 65528, 131060)):
        f = frame(bytes((i * 11 + 5) % 251 for i in range(n)))
        for m in (len(f) - 4, len(f) - 1, len(f)):
            cases.append([op('tread', calls=2, max=m, ev=[], **{'in': f + frame(b'abcd')})])
    for m in (65536, 1 << 20, 20 << 20):  # any length may be passed
        cases.append([op('tread', calls=3, max=m, ev=[], **{'in': b'\x1b\x01' + frame(b'abcdefgh') + frame(bytes(9000))})])
    pipes = []
    for r in ctx.sample(gen.lines(ctx.stats, 'rnd', 'whole', 'two', 3, (100,), 0, 0, 40), ctx.pick(30, 40)):
        line = bytes(r['line'])
        n = rng.randrange(1, 3)
        pipes.append([op('preads', calls=n, max=100, cuts=[], **{'in': line})])
    run_batches(ctx, [Batch('broken', cases), Batch('pipes', pipes, retries=2)])


@suite('C04')
def c04(ctx):
    rng = ctx.rng
    ps = message_pieces(ctx, 40, 0, 0)
    ps = [p for p in ps if p[1] == 'ok' and b'\x1b\x1b\x1b\x1b' not in p[0]]
    cases = []
    for i in range(ctx.pick(250, 4000)):
        n = rng.choice((0, 1, 1, 2, 3, 5, 9))
        c = [op('init', g='file', k=1)]
        for _ in range(n):
            c += [op('build', g='msg', k=2, toks=rng.choice(ps)[2]), op('addmsg', k=1, m=2)]
        lim = rng.choice((-1, -1, -1, -2, -3, -4, 0, 1, 7, 8, 30, 100, 1000))
        c += [twrite(lim, rng.randrange(2)), twrite(-1), op('dump', k=1)]
        cases.append(c)
    # every padding and every place to fail
    for pad in range(4):
        for extra in range(3):
            toks = [list(t) for t in ps[0][2]]
            toks[1] = [1] + [7] * (pad + 4 * extra + 1)
            c = [op('init', g='file', k=1), op('build', g='msg', k=2, toks=toks), op('addmsg', k=1, m=2), twrite(-1)]
            cases.append(c)
            for lim in range(0, 130, ctx.pick(4, 1)):
                cases.append(c[:-1] + [twrite(lim + pad % 4, lim // 4 % 2)])
    # files that were read
    for ix in gen.files(ps, ctx.stats, 'rnd', 6, ctx.pick(60, 600)):
        w = b''.join(ps[i][0] for i in ix)
        cases.append([file_(w), twrite(-1), twrite(-1)])
    # long strings: the size of what is written passes 8 bit, 16 bit and the buffer of the reader
    for n in ctx.pick((200, 430, 8000, 65500, 65600, 70000), tuple(range(180, 260)) + tuple(range(400, 540, 7)) + (8000, 8096, 65400, 65500, 65536, 65600, 70000, 140000)):
        toks = [list(t) for t in ps[0][2]]
        toks[1] = [1] + [(i * 7) % 27 for i in range(n)]
        cases.append([op('init', g='file', k=1), op('build', g='msg', k=2, toks=toks), op('addmsg', k=1, m=2), twrite(-1),
                      twrite(n // 2), twrite(-1)])
    for n in ctx.pick((40, 120), (40, 120, 400)):
        c = [op('init', g='file', k=1)]
        for i in range(n):
            c += [op('build', g='msg', k=2, toks=rng.choice(ps)[2]), op('addmsg', k=1, m=2)]
        cases.append(c + [twrite(-1)])
    run_batches(ctx, [Batch('written', cases)])
    # read back
    rec = lib.run_cases(cases)
    back = []
    for r in rec:
        if r is None or 'crash' in r[-1]['r']:
            continue
        for o in r:
            if o['op'] == 'twrite' and o['lim'] == -1 and 'ret' in o['r'] and o['r']['ret'] >= 16:
                w = bytes(o['r']['bytes'])
                cuts = sorted(rng.sample(range(1, len(w)), min(3, len(w) - 1)))
                c = [op('tread', calls=2, max=len(w) + rng.choice((0, 0, 100)), ev=[[x, 0, 1] for x in cuts], **{'in': w}),
                     file_(w[8:len(w) - 8])]
                if len(w) < 8000:
                    c.append(op('listen', mode=1, ev=[], **{'in': w + w}))
                back.append(c)
    run_batches(ctx, [Batch('read back', ctx.sample(back, ctx.pick(250, 4000)))])


# ------------------------------------------------------------------------ C23

@suite('C23')
def c23(ctx):
    rng = ctx.rng
    pool = buildable(gen.derive(gen.ROOT_GOALS + gen.ROOT_MSGS, 3, 'rnd', ctx.pick(5, 40), 5, stats=ctx.stats))
    pool = [d for d in pool if len(d.w) < 300]
    bad = gen.derive(gen.ROOT_MSGS + gen.ROOT_GOALS, 2, 'rnd', 3, 4, want=['bad', 'drop'], stats=ctx.stats)
    dz = gen.dzg(ctx.stats, 'rnd', 'short', 0, 4, 60)
    lines = gen.lines(ctx.stats, 'rnd', 'all', 'two', 3, (100,), 6, 0, 60)
    msgs = [d for d in pool if d.g == 'msg']

    dzl = [gen.Derived({'g': 'list', 'b': '', 'w': d['l'], 'c': 'parsed only', 'n': [], 't': [[4, 1]]}) for d in ctx.sample(dz, 12)]

    def scripts(n, length):
        """Histories with transport and other operations in between."""
        kinds = ('parse parse parse build build file init dump dump free free newbuf rewind write write write write fwrite twrite addmsg add '
                 'setbody reparse double strhex cmp crc')
        groups = []
        for i in range(8):
            ps = ctx.sample(pool, 12) + ctx.sample(bad, 3) + ctx.sample(dzl, 3) + ctx.sample([d for d in pool if d.g in ('msg', 'body')], 4)
            ps += ctx.sample([d for d in pool if d.g in ('path', 'tree', 'octseq')], 3) + ctx.sample([d for d in pool if d.g in ('oct', 'value')], 3)
            groups.append(gen.group(ps, kinds, ('file', 'msg', 'tree', 'path'), [b''.join(rng.choice(msgs).w for _ in range(m)) for m in (0, 1, 2)]))
        out = []
        for c in gen.histories(groups, ctx.stats, 'rnd', length, (n + 7) // 8, slots=6, bufs=3, sizes=(0, 16, 600), seed=lib.SEED + n):
            for _ in range(rng.randrange(3)):
                r = rng.choice(lines)
                x = rng.choice((tread(r), listen(r, rng.choice((0, 1, 2))), op('ids', n=2)))
                c.insert(rng.randrange(len(c) + 1), x)
            out.append(c)
        return out
    cases = scripts(ctx.pick(320, 6000), 50)
    # every short history of two slots and a buffer
    few = [gen.group(x, 'parse dump free newbuf rewind write') for x in
           ([d for d in ctx.sample(pool, 40) if d.g == 'oct'][:1] + ctx.sample(dzl, 2), ctx.sample([d for d in msgs if len(d.w) < 80], 1) + ctx.sample(bad, 1))]
    cases += gen.histories(few, ctx.stats, 'all', ctx.pick(5, 6))
    # nested in a callback
    for r in gen.lines(ctx.stats, 'rnd', 'whole', 'two', 4, (100,), 6, 0, ctx.pick(60, 800)):
        cases.append([listen(r, 1), listen(r, 2), listen(r, 0)])
    for i in range(ctx.pick(20, 200)):
        fr = [frame(b''.join(rng.choice(msgs).w for _ in range(rng.randrange(1, 4)))) for _ in range(4)]
        fr = [f for f in fr if len(f) < 8000]
        cases.append([op('listen', mode=m, ev=[], **{'in': b''.join(fr)}) for m in (1, 2, 0)])
    run_batches(ctx, [Batch('interleaved', cases)])
    threads(ctx, scripts(ctx.pick(60, 300), 30))


def threads(ctx, cases):
    """The same scripts, several at a time, in the threads of one process; every result has
    to be what the specification allows for the script alone."""
    import core
    for attempt in range(2):
        rec, err = lib.run_threads(cases, 8, ctx.pick(3, 10))
        rej, states, trans = lib.check_traces(rec)
        if attempt == 0:
            ctx.stats['states'] += states
            ctx.stats['transitions'] += trans
            ctx.ops += sum(len(c) for c in rec)
            ctx.accepted += len(rec) - len(rej)
            ctx.batches.append({'name': 'threads', 'variant': 'tsan', 'cases': len(cases), 'run': len(rec), 'rejected': len(rej),
                                'race': bool(err)})
        if not rej and not err:
            return
    title = 'run concurrently, operations influence each other'
    if err:
        title += ': ' + err.strip().splitlines()[0][:200]
    i, opnr = rej[0] if rej else (0, 1)
    path = core.write_replay(ctx, 'threads', {
        'title': title, 'report': err[-4000:], 'operation': opnr if rej else None,
        'ops': [{k: (list(v) if isinstance(v, (bytes, bytearray)) else v) for k, v in x.items()} for x in rec[i]] if rec else []})
    core.violation(ctx, title, path)


# ------------------------------------------------------------- C20, C21: sml_server

def cuts_of(rng, w):
    return sorted(rng.randrange(len(w) + 1) for _ in range(rng.randrange(6)))


@suite('C20')
def c20(ctx):
    import server
    rng = ctx.rng
    cover = server.streams(ctx.stats, 'cover')
    server.check_runs(ctx, 'every kind of entry', [server.run(data=w) for w in cover])
    # with entries that have no complete name: these are to be skipped
    nameless = server.streams(ctx.stats, 'cover', nameless=True)[-4 - 16:-16] + server.streams(ctx.stats, 'rnd', ctx.pick(30, 400), 3, nameless=True)
    server.check_runs(ctx, 'entries without a name', [server.run(data=w) for w in nameless])
    rnd = server.streams(ctx.stats, 'rnd', ctx.pick(350, 6000), 5)
    server.check_runs(ctx, 'streams', [server.run(data=w, chan=('stdin', 'file', 'pipe')[i % 3], cuts=cuts_of(rng, w))
                                       for i, w in enumerate(rnd)])
    # numbers: any value with any scaler
    rows = []
    for i in range(ctx.pick(1500, 60000)):
        n = rng.choice((1, 2, 3, 4, 5, 6, 7, 8))
        t = rng.choice((0x50, 0x60))
        v = bytes(rng.randrange(256) for _ in range(n)) if rng.random() < .6 else rng.choice(int_patterns(n, rng, 0))
        if rng.random() < .4:  # many digits, but not too many
            x = rng.randrange(10 ** rng.randrange(1, 16))
            n, t = 8, rng.choice((0x50, 0x60))
            v = ((-x if t == 0x50 and rng.random() < .5 else x) % (1 << 64)).to_bytes(8, 'big')
        sc = rng.choice((b'\x01', b'\x52' + bytes([rng.choice((255, 254, 253, 252, 251, 250, 0, 1, 2, 3))]),
                         b'\x52' + bytes([rng.randrange(256)])))
        unit = rng.choice((b'\x01', b'\x62\x1e', b'\x62' + bytes([rng.randrange(256)])))
        rows.append(b'\x77\x07\x01\x00\x02\x08' + bytes([rng.randrange(256)]) + b'\xff\x01\x01' + unit + sc + bytes([t + n + 1]) + v + b'\x01')
    runs = []
    for i in range(0, len(rows), 15):
        runs.append(server.run(data=frame(list_message(rows[i:i + 15]))))
    server.check_runs(ctx, 'numbers', runs)


def crc16(w):
    c = 0xffff
    for b in w:
        c ^= b
        for _ in range(8):
            c = (c >> 1) ^ (0x8408 if c & 1 else 0)
    c ^= 0xffff
    return bytes([c & 255, c >> 8])


def list_message(rows):
    assert 0 < len(rows) < 16
    b = b'\x76\x02\x01\x62\x00\x62\x00\x72\x63\x07\x01\x77\x01\x02\x09\x01\x01' + bytes([0x70 + len(rows)]) + b''.join(rows) + b'\x01\x01'
    return b + b'\x63' + crc16(b) + b'\x00'


def line_flags(rng):
    import server
    return [n for n in server.IFLAGS + server.OFLAGS + server.LFLAGS + server.CFLAGS if rng.random() < .5]


@suite('C27')
def c27(ctx):
    import server
    rng = ctx.rng
    row = b'\x77\x07\x01\x00\x01\x08%c\xff\x01\x01\x62\x1e\x52\xff\x56\x00\x00\x12\x34%c\x01'
    text = b'\x77\x07\x01\x00\x60\x32\x01\x01\x01\x01\x01\x01\x05EMHx\x01'
    one = lambda a, n: frame(list_message([row % (a, i) for i in range(n)]))
    # command lines: what is read, and how, and what is refused
    cmds = server.commands(ctx.stats, 'all', ctx.pick(2, 3)) + server.commands(ctx.stats, 'rnd', 4, ctx.pick(250, 3000))
    runs = [server.command(a, one(1 + i % 50, 2) + one(3, 1), one(101 + i % 50, 1) + one(104, 3)) for i, a in enumerate(cmds)]
    server.check_runs(ctx, 'command lines', runs)
    # the line is set up whatever state it was in
    runs = [server.run(0, i % 2, one(i % 200, 1 + i % 3), 'tty', flags=None if i == 0 else [x] if x else line_flags(rng))
            for i, x in enumerate([None] + server.IFLAGS + server.OFLAGS + server.LFLAGS + server.CFLAGS + [None] * ctx.pick(20, 300))]
    server.check_runs(ctx, 'line', runs)
    # a reading is there as soon as its frame is
    runs = []
    for i in range(ctx.pick(40, 400)):
        v = i % 2
        w, live, lines = b'', [], 0
        for k in range(rng.randrange(1, 5)):
            rows = [rng.choice((text, row % (rng.randrange(256), rng.randrange(256)), row % (1, 1))) for _ in range(rng.randrange(1, 5))]
            rows += [row % (k, rng.randrange(256))]
            w += rng.choice((b'', b'\x1b\x1b\x1b', b'\0\r\n')) + frame(list_message(rows))
            lines += len(rows) + 3 * v
            live.append((len(w), lines))
        live = [x for x in live if rng.random() < .7]
        w += rng.choice((b'', b'\x1b', b'\x1b\x1b\x1b\x1b\1\1\1\1\x76'))
        runs.append(server.run(0, v, w, 'live', live=live or [(len(w), lines)]))
    server.check_runs(ctx, 'in time', runs)


@suite('C21')
def c21(ctx):
    import server
    rng = ctx.rng
    rnd = server.streams(ctx.stats, 'rnd', ctx.pick(250, 4000), 5, seed=lib.SEED + 1000)
    runs = []
    for i, w in enumerate(rnd):
        for s, v in ((0, 0), (0, 1), (1, 0), (1, 1)) if i % 3 == 0 else (((i // 3) % 2, 1), (1, 0)):
            runs.append(server.run(s, v, w, ('stdin', 'pipe', 'file')[(i + v) % 3], cuts_of(rng, w)))
    server.check_runs(ctx, 'options', runs)
    nameless = server.streams(ctx.stats, 'rnd', ctx.pick(30, 400), 3, seed=lib.SEED + 2000, nameless=True)
    server.check_runs(ctx, 'entries without a name', [server.run(0, 1, w) for w in nameless])
    # from a terminal: every byte value arrives as it was sent
    runs = [server.run(0, i % 2, w, 'tty', flags=line_flags(rng) if i % 2 else None) for i, w in enumerate(ctx.sample(rnd, ctx.pick(24, 200)))]
    text = [bytes((37 * k + j) % 256 for j in range(90)) for k in range(8)] + [bytes(range(k, k + 64)) for k in range(0, 256, 64)]
    for x in text:
        n = len(x) + 2
        o = bytes([0x80 | n >> 4, n & 15]) + x
        runs.append(server.run(0, 0, frame(list_message([b'\x77\x07\x01\x00\x60\x32\x01\x01\x01\x01\x01\x01' + o + b'\x01'] * 3)), 'tty'))
    server.check_runs(ctx, 'terminal', runs)
    # messages of every type in one file, files of damaged messages, streams of anything
    ps = message_pieces(ctx, 40, 8, 5)
    runs = []
    for ix in gen.files(ps, ctx.stats, 'rnd', 8, ctx.pick(120, 2000)):
        w = b''.join(ps[i][0] for i in ix)
        if len(w) < 8000:
            runs.append(server.run(0, 1, frame(w)))
    for i, d in enumerate(gen.derive([['msg', 'listres']], 1, stats=ctx.stats)):
        if ctx.deep or i % 2 == 0:
            runs.append(server.run(0, 1 if i % 4 == 0 else 0, frame(d.w) + frame(b'')))
    for w in hostile(ctx, ctx.pick(250, 4000)):
        w = w[:8000]
        runs.append(server.run(rng.randrange(2), rng.randrange(2), frame(w) + rng.choice(rnd)[:8000]))
    for r in gen.lines(ctx.stats, 'rnd', 'all', 'two', 6, (100,), 0, 0, ctx.pick(120, 1500)):
        runs.append(server.run(0, 1, bytes(r['line']), ('stdin', 'pipe')[len(runs) % 2], cuts_of(rng, bytes(r['line']))))
    # cut off anywhere
    for w in ctx.sample(rnd, ctx.pick(60, 800)):
        runs.append(server.run(0, rng.randrange(2), w[:rng.randrange(len(w) + 1)]))
    server.check_runs(ctx, 'anything', runs)


# ------------------------------------------------------------------------ C28

@suite('C28')
def c28(ctx):
    rng = ctx.rng
    pool = buildable(gen.derive(gen.ROOT_GOALS + gen.ROOT_MSGS, 1, 'rnd', ctx.pick(8, 30), 5, stats=ctx.stats))
    pool = [d for d in pool if len(d.w) < 150]
    by = {}
    for d in pool:
        by.setdefault(d.g, []).append(d)
    some = [rng.choice(v) for _, v in sorted(by.items())] + ctx.sample(pool, ctx.pick(20, 120))
    few = [d for d in some if d.g in ('oct', 'u8', 'i64', 'bool', 'value', 'time', 'msg')]
    few = [few[i] for i in range(0, len(few), max(1, len(few) // 8))][:8]
    cases = gen.buffers(few, ctx.stats, 'all', ctx.pick(2, 3))
    if ctx.deep:
        cases = ctx.sample(cases, 12000)
    run_batches(ctx, [Batch('every short history', cases)])
    run_batches(ctx, [Batch('histories', gen.buffers(some, ctx.stats, 'rnd', 9, ctx.pick(500, 6000))),
                      Batch('anything', gen.buffers(some, ctx.stats, 'any', 5, ctx.pick(700, 8000)))])
    # contents that are larger
    cases = []
    for n in ctx.pick((300, 5000), (255, 256, 300, 4096, 5000, 20000)):
        x = bytes(rng.randrange(256) for _ in range(n))
        cases.append([op('rnew', q=1, size=n % 7, fill=7), op('rput', q=1, **{'in': x}), op('reserve', q=1, n=n), op('rhdr', q=1, type=0, len=n),
                      op('rput', q=1, **{'in': x}), op('ropt', q=1), op('rcut', q=1), op('radv', q=1, n=n), op('rtype', q=1),
                      op('rparse', q=1, g='oct', k=1), op('rskip', q=1), op('rtype', q=1), op('rfree', q=1), op('dump', k=1)])
    for n in ctx.pick((33000, ), (32767, 32768, 65536, 70000)):
        x = bytes(n - 3) + b'\7\7\7'
        cases.append([op('rnew', q=1, size=1, fill=7), op('rput', q=1, **{'in': x}), op('ropt', q=1), op('rcut', q=1), op('radv', q=1, n=n),
                      op('rskip', q=1), op('rskip', q=1), op('rfree', q=1)])
    # every byte value and every length of a line
    texts = [bytes(range(n)) for n in list(range(0, 34)) + [63, 64, 65, 255, 256]]
    texts += [bytes(255 - i for i in range(256)), bytes(1000)] + [bytes(rng.randrange(256) for _ in range(rng.randrange(200))) for _ in range(ctx.pick(20, 200))]
    cases += [[op('hexdump', **{'in': t}) for t in texts[i:i + 10]] for i in range(0, len(texts), 10)]
    run_batches(ctx, [Batch('large contents and dumps', cases)])
