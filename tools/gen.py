"""Cases derived by TLC from the specification."""
import json
import os
import shutil

import lib

BODY = ['openreq', 'openres', 'closereq', 'closeres', 'packreq', 'packres', 'plistreq', 'plistres',
        'procreq', 'procres', 'setreq', 'listreq', 'listres', 'attention']
NUMS = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64']
LEAVES = ['oct', 'bool', 'value', 'status', 'time'] + NUMS
CONTAINERS = ['list', 'path', 'hdrseq', 'perseq', 'valseq', 'octseq', 'periodseq']
STRUCTS = ['hdr', 'per', 'valentry', 'period', 'tupel', 'tree', 'ppv']
ROOT_GOALS = [[g, ''] for g in LEAVES + CONTAINERS + STRUCTS]
ROOT_BODIES = [['body', b] for b in BODY]
ROOT_STRUCT_BODIES = [[b, ''] for b in BODY]
ROOT_MSGS = [['msg', b] for b in BODY]

CFG = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ROOTS <- PRoots
  LEFT <- PLeft
  MODE <- PMode
  COUNT <- PCount
  SEED <- PSeed
  RATE <- PRate
  WANT <- PWant
INVARIANTS
  Agrees
  RoundTrip
  Emit
'''


class Derived:
    """A derived byte sequence: g goal, b body type, w bytes, c class, n deviations, t tokens."""
    def __init__(self, d):
        self.g, self.b, self.w, self.c, self.n, self.t = d['g'], d['b'], bytes(d['w']), d['c'], d['n'], d['t']


def derive(roots, left=1, mode='all', count=0, rate=8, want=('ok',), seed=None, stats=None):
    work = lib.workdir('gen')
    try:
        pf = os.path.join(work, 'params.json')
        with open(pf, 'w') as f:
            f.write(json.dumps({'roots': roots, 'left': left, 'mode': mode, 'count': count,
                                'seed': lib.SEED if seed is None else seed, 'rate': rate,
                                'want': list(want)}) + '\n')
        r = lib.tlc_ok('MCGen', CFG, env={'PARAMS': pf})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    out = [Derived(json.loads(s)) for s in r.printed if s.startswith('{')]
    if stats is not None:
        stats['states'] = stats.get('states', 0) + r.distinct
        stats['transitions'] = stats.get('transitions', 0) + r.generated
        stats.setdefault('model_runs', []).append(
            {'module': 'MCGen', 'mode': mode, 'left': left, 'roots': len(roots), 'derived': len(out),
             'distinct_states': r.distinct, 'wall_s': round(r.wall, 1),
             'invariants': ['Agrees', 'RoundTrip']})
    out.sort(key=lambda d: (d.g, d.b, d.n, d.w))
    return out


def absents(count, stats=None):
    """Structures with much absent in them."""
    return derive([[g, ''] for g in STRUCTS + CONTAINERS + BODY] + ROOT_MSGS, 3, 'abs', count, stats=stats)


def run_gen(module, params, invariants, stats=None, what=None):
    """A generator module: returns the JSON records it emits."""
    work = lib.workdir('gen')
    try:
        pf = os.path.join(work, 'params.json')
        with open(pf, 'w') as f:
            f.write(json.dumps(params, default=lib._jdefault) + '\n')
        cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS\n' + '\n'.join(invariants + ['Emit']) + '\n'
        r = lib.tlc_ok(module, cfg, env={'PARAMS': pf})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    out = [json.loads(s) for s in r.printed if s.startswith('{')]
    if stats is not None:
        stats['states'] = stats.get('states', 0) + r.distinct
        stats['transitions'] = stats.get('transitions', 0) + r.generated
        stats.setdefault('model_runs', []).append(
            {'module': module, 'params': {k: v for k, v in params.items() if k not in ('pieces', 'groups', 'pool')}, 'emitted': len(out),
             'distinct_states': r.distinct, 'wall_s': round(r.wall, 1), 'invariants': invariants})
    out.sort(key=lambda d: json.dumps(d, sort_keys=True))
    return out


def lines(stats=None, mode='all', set='all', last='none', len=2, max=(100,), events=0, hard=0, count=0, seed=None):
    return run_gen('SmlGenLine', {'mode': mode, 'set': set, 'last': last, 'len': len, 'max': list(max),
                                  'events': events, 'hard': hard, 'count': count,
                                  'seed': lib.SEED if seed is None else seed},
                   ['ReaderAgrees', 'NoiseIsHarmless', 'Repeats'], stats)


def dzg(stats=None, mode='all', set='full', lists=0, len=2, count=0, vary=1, seed=None):
    return run_gen('SmlGenDzg', {'mode': mode, 'vary': vary, 'set': set, 'lists': lists, 'len': len, 'count': count,
                                 'seed': lib.SEED if seed is None else seed}, ['Corrects'], stats)


def files(pieces, stats=None, mode='all', len=3, count=0, seed=None):
    """pieces: (bytes, class, tokens); returns lists of indexes."""
    r = run_gen('SmlGenFile', {'pieces': [{'w': list(w), 'c': c, 't': t} for w, c, t in pieces], 'mode': mode,
                               'len': len, 'count': count, 'seed': lib.SEED if seed is None else seed},
                ['Composes'], stats)
    return [[i - 1 for i in d['ix']] for d in r]


def group(pool, kinds, inits=(), files=()):
    return {'pool': [{'g': d.g, 'w': list(d.w), 't': d.t, 'c': d.c} for d in pool], 'kinds': kinds.split(),
            'inits': list(inits), 'files': [list(f) for f in files]}


def histories(groups, stats=None, mode='all', len=4, count=0, slots=2, bufs=1, sizes=(0,), seed=None, end='dump'):
    """Histories of operations, each over the objects of one group; lists of operations.  At the end
    what is left is dumped, or freed."""
    r = run_gen('SmlGenOps', {'groups': groups, 'mode': mode, 'len': len, 'count': count, 'slots': slots, 'bufs': bufs,
                              'sizes': list(sizes), 'seed': lib.SEED if seed is None else seed},
                ['Admitted', 'Isolated', 'Commutes', 'Conserved', 'Repeats', 'Cursors'], stats)
    out = []
    for d in r:
        for o in d['ops']:
            for f in ('in', 'text'):
                if f in o:
                    o[f] = bytes(o[f])
        c = d['ops']
        c += [{'op': end, 'k': k} for k in d['live']]
        if end == 'free':
            c += [{'op': 'freebuf', 'q': q} for q in d['bufs']] + [{'op': 'heap'}]
        out.append(c)
    return out


def buffers(pool, stats=None, mode='all', len=2, count=0, seed=None):
    """Histories of one buffer that is worked on directly."""
    r = run_gen('SmlGenBuf', {'pool': [{'g': d.g, 't': d.t} for d in pool], 'mode': mode, 'len': len, 'count': count,
                              'seed': lib.SEED if seed is None else seed}, ['Admitted', 'ReadsBack', 'Holds'], stats)
    for d in r:
        for o in d['ops']:
            if 'in' in o:
                o['in'] = bytes(o['in'])
    return [d['ops'] for d in r]
