"""What all checks have in common: run cases on the code, ask TLC, report."""
import copy
import hashlib
import json
import os
import random
import re
import time

import lib
from lib import CheckError, log


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = lib.SEED
        self.rng = random.Random('%s-%d' % (prop, lib.SEED))
        self.stats = {'states': 0, 'transitions': 0}
        self.accepted = 0
        self.ops = 0
        self.probes = 0
        self.samples = []
        self.batches = []
        self.violations = []   # (title, replay path)
        self.notes = []
        self.known = {}        # key of a recorded defect -> runs that showed it
        self.assumptions = []
        self.t0 = time.time()

    @property
    def deep(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.deep else quick

    def sample(self, seq, n):
        """At most n elements, in order."""
        seq = list(seq)
        if len(seq) <= n:
            return seq
        return [seq[i] for i in sorted(self.rng.sample(range(len(seq)), n))]

    def left(self, budget):
        return budget - (time.time() - self.t0)


class Batch:
    """Cases that run in the same kind of process."""
    def __init__(self, name, cases, variant='asan', track=False, shards=None, retries=1):
        self.name = name
        self.cases = cases
        self.variant = variant
        self.track = track
        self.shards = shards
        self.retries = retries


# ------------------------------------------------------- corrupted recordings
#
# A specification that accepts everything decides nothing: in every run some recorded
# results are altered, and TLC has to reject each of them.

def _bump(xs, i):
    xs[i] = (xs[i] + 1) % 256


def _tok_bump(toks):
    for t in reversed(toks):
        if t[0] in (1, 3) and len(t) > 2:
            _bump(t, len(t) - 1)
            return True
        if t[0] == 2:
            t[1] = 255 - t[1]
            return True
        if t[0] == 4:
            t[1] += 1
            return True
    toks.append([0])
    return True


def corrupt(o, rng):
    """Alters the result of an operation that determines it; False if it has none."""
    r = o['r']
    p = o['op']
    if 'crash' in r:
        return False
    if p == 'parse':
        if r['null'] == 0 and rng.random() < .8:
            return _tok_bump(r['toks'])
        r['err'] = 1 - r['err']
        return True
    if p in ('build', 'init', 'fromhex', 'idmsg', 'reparse') and 'toks' in r:
        if p == 'init' and o['g'] == 'msg':
            r['toks'][3] = [3, 96, 0]
            return True
        return _tok_bump(r['toks'])
    if p == 'dump':
        if 'toks' in r:
            return _tok_bump(r['toks'])
        if r['msgs']:
            return _tok_bump(r['msgs'][-1][1])
        r['n'] += 1
        return True
    if p == 'file':
        if r['msgs'] and rng.random() < .7:
            return _tok_bump(r['msgs'][-1][1])
        r['n'] += 1
        return True
    if p in ('write', 'fwrite', 'twrite') and r['bytes']:
        _bump(r['bytes'], rng.randrange(len(r['bytes'])))
        return True
    if p == 'addmsg' or p == 'bigadd':
        r['n'] += 1
        return True
    if p == 'survive':
        r['outside'] = 1
        return True
    if p == 'heap':
        r['badfree'] = 1
        return True
    if p in ('tread', 'preads'):
        c = [c for c in r['calls'] if c['ret']]
        if c:
            c = rng.choice(c)
            _bump(c['bytes'], rng.randrange(len(c['bytes'])))
        else:
            r['calls'][-1]['ret'] += 8
        return True
    if p == 'listen':
        if r['frames']:
            f = rng.choice(r['frames'])
            _bump(f, rng.randrange(len(f)))
        else:
            r['frames'].append([27] * 4 + [1] * 4 + [27] * 4 + [26, 0, 0, 0])
        return True
    if p == 'lrun':
        if r['runs']:
            rng.choice(r['runs'])[0] += 1
        else:
            r['runs'].append([1, [27] * 4 + [1] * 4 + [27] * 4 + [26, 0, 0, 0]])
        return True
    if p == 'crc':
        k = rng.choice(['x25', 'kermit'])
        r[k] ^= 1 << rng.randrange(16)
        return True
    if p == 'double':
        _bump(r['bits'], 7)
        r['bits'][3] ^= 1
        return True
    if p == 'strhex':
        r['text'].append(32)
        return True
    if p in ('cmp', 'cmphex', 'hexrun'):
        r['eq'] = 1 - r['eq']
        return True
    if p == 'ids':
        if len(r['ids']) < 2:
            return False
        r['ids'][0] = r['ids'][-1]
        return True
    if p in ('hdrw', ):
        r['len'] += 1
        return True
    if p == 'hdrr' and r['err'] == 0 and r['len'] >= 0:
        r['len'] += 1
        return True
    if p in ('rtype', 'rskip', 'rbyte') and r['err'] == 0:
        r['ret'] ^= 1
        return True
    if p in ('rlen', ) and r['err'] == 0 and r['ret'] >= 0:
        r['ret'] += 1
        return True
    if p in ('rload', 'rset', 'rcut', 'rhdr', 'ropt', 'rput', 'rwrite', 'radv') and r['err'] == 0:
        if r['cur'] and rng.random() < .6:
            _bump(r['b'], rng.randrange(r['cur']))
        else:
            r['cur'] += 1
            r['b'].append(0)
            r['len'] += 1
        return True
    if p == 'reserve':
        r['cur'] += 1
        return True
    if p == 'rparse' and r['err'] == 0 and r['null'] == 0:
        return _tok_bump(r['toks'])
    if p == 'hexdump':
        r['text'].insert(0, 48)
        return True
    if p == 'opt':
        r['skipped'] = 1 - r['skipped']
        return True
    return False


def probes_for(recorded, rng, n=24):
    out = []
    live = [i for i, c in enumerate(recorded) if c and not any('crash' in o['r'] for o in c)]
    kinds = set()
    tries = 0
    while live and len(out) < n and tries < 40 * n:
        tries += 1
        i = rng.choice(live)
        ops = recorded[i]
        j = rng.randrange(len(ops))
        # every kind of operation first
        if tries < 20 * n and len(out) < n // 2 and ops[j]['op'] in kinds:
            continue
        if len(json.dumps(ops[j]['r'])) > 40000:
            continue
        c = copy.deepcopy(ops)
        try:
            changed = corrupt(c[j], rng)
        except (IndexError, KeyError, TypeError):  # the result is not as it should be: nothing to corrupt
            changed = False
        if changed:
            kinds.add(c[j]['op'])
            out.append((i, j + 1, c))
    return out


# ------------------------------------------------------------------ reporting

def _short(v, n=160):
    s = v if isinstance(v, str) else json.dumps(v, default=lib._jdefault)
    return s if len(s) <= n else s[:n] + '... (%d characters)' % len(s)


def describe(ops):
    out = []
    for o in ops:
        try:
            t = lib.op_text({k: v for k, v in o.items() if k != 'r'})
        except (ValueError, KeyError):
            t = o['op']
        out.append(_short(t) + (' => ' + _short(o['r']) if 'r' in o else ''))
    return out


def write_replay(ctx, kind, body):
    os.makedirs(lib.REPLAYS, exist_ok=True)
    text = json.dumps(dict(body, property=ctx.prop, kind=kind, seed=ctx.seed), default=lib._jdefault, indent=1)
    h = hashlib.sha256(text.encode()).hexdigest()[:12]
    path = os.path.join('replays', '%s-%s.json' % (ctx.prop, h))
    with open(os.path.join(lib.VERIF, path), 'w') as f:
        f.write(text + '\n')
    return path


def findings():
    """The defects that are recorded and not repaired: key -> (properties, what fails)."""
    out = {}
    with open(os.path.join(lib.VERIF, 'KNOWN_FINDINGS')) as f:
        for l in f:
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m:
                out.setdefault(m.group(2), ([], m.group(3)))[0].append(m.group(1))
    return out


def known_keys(prop):
    return sorted(k for k, (props, _) in findings().items() if prop in props)


def known(ctx, key):
    ctx.known[key] = ctx.known.get(key, 0) + 1


def violation(ctx, title, path):
    ctx.violations.append((title, path))


def finish(ctx, level='model_checking'):
    cov = {
        'states': ctx.stats['states'],
        'transitions': ctx.stats['transitions'],
        'traces_validated_against_impl': ctx.accepted,
        'operations_executed': ctx.ops,
        'corrupted_recordings_rejected': ctx.probes,
        'model_runs': ctx.stats.get('model_runs', []),
        'batches': ctx.batches,
        'samples': ctx.samples[:6],
    }
    if ctx.known:
        cov['known_findings_seen'] = ctx.known
    if ctx.notes:
        cov['notes'] = ctx.notes
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 2),
          'violations': len(ctx.violations)}
    os.makedirs(os.path.join(lib.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(lib.VERIF, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for key, n in sorted(ctx.known.items()):
        props, what = findings()[key]
        print('KNOWN-FINDING: property=%s %s: %s (%d runs)' % (ctx.prop, key, what, n), flush=True)
    for title, path in ctx.violations:
        print('# ' + title)
        print('VIOLATION property=%s replay=%s' % (ctx.prop, path), flush=True)
    return 1 if ctx.violations else 0


# ---------------------------------------------------------------- the batches

def run_batch(ctx, b):
    t = time.time()
    rec = lib.run_cases(b.cases, b.variant, b.track, b.shards)
    t_run = time.time() - t
    probes = probes_for(rec, ctx.rng)
    allrec = rec + [p[2] for p in probes]
    rej, states, trans = lib.check_traces(allrec)
    real = [(c, o) for c, o in rej if c < len(rec)]
    missed = set(range(len(rec), len(allrec))) - {c for c, _ in rej}
    # a probe made from a case that is rejected anyway says nothing
    if missed and not lib.undecided.get('rest'):
        i, j, ops = probes[min(missed) - len(rec)]
        raise CheckError('a corrupted recording was accepted (batch %s, operation %d):\n%s'
                         % (b.name, j, '\n'.join(describe(ops))))
    return rec, real, states, trans, len(probes), t_run


def run_batches(ctx, batches):
    for b in batches:
        if not b.cases:
            continue
        t = time.time()
        rec, real, states, trans, np, t_run = run_batch(ctx, b)
        ctx.stats['states'] += states
        ctx.stats['transitions'] += trans
        ran = [c for c in rec if c is not None]
        ctx.probes += np
        ctx.ops += sum(len(c) for c in ran)
        if real:
            confirm(ctx, b, rec, real)
        badcases = {c for c, _ in real}
        ctx.accepted += len(ran) - len(badcases)
        ctx.batches.append({'name': b.name, 'variant': b.variant, 'cases': len(b.cases), 'run': len(ran),
                            'rejected': len(badcases), 'wall_s': round(time.time() - t, 1),
                            'run_s': round(t_run, 1)})
        for i in (0, len(rec) // 2):
            if rec[i] is not None and len(ctx.samples) < 6:
                ctx.samples.append(describe(rec[i])[:12])
        log('%s: %s: %d cases, %d operations, %d rejected, %.1f s' % (
            ctx.prop, b.name, len(ran), sum(len(c) for c in ran), len(badcases), time.time() - t))


def confirm(ctx, b, rec, real):
    """A rejected case is a violation if it is rejected again when it is run again: first
    alone, then together with everything that ran with it."""
    for attempt in range(b.retries):
        sel = real[:40]
        again = lib.run_cases([b.cases[c] for c, _ in sel], b.variant, b.track, 1)
        rej, _, _ = lib.check_traces(again)
        for k, opnr in rej[:3]:
            report(ctx, b, again[k], opnr, alone=True)
        if rej:
            return
    for attempt in range(b.retries):
        again = lib.run_cases(b.cases, b.variant, b.track, b.shards)
        rej, _, _ = lib.check_traces(again)
        for c, opnr in rej[:3]:
            report(ctx, b, again[c], opnr, alone=False)
        if rej:
            return
    ctx.notes.append('rejected once, accepted when run again: %s' % describe(rec[real[0][0]])[:6])
    log('not reproduced:', describe(rec[real[0][0]]))


def report(ctx, b, ops, opnr, alone):
    j = min(opnr, len(ops)) - 1
    o = ops[j]
    title = 'operation %d of %d is not allowed by the specification: %s' % (opnr, len(ops), describe([o])[0])
    if 'crash' in o['r']:
        title = 'crash in operation %d of %d (%s): %s' % (opnr, len(ops), o['op'], o['r']['crash'])
    path = write_replay(ctx, 'case', {
        'title': title, 'batch': b.name, 'variant': b.variant, 'track': b.track, 'operation': opnr,
        'needs_batch': not alone,
        'script': [lib.op_text(x) for x in ops if x['op'] != 'end'],
        'ops': [{k: (list(v) if isinstance(v, (bytes, bytearray)) else v) for k, v in x.items()} for x in ops]})
    violation(ctx, title, path)
