#!/usr/bin/env python3
"""Mutation analysis of the checks (a development tool; no check uses it).

   mutants.py list  DIR N [SEED]     N random mutants of /repo/sml/src that build and pass the tests
   mutants.py base  DIR              runs the quick checks on /repo and keeps what was accepted
   mutants.py run   DIR [ID...]      runs the checks on each mutant; DIR/result.jsonl
   (one) mutants.py one DIR REPO PROPERTY...   prints CAUGHT property title, or MISSED

Behind `one`, results that are the same as accepted results of /repo are not given to
TLC again, and what TLC derives is kept in DIR/cache."""
import concurrent.futures as cf
import hashlib
import json
import os
import pickle
import random
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

ALL = ['C07', 'C13', 'C14', 'C08', 'C05', 'C06', 'C09', 'C10', 'C11', 'C12', 'C15', 'C16', 'C17', 'C22', 'C24', 'C19', 'C18',
       'C25', 'C26', 'C04', 'C03', 'C01', 'C02', 'C20']
FIRST = {'sml_transport.c': ['C04', 'C03', 'C01', 'C02', 'C17'], 'sml_value.c': ['C18', 'C19', 'C07', 'C13', 'C17'],
         'sml_octet_string.c': ['C24', 'C26', 'C07', 'C13', 'C17'], 'sml_crc16.c': ['C25', 'C05'],
         'sml_number.c': ['C09', 'C07', 'C13', 'C17', 'C16'], 'sml_shared.c': ['C10', 'C15', 'C16', 'C07', 'C17'],
         'sml_file.c': ['C06', 'C22', 'C15', 'C17', 'C16'], 'sml_list.c': ['C11', 'C07', 'C22', 'C13', 'C17'],
         'sml_time.c': ['C12', 'C07', 'C13', 'C17'], 'sml_message.c': ['C05', 'C07', 'C06', 'C13', 'C17'],
         'sml_tree.c': ['C07', 'C13', 'C22', 'C17', 'C08'], 'sml_boolean.c': ['C07', 'C13', 'C08', 'C17']}
DEFAULT = ['C07', 'C13', 'C08', 'C17']


# ------------------------------------------------------------------- mutants

REL = {'<': ['<=', '>'], '<=': ['<', '=='], '>': ['>=', '<'], '>=': ['>', '=='], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'],
       '+': ['-'], '-': ['+'], '<<': ['>>'], '>>': ['<<'], '&': ['|'], '|': ['&'], '^': ['|'], '+=': ['-=', '='], '-=': ['+='],
       '++': ['--'], '|=': ['&=', '='], '*': ['+'], '%': ['/'], '/': ['*']}
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|0[xX][0-9a-fA-F]+|\d+|[A-Za-z_]\w*|->|<<=|>>=|<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|\|=|&=|<<|>>|\S')


def mutations(path):
    """(line number, new line, what)"""
    lines = open(path).read().split('\n')
    out = []
    comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'):
            comment = True
        if comment:
            if '*/' in s:
                comment = False
            continue
        if not s or s.startswith('#') or s.startswith('//'):
            continue
        code = l.split('//')[0]
        for m in TOK.finditer(code):
            t = m.group()
            a, b = m.span()
            alts = []
            if t in REL:
                if t == '*' and (b >= len(code) or not code[b] == ' '):
                    continue
                if t == '&' and code[b:b + 1] != ' ':
                    continue
                if t == '-' and code[b:b + 1] == '>':
                    continue
                alts = REL[t]
            elif re.fullmatch(r'0[xX][0-9a-fA-F]+|\d+', t):
                v = int(t, 0)
                alts = [str(v + 1)] + ([str(v - 1)] if v else [])
            elif t in ('NULL',):
                alts = []
            for x in alts:
                out.append((n, l[:a] + x + l[b:], '%s -> %s' % (t, x)))
        if re.match(r'\s+[^{}]*;\s*(//.*)?$', l) and not re.match(r'\s*(return|break|goto|int|char|unsigned|u8|u16|u32|size_t|sml_\w+ \*|octet_string \*)\b', l):
            out.append((n, re.match(r'\s*', l).group() + ';', 'deleted'))
        m = re.match(r'(\s*(?:else )?(?:if|while) \()(.*)(\)\s*\{?\s*)$', code)
        if m:
            out.append((n, m.group(1) + '!(' + m.group(2) + ')' + m.group(3), 'negated'))
            if s.startswith('if'):
                out.append((n, m.group(1) + '0 && (' + m.group(2) + ')' + m.group(3), 'never'))
                out.append((n, m.group(1) + '1 || (' + m.group(2) + ')' + m.group(3), 'always'))
            if '&&' in m.group(2) or '||' in m.group(2):
                o = '&&' if '&&' in m.group(2) else '||'
                parts = m.group(2).split(o)
                if all(x.count('(') == x.count(')') for x in parts):
                    for k in range(len(parts)):
                        out.append((n, m.group(1) + o.join(parts[:k] + parts[k + 1:]) + m.group(3), 'without part %d' % k))
        nxt = lines[n + 1] if n + 1 < len(lines) else ''
        if s.endswith(';') and nxt.strip().endswith(';') and not re.match(r'\s*(return|break|goto)', l) \
                and not re.match(r'\s*(return|break|goto|\})', nxt) and l[:len(l) - len(l.lstrip())] == nxt[:len(nxt) - len(nxt.lstrip())]:
            out.append((n, None, 'swapped with next'))
    return lines, out


def make_list(d, count, seed):
    os.makedirs(d, exist_ok=True)
    rng = random.Random(seed)
    src = '/repo/sml/src'
    allm = []
    for f in sorted(os.listdir(src)):
        if f.endswith('.c'):
            lines, ms = mutations(os.path.join(src, f))
            allm += [(f, n, new, what, lines[n]) for n, new, what in ms]
    pick = rng.sample(allm, min(count, len(allm)))
    print(len(allm), 'mutations,', len(pick), 'tried')
    def work(w):
        out = []
        t = os.path.join(d, 'w%d' % w)
        shutil.rmtree(t, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', t], check=True)
        for i in range(w, len(pick), 8):
            f, n, new, what, old = pick[i]
            p = os.path.join(t, 'sml/src', f)
            text = open(p).read()
            lines = text.split('\n')
            if new is None:
                lines[n], lines[n + 1] = lines[n + 1], lines[n]
            else:
                lines[n] = new
            mid = hashlib.sha256(repr((f, n, new, what)).encode()).hexdigest()[:8]
            open(p, 'w').write('\n'.join(lines))
            ok = subprocess.run('make -C sml CC=gcc && make -C test test CC=gcc && cd test && ulimit -v 4000000 && echo BEGIN && timeout 20 ./test',
                                shell=True, cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode('latin1')
            ok = ok.split('BEGIN')[1] if 'BEGIN' in ok else ''
            if ' 0 Failures' in ok:
                out.append({'id': mid, 'file': f, 'line': n + 1, 'what': what, 'old': old, 'new': new})
            open(p, 'w').write(text)
        shutil.rmtree(t, ignore_errors=True)
        return out
    with cf.ThreadPoolExecutor(8) as ex:
        res = sum(ex.map(work, range(8)), [])
    with open(os.path.join(d, 'list.jsonl'), 'w') as f:
        for r in sorted(res, key=lambda r: (r['file'], r['line'])):
            f.write(json.dumps(r) + '\n')
    print(len(res), 'pass the tests')


# --------------------------------------------------------------------- checks

def setup(d, repo, base):
    os.environ['SML_REPO'] = repo
    os.environ.setdefault('VERIF_SEED', '1')
    import core
    import lib
    import suites
    lib.BUILD = os.path.join(d, 'build-' + os.path.basename(repo))
    lib.REPLAYS = os.path.join(d, 'replays')
    core.probes_for = lambda *a, **k: []
    cache = os.path.join(d, 'cache')
    os.makedirs(cache, exist_ok=True)
    spec = hashlib.sha256()
    for f in sorted(os.listdir(lib.SPEC)):
        spec.update(open(os.path.join(lib.SPEC, f), 'rb').read())
    tlc_ok = lib.tlc_ok

    def cached(module, cfg, env=None, **kw):
        params = open(env['PARAMS']).read()
        h = hashlib.sha256(repr((spec.hexdigest(), module, cfg, params)).encode()).hexdigest()
        p = os.path.join(cache, h)
        if os.path.exists(p):
            return pickle.load(open(p, 'rb'))
        r = tlc_ok(module, cfg, env=env, **kw)
        r.__class__ = Plain
        pickle.dump(r, open(p + '.tmp', 'wb'))
        os.rename(p + '.tmp', p)
        return r
    lib.tlc_ok = cached
    check_traces = lib.check_traces
    state = {'known': None, 'new': set(), 'prop': None}

    def h(ops):
        return hashlib.sha256(lib.case_json(0, [{k: v for k, v in o.items() if k != 'r'} | {'r': {k: v for k, v in o['r'].items() if k != 'report'}}
                                                for o in ops]).encode()).digest()[:12]

    def check(rec, *a, **k):
        if a or k:
            return check_traces(rec, *a, **k)
        if base:
            r = check_traces(rec)
            bad = {c for c, _ in r[0]}
            state['new'].update(h(ops) for i, ops in enumerate(rec) if ops is not None and i not in bad)
            return r
        todo = [i for i, ops in enumerate(rec) if ops is not None and h(ops) not in state['known']]
        random.Random(1).shuffle(todo)
        crash = [i for i in todo if any('crash' in o['r'] for o in rec[i])][:5]
        for part in (crash + todo[:200], todo[200:6000]):
            if part:
                rej, s, t = check_traces([rec[i] for i in part])
                if rej:
                    return sorted((part[i], o) for i, o in rej), s, t
        return [], 0, 0
    lib.check_traces = check
    core.finish = lambda ctx: None
    return core, lib, suites, state


class Plain:
    pass


def base(d):
    core, lib, suites, state = setup(d, '/repo', True)
    for p in ALL:
        state['new'] = set()
        ctx = core.Ctx(p, 'quick')
        suites.SUITES[p](ctx)
        pickle.dump(state['new'], open(os.path.join(d, 'known.' + p), 'wb'))
        print(p, len(state['new']), ctx.violations, flush=True)


def one(d, repo, props):
    core, lib, suites, state = setup(d, repo, False)
    lib.NPROC = 4
    suites.threads = lambda *a: None
    for p in props:
        state['known'] = pickle.load(open(os.path.join(d, 'known.' + p), 'rb'))
        ctx = core.Ctx(p, 'quick')
        try:
            suites.SUITES[p](ctx)
        except Exception as e:
            if isinstance(e, lib.BuildError):
                print('BUILD')
                return
            print('ERROR %s %r' % (p, str(e)[:2000]))
            return
        if ctx.violations:
            print('CAUGHT %s %s' % (p, ctx.violations[0][0][:300]))
            return
    print('MISSED')


def run(d, ids):
    muts = [json.loads(l) for l in open(os.path.join(d, 'list.jsonl'))]
    done = {}
    rf = os.path.join(d, 'result.jsonl')
    if os.path.exists(rf):
        done = {json.loads(l)['id'] for l in open(rf)}
    muts = [m for m in muts if (m['id'] in ids if ids else m['id'] not in done)]

    def work(m):
        t = os.path.join(d, 'm' + m['id'])
        subprocess.run(['cp', '-a', '/repo', t], check=True)
        p = os.path.join(t, 'sml/src', m['file'])
        lines = open(p).read().split('\n')
        n = m['line'] - 1
        if m['new'] is None:
            lines[n], lines[n + 1] = lines[n + 1], lines[n]
        else:
            lines[n] = m['new']
        open(p, 'w').write('\n'.join(lines))
        first = FIRST.get(m['file'], DEFAULT)
        props = first + [p for p in ALL if p not in first]
        r = subprocess.run([sys.executable, os.path.abspath(__file__), 'one', d, t] + props, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True)
        res = dict(m, result=(r.stdout.strip().splitlines() or ['? ' + r.stderr[-500:]])[-1])
        with open(rf, 'a') as f:
            f.write(json.dumps(res) + '\n')
        shutil.rmtree(t, ignore_errors=True)
        shutil.rmtree(os.path.join(d, 'build-m' + m['id']), ignore_errors=True)
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        list(ex.map(work, muts))


if __name__ == '__main__':
    import mutants
    a = sys.argv
    if a[1] == 'list':
        make_list(a[2], int(a[3]), int(a[4]) if len(a) > 4 else 1)
    elif a[1] == 'base':
        mutants.base(a[2])
    elif a[1] == 'run':
        run(a[2], a[3:])
    elif a[1] == 'one':
        mutants.one(a[2], a[3], a[4:])
