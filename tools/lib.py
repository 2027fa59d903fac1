"""Building the code under test, running scripts of operations on it, and asking TLC
whether what was recorded is a behaviour of the specification."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SML_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, '.build')
REPLAYS = os.path.join(VERIF, 'replays')
NPROC = os.cpu_count() or 4
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

ASAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=0:'
                    'detect_stack_use_after_return=1:max_malloc_fill_size=4096:malloc_fill_byte=190:'
                    'hard_rss_limit_mb=3000:handle_abort=1:symbolize=1:max_allocation_size_mb=2000',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=97',
    'MSAN_OPTIONS': 'exitcode=97:halt_on_error=1',
    'TSAN_OPTIONS': 'exitcode=97:halt_on_error=0:report_signal_unsafe=0',
    # glibc inside the driver must not depend on the caller's locale
    'LC_ALL': 'C', 'LANG': 'C',
}


class BuildError(Exception):
    pass


class CheckError(Exception):
    """The machinery itself failed; never a verdict about the code."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ----------------------------------------------------------------- building

SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,vla-bound',
             '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'tsan': ['-fsanitize=thread'],
    'plain': [],
    # the library without libuuid, and everything that is used before it was written
    'nouuid': ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,vla-bound',
               '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-DSML_NO_UUID_LIB'],
    'msan': ['-fsanitize=memory', '-fno-omit-frame-pointer', '-DSML_NO_UUID_LIB'],
}
COMPILER = {'msan': 'clang'}


def _sources():
    src = os.path.join(REPO, 'sml', 'src')
    return [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith('.c')]


def _hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _headers():
    out = []
    for base in ('sml/include/sml', 'examples'):
        d = os.path.join(REPO, base)
        out += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.h')]
    return out


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout)


def build(what, variant):
    """what: 'drv' or 'server'.  Returns the executable, built from /repo's current tree."""
    main = os.path.join(HARNESS, 'drv.c') if what == 'drv' else os.path.join(REPO, 'examples', 'sml_server.c')
    srcs = _sources() + [main]
    flags = ['-std=gnu99', '-O1', '-g', '-w', '-U_FORTIFY_SOURCE',
             '-I' + os.path.join(REPO, 'sml', 'include'),
             '-I' + os.path.join(REPO, 'examples')] + SAN[variant]
    cc = COMPILER.get(variant, 'gcc')
    link = ([] if '-DSML_NO_UUID_LIB' in flags else ['-luuid']) + ['-lm', '-lpthread']
    if what == 'drv':
        link += ['-Wl,--wrap=read,--wrap=select,--wrap=poll,--wrap=write']
    key = _hash(srcs + _headers(), ' '.join([cc] + flags + link))
    out = os.path.join(BUILD, '%s-%s-%s' % (what, variant, key))
    exe = os.path.join(out, what)
    if os.path.exists(exe):
        os.utime(out)
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD, prefix='tmp-')
    try:
        objs = []
        jobs = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for i, s in enumerate(srcs):
                o = os.path.join(tmp, '%d.o' % i)
                objs.append(o)
                jobs.append(ex.submit(_run, [cc] + flags + ['-c', s, '-o', o]))
            for j in jobs:
                j.result()
        _run([cc] + SAN[variant] + objs + link + ['-o', os.path.join(tmp, what)])
        for o in objs:
            os.unlink(o)
        try:
            os.rename(tmp, out)
        except OSError:  # somebody else was faster
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the build folder small
    old = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD)
                 if not d.startswith('tmp-') and d != 'work' and d != 'cache')
    for _, d in old[:-12]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    return exe


# ------------------------------------------------------------------ scripts
#
# A case is a list of operations; an operation is a dict with "op", its arguments as the
# specification names them, and later "r", the recorded result.  Byte strings are Python
# bytes here and lists of numbers in the trace.

def hx(b):
    return bytes(b).hex() or '-'


def tok_text(t):
    if t[0] == 0:
        return '0'
    if t[0] == 1:
        return '1' + bytes(t[1:]).hex()
    if t[0] == 2:
        return '2%d' % t[1]
    if t[0] == 3:
        return '3%d:%s' % (t[1], bytes(t[2:]).hex())
    if t[0] == 4:
        return '4%d' % t[1]
    if t[0] == 6:
        assert len(t) == 3
        return '1r%02x:%d' % (t[1], t[2])
    raise ValueError(t)


def ev_text(ev):
    return ','.join('%d:%d:%d' % tuple(v) for v in ev) or '-'


def op_text(o):
    p = o['op']
    if p == 'parse':
        return 'parse %s %d %s' % (o['g'], o['k'], bytes(o['in']).hex())
    if p == 'file':
        return 'file %d %s %d' % (o['k'], hx(o['in']), o['rep'])
    if p == 'build':
        return 'build %s %d %s' % (o['g'], o['k'], ' '.join(tok_text(t) for t in o['toks']))
    if p == 'idmsg':
        return 'idmsg %d %s' % (o['k'], ' '.join(tok_text(t) for t in o['toks']))
    if p == 'reparse':
        return 'reparse %d %d' % (o['k'], o['q'])
    if p == 'init':
        return 'init %s %d' % (o['g'], o['k'])
    if p in ('dump', 'free', 'print', 'double'):
        return '%s %d' % (p, o['k'])
    if p == 'absent':
        return 'absent %s %d' % (o['g'], o['write'])
    if p == 'heap':
        return 'heap'
    if p == 'newbuf':
        return 'newbuf %d %d %d' % (o['q'], o['size'], o['fill'])
    if p in ('rewind', 'freebuf'):
        return '%s %d' % (p, o['q'])
    if p in ('write', 'writer'):
        return '%s %d %d' % (p, o['k'], o['q'])
    if p in ('addmsg', 'add', 'setbody'):
        return '%s %d %d' % (p, o['k'], o['m'])
    if p == 'fwrite':
        return 'fwrite %d %d' % (o['k'], o['rw'])
    if p == 'twrite':
        return 'twrite %d %d %d' % (o['k'], o['lim'], o['more'])
    if p == 'tread':
        return 'tread %d %d %s %s' % (o['calls'], o['max'], ev_text(o['ev']), bytes(o['in']).hex())
    if p == 'preads':
        return 'preads %d %d %s %s' % (o['calls'], o['max'], ','.join(map(str, o['cuts'])) or '-',
                                       bytes(o['in']).hex())
    if p == 'listen':
        return 'listen %d %s %s' % (o['mode'], ev_text(o['ev']), bytes(o['in']).hex())
    if p == 'lrun':
        return 'lrun %d %d %s %s' % (o['max'], o['n'], hx(o['lead']), hx(o['in']))
    if p in ('crc', 'hdrr', 'opt'):
        return '%s %s' % (p, hx(o['in']))
    if p == 'strhex':
        return 'strhex %d %d' % (o['k'], o['mixed'])
    if p == 'fromhex':
        return 'fromhex %d %s' % (o['k'], bytes(o['text']).decode() or '-')
    if p == 'hexrun':
        return 'hexrun %d %d' % (o['byte'], o['n'])
    if p == 'cmp':
        return 'cmp %d %d' % (o['a'], o['b'])
    if p == 'cmphex':
        return 'cmphex %d %s' % (o['a'], bytes(o['text']).decode() or '-')
    if p == 'ids':
        return 'ids %d' % o['n']
    if p == 'hdrw':
        return 'hdrw %d %d %d' % (o['type'], o['len'], o['fill'])
    if p == 'survive':
        return 'survive %s %s' % (o['g'], bytes(o['in']).hex() or '-') + (' %d %s' % (o['rep'], bytes(o['unit']).hex()) if o['rep'] else '')
    if p == 'rnew':
        return 'rnew %d %d %d' % (o['q'], o['size'], o['fill'])
    if p in ('rload', 'rput'):
        return '%s %d %s' % (p, o['q'], hx(o['in']))
    if p in ('rcut', 'ropt', 'rtype', 'rlen', 'rskip', 'rbyte', 'rfree'):
        return '%s %d' % (p, o['q'])
    if p == 'rset':
        return 'rset %d %d' % (o['q'], o['cur'])
    if p in ('reserve', 'radv'):
        return '%s %d %d' % (p, o['q'], o['n'])
    if p == 'rhdr':
        return 'rhdr %d %d %d' % (o['q'], o['type'], o['len'])
    if p == 'rwrite':
        return 'rwrite %d %d' % (o['k'], o['q'])
    if p == 'rparse':
        return 'rparse %d %s %d' % (o['q'], o['g'], o['k'])
    if p == 'hexdump':
        return 'hexdump ' + hx(o['in'])
    if p == 'bigadd':
        return 'bigadd %s %d' % (o['kind'], o['n'])
    raise ValueError(p)


def _jdefault(b):
    if isinstance(b, (bytes, bytearray)):
        return list(b)
    raise TypeError(type(b))


def case_json(i, ops):
    return json.dumps({'id': i, 'ops': ops}, default=_jdefault, separators=(',', ':'))


def parse(g, data, k=1):
    return {'op': 'parse', 'g': g, 'k': k, 'in': bytes(data)}


def file_(data, k=1, rep=1):
    return {'op': 'file', 'k': k, 'in': bytes(data), 'rep': rep}


def op(name, **kw):
    kw['op'] = name
    return kw


# ------------------------------------------------------------------ running

def _write_script(path, cases, idx):
    with open(path, 'w') as f:
        for i in idx:
            f.write('case %d\n' % i)
            for o in cases[i]:
                f.write(op_text(o))
                f.write('\n')


def _tail(path, n=6000):
    try:
        with open(path, 'rb') as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - n))
            return f.read().decode('latin1')
    except OSError:
        return ''


def _crash_reason(rc, err):
    m = re.search(r'((?:ERROR|WARNING): \w+Sanitizer: [^\n]*|runtime error: [^\n]*|drv: HANG[^\n]*)', err)
    if m:
        return m.group(1)[:300]
    return 'exit code %d' % rc


def _run_shard(exe, cases, idx, work, name, env):
    """Runs the cases idx one after the other; survives crashes of single cases."""
    results = {}
    todo = list(idx)
    rnd = hangs = 0
    while todo:
        rnd += 1
        script = os.path.join(work, '%s.%d.in' % (name, rnd))
        out = os.path.join(work, '%s.%d.out' % (name, rnd))
        err = os.path.join(work, '%s.%d.err' % (name, rnd))
        _write_script(script, cases, todo)
        open(out, 'w').close()
        with open(err, 'wb') as ef:
            try:
                rc = subprocess.run([exe, script, out], stdout=subprocess.DEVNULL, stderr=ef,
                                    stdin=subprocess.DEVNULL, env=env, timeout=600).returncode
            except subprocess.TimeoutExpired:
                rc = -999
        last = None
        with open(out, 'rb') as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue  # cut off by a crash
                c = d.pop('c')
                i = d.pop('i')
                if i == 0:
                    results[c] = []
                    last = c
                else:
                    d.pop('op', None)
                    results[c].append(d)
        if rc == 0:
            break
        errtext = _tail(err)
        if last is None:
            raise CheckError('driver failed before the first case (%d)\n%s' % (rc, errtext))
        if rc == 3:
            raise CheckError('driver rejected the script\n' + errtext)
        results[last].append({'crash': _crash_reason(rc, errtext), 'report': errtext[-3000:]})
        todo = todo[todo.index(last) + 1:]
        hangs += 'drv: HANG' in errtext
        if rnd >= 10 or hangs >= 2:
            # so many crashes that the rest adds nothing
            for i in todo:
                results.setdefault(i, None)
            break
    for f in os.listdir(work):
        if f.startswith(name + '.'):
            os.unlink(os.path.join(work, f))
    return results


def run_cases(cases, variant='asan', track=False, shards=None, exe=None):
    """Executes every case; returns the recorded cases (operations with results).  A case
    that crashed ends with the operation that did, with a result that has only "crash"."""
    exe = exe or build('drv', variant)
    env = dict(os.environ, **ASAN_ENV)
    if track:
        env['DRV_TRACK'] = '1'
    shards = shards or min(NPROC, max(1, len(cases) // 20))
    work = workdir('run')
    rec = {}
    try:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = [ex.submit(_run_shard, exe, cases, list(range(s, len(cases), shards)), work,
                              's%d' % s, env) for s in range(shards)]
            for f in futs:
                rec.update(f.result())
    finally:
        shutil.rmtree(work, ignore_errors=True)
    out = []
    for i, ops in enumerate(cases):
        r = rec.get(i)
        if r is None:
            out.append(None)  # not run
            continue
        got = [dict(o, r=x) for o, x in zip(ops, r)]
        if len(r) > len(ops):
            got.append({'op': 'end', 'r': r[len(ops)]})
        elif len(r) < len(ops) and not (r and 'crash' in r[-1]):
            raise CheckError('case %d: %d results for %d operations' % (i, len(r), len(ops)))
        out.append(got)
    return out


def run_threads(cases, n, repeat):
    """The cases, distributed over n threads of one process (built with the thread
    sanitizer), repeat times.  Returns the recorded cases (of every repetition) and the
    sanitizer's report, if there is one."""
    exe = build('drv', 'tsan')
    work = workdir('threads')
    try:
        script = os.path.join(work, 'in')
        out = os.path.join(work, 'out')
        err = os.path.join(work, 'err')
        _write_script(script, cases, range(len(cases)))
        with open(err, 'wb') as ef:
            try:
                rc = subprocess.run([exe, script, out, str(n), str(repeat)], stdout=subprocess.DEVNULL, stderr=ef,
                                    stdin=subprocess.DEVNULL, env=dict(os.environ, **ASAN_ENV), timeout=300).returncode
            except subprocess.TimeoutExpired:
                rc = -999
        errtext = _tail(err)
        report = ''
        if rc == -999:
            report = 'the threads did not finish'
        elif rc:
            m = re.search(r'(WARNING: ThreadSanitizer: [^\n]*|ERROR: \w+Sanitizer[^\n]*)', errtext)
            report = (m.group(1) if m else 'exit code %d' % rc) + '\n' + errtext
        rec = []
        for t in range(n):
            try:
                f = open('%s.%d' % (out, t), 'rb')
            except OSError:
                continue
            cur = {}
            with f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    c, i = d.pop('c'), d.pop('i')
                    d.pop('op', None)
                    if i == 1:
                        if c in cur:
                            rec.append(cur.pop(c))
                        cur[c] = []
                    if c in cur and i == len(cur[c]) + 1:
                        cur[c].append(dict(cases[c][i - 1], r=d))
            rec += cur.values()
        if rc == 0 and len(rec) != len(cases) * repeat:
            raise CheckError('threads: %d recorded, %d expected' % (len(rec), len(cases) * repeat))
        return rec, report
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------------- TLC

def workdir(name):
    os.makedirs(os.path.join(BUILD, 'work'), exist_ok=True)
    return tempfile.mkdtemp(dir=os.path.join(BUILD, 'work'), prefix=name + '-')


class TlcResult:
    pass


def tlc(module, cfg, env=None, workers=None, args=(), heap='6g', timeout=800, stack='64m'):
    """Runs TLC on spec/<module>.tla.  cfg: the text of the configuration."""
    work = workdir('tlc')
    try:
        cfgf = os.path.join(work, 'm.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss' + stack,
               '-Dtlc2.tool.impl.Tool.cdot=true', '-cp', JAR, 'tlc2.TLC',
               '-workers', str(workers or NPROC), '-metadir', os.path.join(work, 'states'),
               '-noGenerateSpecTE', '-config', cfgf] + list(args) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
                               timeout=timeout, cwd=work)
        except subprocess.TimeoutExpired as x:
            raise CheckError('TLC ran out of time on %s\n%s' % (module, (x.stdout or b'')[-2000:].decode('latin1')))
        r = TlcResult()
        r.out = p.stdout.decode('utf8', 'replace')
        r.rc = p.returncode
        r.wall = time.time() - t
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.out)
        r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        r.printed = []
        for line in r.out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                try:
                    r.printed.append(json.loads(line))
                except ValueError:
                    pass
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def plain(out):
    """TLC's output without what was printed on purpose."""
    return '\n'.join(l for l in out.splitlines() if not re.match(r'"|Parsing|Semantic|Linting|Computed', l))


def tlc_ok(module, cfg, **kw):
    """A run that has to find no error."""
    r = tlc(module, cfg, **kw)
    if r.rc != 0:
        raise CheckError('TLC failed on %s (exit %d)\n%s' % (module, r.rc, plain(r.out)[-4000:]))
    return r


TRACE_CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'


undecided = {}


def check_traces(recorded, module='SmlTrace', cfg=TRACE_CFG, chunk_bytes=60_000_000):
    """Which of the recorded cases are not behaviours of the specification?  Returns
    (list of (case, operation), states, transitions).  Cases that are None were not run."""
    rejected = []
    states = trans = 0
    chunk = []
    size = 0
    undecided.clear()

    def flush():
        nonlocal chunk, size, states, trans
        if not chunk:
            return
        work = workdir('trace')
        try:
            path = os.path.join(work, 'trace.json')
            with open(path, 'w') as f:
                f.write('\n'.join(chunk) + '\n')
            r = tlc(module, cfg, env={'TRACE': path})
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if r.rc != 0:
            # a recorded result of a shape that the specification has no value for
            m = re.findall(r'^/\\ c = (\d+)\n/\\ i = (\d+)$', r.out, re.M)
            if r.rc == 75 and m and undecided.get('n', 0) < 8:
                undecided['n'] = undecided.get('n', 0) + 1
                at, opnr = (int(x) for x in m[-1])
                rejected.append((lens[at - 1][0], opnr))
                del chunk[at - 1], lens[at - 1]
                return flush()
            if r.rc == 75 and m and rejected:
                undecided['rest'] = True  # what was found is enough
                chunk = []
                lens.clear()
                size = 0
                return
            raise CheckError('TLC failed on the recorded traces (exit %d)\n%s' % (r.rc, plain(r.out)[-4000:]))
        bad = set()
        for s in r.printed:
            if s.startswith('@REJECT '):
                _, a, b = s.split()
                rejected.append((int(a), int(b)))
                bad.add(int(a))
        # an accepted case has a state in front of every operation, one at the end and a
        # final one
        done = len(chunk)
        expect_min = sum(n + 2 for i, n in lens if i not in bad) + 2 * len(bad)
        if r.distinct < expect_min:
            raise CheckError('TLC looked at %d states only, for %d traces' % (r.distinct, done))
        states += r.distinct
        trans += r.generated - done
        chunk = []
        lens.clear()
        size = 0

    lens = []
    for i, ops in enumerate(recorded):
        if ops is None:
            continue
        j = case_json(i, [{k: v for k, v in o.items() if k != 'r'} |
                          {'r': {k: v for k, v in o['r'].items() if k != 'report'}} for o in ops])
        chunk.append(j)
        lens.append((i, len(ops)))
        size += len(j)
        if size > chunk_bytes:
            flush()
    flush()
    return sorted(rejected), states, trans
