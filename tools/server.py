"""sml_server as a process: runs it on streams and has TLC check what it printed."""
import array
import concurrent.futures as cf
import fcntl
import json
import os
import shutil
import subprocess
import termios
import time

import core
import gen
import lib

TRACE_CFG = lib.TRACE_CFG
LIMIT = 20


def streams(stats, mode, count=0, len=4, seed=None, nameless=False):
    return [bytes(d['w']) for d in gen.run_gen('SmlGenServer', {'mode': mode, 'count': count, 'len': len, 'nameless': nameless,
                                                               'seed': lib.SEED if seed is None else seed},
                                              ['PrintsReadings', 'SingleIsFirst', 'VerboseAdds'], stats)]


def run(s=0, v=0, data=b'', chan='stdin', cuts=(), live=(), flags=None):
    """A run on a stream.  chan: where it comes from; cuts: where it is cut for a pipe; live: where, and
    for how many lines, to wait for output before the rest is sent; flags: settings of a terminal."""
    args = [b'-s'] * s + [b'-v'] * v + [b'-' if chan in ('stdin', 'pipe', 'live') else b'F']
    return {'args': args, 'in': bytes(data), 'file': bytes(data), 'chan': chan, 'cuts': list(cuts), 'live': list(live), 'flags': flags}


def command(args, data, file):
    """A run with arguments; F and M stand for a file that exists and for one that does not."""
    return {'args': [bytes(a) for a in args], 'in': bytes(data), 'file': bytes(file), 'chan': 'args', 'cuts': [], 'live': [], 'flags': None}


def commands(stats, mode, len, count=0, seed=None):
    return [[bytes(x) for x in d['a']] for d in gen.run_gen('SmlGenCommand', {'mode': mode, 'count': count, 'len': len,
                                                                           'seed': lib.SEED if seed is None else seed}, ['Means', 'Bundles'], stats)]


IFLAGS = ['IGNBRK', 'BRKINT', 'PARMRK', 'ISTRIP', 'INLCR', 'IGNCR', 'ICRNL', 'IXON', 'IXOFF', 'IXANY', 'IGNPAR', 'INPCK', 'IMAXBEL']
OFLAGS = ['OPOST', 'ONLCR', 'OCRNL']
LFLAGS = ['ECHO', 'ECHONL', 'ICANON', 'ISIG', 'IEXTEN', 'ECHOE', 'ECHOK', 'NOFLSH', 'TOSTOP']
CFLAGS = ['PARENB', 'PARODD', 'CSTOPB', 'CREAD', 'HUPCL', 'CLOCAL']
SPEEDS = {getattr(termios, 'B%d' % n): n for n in (0, 300, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200)}


def line_of(fd):
    t = termios.tcgetattr(fd)
    flags = [n for k, names in enumerate((IFLAGS, OFLAGS, CFLAGS, LFLAGS)) for n in names if t[k] & getattr(termios, n)]
    if t[2] & termios.CSIZE == termios.CS8:
        flags.append('CS8')
    return {'flags': flags, 'speed': [SPEEDS.get(t[4], -1), SPEEDS.get(t[5], -1)]}


def _wait(p, out, limit=LIMIT):
    """Collects the output until the program ends."""
    try:
        p.wait(limit)
        return p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return -999


def _tty(exe, args, r, out, err, env, settle):
    """The stream comes from a terminal, as from the serial port of a meter."""
    m, s = os.openpty()
    try:
        name = os.ttyname(s)
        if r['flags'] is not None:  # as another program left it; ICANON tells when it was set up
            t = termios.tcgetattr(s)
            for k, names in enumerate((IFLAGS, OFLAGS, CFLAGS, LFLAGS)):
                for n in names:
                    if n not in ('CREAD', 'CLOCAL', 'TOSTOP', 'ICANON'):
                        t[k] = t[k] | getattr(termios, n) if n in r['flags'] else t[k] & ~getattr(termios, n)
            t[4] = t[5] = termios.B1200 if 'HUPCL' in r['flags'] else termios.B115200
            termios.tcsetattr(s, termios.TCSANOW, t)
        p = subprocess.Popen([exe] + args + [name], stdin=subprocess.DEVNULL, stdout=out, stderr=err, env=env)
        t = time.time()
        # until the program has set it up, what is sent would be treated as typed text
        while termios.tcgetattr(s)[3] & termios.ICANON and p.poll() is None:
            if time.time() - t > LIMIT:
                break
            time.sleep(.002)
        line = [line_of(s)]
        data = r['in']
        while data and p.poll() is None and time.time() - t < LIMIT:
            n = os.write(m, data[:200])
            data = data[n:]
            q = array.array('i', [1])
            while q[0] and p.poll() is None and time.time() - t < LIMIT:
                fcntl.ioctl(s, termios.FIONREAD, q)
                if q[0]:
                    time.sleep(.001)
        # what the program took is not necessarily handled yet, but does not get lost any
        # more; what is still on the way through the kernel would
        time.sleep(settle)
        os.close(s)
        s = -1
        os.close(m)
        m = -1
        return _wait(p, out), line
    finally:
        for fd in (m, s):
            if fd >= 0:
                os.close(fd)


def execute(exe, r, work, i, settle=.05):
    env = dict(os.environ, **lib.ASAN_ENV)
    outf = os.path.join(work, '%d.out' % i)
    errf = os.path.join(work, '%d.err' % i)
    inf = os.path.join(work, '%d.in' % i)
    args = [{b'F': inf.encode(), b'M': inf.encode() + b'.none'}.get(a, a) for a in r['args']]
    avail = []
    line = []
    with open(outf, 'wb') as out, open(errf, 'wb') as err:
        if r['chan'] == 'tty':
            rc, line = _tty(exe, args[:-1], r, out, err, env, settle)
        elif r['chan'] in ('pipe', 'live'):
            p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=out, stderr=err, env=env)
            a = 0
            try:
                for b, lines in r['live'] + [(b, 0) for b in r['cuts'] + [len(r['in'])]]:
                    p.stdin.write(r['in'][a:b])
                    p.stdin.flush()
                    a = max(a, b)
                    if not r['live']:
                        time.sleep(.0005)
                    elif b < len(r['in']):
                        t = time.time()
                        while True:  # nothing ends the program now, so that it empties its buffer
                            n = open(outf, 'rb').read().count(b'\n')
                            if n >= lines or time.time() - t > LIMIT or p.poll() is not None:
                                break
                            time.sleep(.002)
                        avail.append([b, n])
                p.stdin.close()
            except BrokenPipeError:
                pass
            rc = _wait(p, out)
        else:
            with open(inf, 'wb') as f:
                f.write(r['file'])
            with open(inf + '.std', 'wb') as f:
                f.write(r['in'])
            with open(inf + '.std', 'rb') as f:
                p = subprocess.Popen([exe] + args, stdin=subprocess.DEVNULL if r['chan'] == 'file' else f, stdout=out, stderr=err, env=env,
                                     cwd=work)
                rc = _wait(p, out)
            os.unlink(inf)
            os.unlink(inf + '.std')
    with open(outf, 'rb') as f:
        text = f.read()
    errtext = lib._tail(errf)
    os.unlink(outf)
    os.unlink(errf)
    lines = text.split(b'\n')
    return dict(r, out=lines[:-1], rest=lines[-1], status=rc, avail=avail, line=line, report=errtext if rc else '')


def execute_all(runs, settle=.05):
    exe = lib.build('server', 'asan')
    work = lib.workdir('server')
    try:
        with cf.ThreadPoolExecutor(2 * lib.NPROC) as ex:
            return list(ex.map(lambda x: execute(exe, x[1], work, x[0], settle), enumerate(runs)))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(recs, known=()):
    """(index, line) of the runs that are rejected, (index, key) of those with a recorded
    defect, states, transitions"""
    rejected = []
    shown = []
    states = trans = 0
    for a in range(0, len(recs), 2000):
        work = lib.workdir('strace')
        try:
            path = os.path.join(work, 'trace.json')
            with open(path, 'w') as f:
                for i, r in enumerate(recs[a:a + 2000]):
                    f.write(json.dumps({'id': a + i, 'args': r['args'], 'exist': [b'F'], 'in': r['in'], 'file': r['file'], 'out': r['out'],
                                        'rest': r['rest'], 'avail': r['avail'], 'line': r['line'], 'status': r['status'], 'known': list(known)}, default=lib._jdefault) + '\n')
            t = lib.tlc('SmlServerTrace', TRACE_CFG, env={'TRACE': path})
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if t.rc != 0:
            raise lib.CheckError('TLC failed on the runs of the server (exit %d)\n%s' % (t.rc, lib.plain(t.out)[-4000:]))
        n = len(recs[a:a + 2000])
        for s in t.printed:
            if s.startswith('@REJECT '):
                _, x, y = s.split()
                rejected.append((int(x), int(y)))
            elif s.startswith('@KNOWN '):
                _, x, y = s.split()
                shown.append((int(x), y))
        if t.distinct < 2 * n:
            raise lib.CheckError('TLC looked at %d states only, for %d runs' % (t.distinct, n))
        states += t.distinct
        trans += t.generated - n
    return sorted(set(rejected)), sorted(set(shown)), states, trans


def probes(recs, rng, n=30):
    """Runs with an altered output; each has to be rejected."""
    out = []
    cand = [r for r in recs if r['out'] and r['status'] == 0 and len(r['in']) < 9000 and not any(b'h' in a[1:] for a in r['args'])]
    for k in range(n):
        if not cand:
            break
        r = rng.choice(cand)
        lines = [bytearray(x) for x in r['out']]
        j = rng.randrange(len(lines))
        kind = k % 6
        if k % 4 == 1 and r['line']:  # the line was not set up
            x = r['line'][0]
            out.append(dict(r, line=[{'flags': x['flags'] + [rng.choice(('ICRNL', 'IXON', 'ECHO', 'ISTRIP', 'CSTOPB'))], 'speed': x['speed']}
                                     if rng.random() < .7 else {'flags': x['flags'], 'speed': [9600, 1200]}]))
            continue
        if k % 4 == 1 and r['avail'] and r['avail'][-1][1] > 0:  # the last line was late
            out.append(dict(r, avail=r['avail'][:-1] + [[r['avail'][-1][0], r['avail'][-1][1] - 1]]))
            continue
        if kind == 0:
            del lines[j]
        elif kind == 1:
            lines.insert(j, bytearray(b'1-0:1.8.0*255#1#Wh'))
        elif kind == 2:
            p = lines[j].find(b'#')
            if p < 0:
                continue
            lines[j][p - 1] = 48 + (lines[j][p - 1] - 47) % 10
        elif kind == 3:
            lines[j] += b'W'
        elif kind == 4:
            out.append(dict(r, status=1))
            continue
        else:  # a leading digit of a number
            p = lines[j].find(b'#') + 1
            if p <= 0 or not lines[j][p:p + 1].isdigit() or lines[j][p:p + 1] == b'0':
                continue
            lines[j][p] = 49 + (lines[j][p] - 48) % 9
        out.append(dict(r, out=[bytes(x) for x in lines]))
    return out


def options(r):
    return ' '.join(bytes(a).decode('latin1') or "''" for a in r['args'])


def show(r):
    return {'arguments': options(r), 'channel': r['chan'], 'in': bytes(r['in']).hex(), 'avail': r['avail'], 'line': r['line'],
            'out': [bytes(x).decode('utf8', 'replace') for x in r['out']], 'rest': bytes(r['rest']).decode('utf8', 'replace'),
            'status': r['status']}


def check_runs(ctx, name, runs):
    t0 = time.time()
    recs = execute_all(runs)
    pr = probes(recs, ctx.rng)
    rej, shown, states, trans = check(recs + pr, core.known_keys(ctx.prop))
    missed = set(range(len(recs), len(recs) + len(pr))) - {i for i, _ in rej}
    if missed:
        raise lib.CheckError('a corrupted run was accepted: %s' % json.dumps(show(pr[min(missed) - len(recs)]))[:3000])
    real = [x for x in rej if x[0] < len(recs)]
    if real:
        again = execute_all([runs[i] for i, _ in real[:20]], .6)
        rej2, _, _, _ = check(again, core.known_keys(ctx.prop))
        for i, line in rej2[:3]:
            report(ctx, again[i], line)
        if not rej2:
            ctx.notes.append('rejected once, accepted when run again: %s' % json.dumps(show(recs[real[0][0]]))[:600])
            lib.log('not reproduced', show(recs[real[0][0]]))
    for i, key in shown:
        if i < len(recs):
            core.known(ctx, key)
    ctx.stats['states'] += states
    ctx.stats['transitions'] += trans
    ctx.probes += len(pr)
    ctx.ops += len(recs)
    ctx.accepted += len(recs) - len(real)
    ctx.batches.append({'name': name, 'variant': 'asan', 'cases': len(runs), 'run': len(recs), 'rejected': len(real),
                        'lines': sum(len(r['out']) for r in recs), 'wall_s': round(time.time() - t0, 1)})
    for r in recs[:2]:
        ctx.samples.append([json.dumps(show(r))[:300]])
    lib.log('%s: %s: %d runs, %d lines, %d rejected, %.1f s' % (ctx.prop, name, len(recs), sum(len(r['out']) for r in recs), len(real),
                                                               time.time() - t0))


def report(ctx, r, line):
    got = bytes(r['out'][line - 1]).decode('utf8', 'replace') if line <= len(r['out']) else '(end, status %d)' % r['status']
    title = 'sml_server %s: output is not right from line %d on: %s' % (options(r), line, got[:200])
    path = core.write_replay(ctx, 'server', {'title': title, 'line': line, 'args': [list(a) for a in r['args']], 'chan': r['chan'],
                                             'cuts': r['cuts'], 'live': r['live'], 'flags': r['flags'], 'in': list(r['in']), 'file': list(r['file']), 'report': r['report'], 'run': show(r)})
    core.violation(ctx, title, path)


def replay(d):
    r = execute_all([{'args': [bytes(a) for a in d['args']], 'in': bytes(d['in']), 'file': bytes(d['file']), 'chan': d['chan'],
                      'cuts': d['cuts'], 'live': [tuple(x) for x in d['live']], 'flags': d['flags']}], .6)
    print(json.dumps(show(r[0]), indent=1))
    rej, _, _, _ = check(r, core.known_keys(d['property']))
    print('rejected at line %d' % rej[0][1] if rej else 'accepted')
    return 1 if rej else 0
