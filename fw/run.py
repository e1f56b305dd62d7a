#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01

Builds the drivers of that property (checks.py) from /repo's working tree in a scratch directory, runs
them, decides, writes evidence/<id>.json.
Exit 0: held on everything observed.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed.
"""
import zlib
import sys, os, json, time, re, subprocess, tempfile, shutil, fnmatch, threading, hashlib
from concurrent.futures import ThreadPoolExecutor

FW = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(FW)
REPO = os.environ.get('VC_REPO', '/repo')
sys.path.insert(0, FW)
import checks as C

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 8)))


class HarnessError(Exception):
    pass


class CompileError(HarnessError):
    """the compiler rejected code that compiles on the unchanged tree"""


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e['LC_ALL'] = 'C.UTF-8'
    for k in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'MAKEFLAGS'):
        e.pop(k, None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                         start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), er.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, er = p.communicate()
        return 'timeout', o.decode('utf8', 'replace'), er.decode('utf8', 'replace')


class Builder:
    """Compiles objects (shared between jobs) and links drivers."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.lock = threading.Lock()
        self.objs = {}

    def compile(self, src, cxx, flags):
        k = (src, cxx, tuple(flags))
        with self.lock:
            if k not in self.objs:
                self.objs[k] = {'lock': threading.Lock(), 'done': False}
            ent = self.objs[k]
        with ent['lock']:
            if not ent['done']:
                h = hashlib.sha1(repr(k).encode()).hexdigest()[:12]
                out = os.path.join(self.tmp, os.path.basename(src) + '.' + h + '.o')
                cmd = [cxx] + flags + ['-c', src, '-o', out]
                rc, o, e = sh(cmd, 600)
                ent['done'] = True
                ent['out'] = out if rc == 0 else None
                ent['err'] = (rc, ' '.join(cmd), e[-6000:])
        if ent['out'] is None:
            rc, cmd, err = ent['err']
            bad = re.search(r': (fatal )?error: ', err) and not re.search(r'No space left|Killed signal|cannot allocate|out of memory|internal compiler error', err)
            raise (CompileError if rc == 1 and bad else HarnessError)('compile failed (%s): %s\n%s' % ent['err'])
        return ent['out'], ent['err'][1]


def lib_objects(job):
    """(source, flags) of the parts of libVc this job links."""
    base = ['-std=c++14', '-O1', '-I' + REPO, '-DVc_COMPILE_LIB', '-ffp-contract=fast', '-w'] + job.libflags + job.libopt
    r = [(REPO + '/src/const.cpp', base), (REPO + '/src/cpuid.cpp', base), (REPO + '/src/support_x86.cpp', base)]
    if 'trig' in job.lib and job.impl != 'scalar':
        for t in C.TRIG[job.impl]:
            r.append((REPO + '/src/trigonometric.cpp', base + C.LIBIMPL[t]))
    if 'sort' in job.lib and job.impl != 'scalar':
        for src, t in C.SORT[job.impl]:
            r.append((REPO + '/src/' + src, base + C.LIBIMPL[t]))
    return r


def build(job, b):
    flags = ['-std=' + job.std] + job.opt + ['-I' + FW, '-I' + REPO, '-Wno-psabi', '-w', '-ffp-contract=off'] \
        + C.IMPL[job.impl] + ['-DVT_IMPL="%s"' % job.impl] + job.defs
    obj, cmd = b.compile(os.path.join(VERIF, 'drivers', job.src), job.cxx, flags)
    objs = [obj]
    for src, fl in lib_objects(job):
        objs.append(b.compile(src, job.cxx, fl)[0])
    exe = os.path.join(b.tmp, re.sub(r'[^A-Za-z0-9_.-]', '_', job.name) + '.exe')
    rc, o, e = sh([job.cxx] + job.libflags + objs + ['-o', exe, '-lpthread', '-lm'] + job.link, 300)
    if rc != 0:
        raise HarnessError('link failed: %s\n%s' % (job.name, e[-4000:]))
    return exe, cmd


RE_UB = re.compile(r'^(?P<file>[^\s:]+):(?P<line>\d+):(?P<col>\d+): runtime error: (?P<msg>.*)$', re.M)
RE_ASAN = re.compile(r'ERROR: (Address|Leak|Thread|Memory)Sanitizer: (\S+)')
RE_FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)')


def norm_msg(m):
    m = re.sub(r'0x[0-9a-f]+', 'ADDR', m)
    m = re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?", 'N', m)
    m = re.sub(r"'[^']*'", 'T', m)
    return m.strip()


def san_reports(err, job):
    """sanitizer reports -> list of (key, detail)"""
    out = []
    for m in RE_UB.finditer(err):
        f = m.group('file')
        rel = os.path.relpath(f, REPO) if f.startswith(REPO + '/') else None
        if f.startswith(VERIF):
            rel = 'driver:' + os.path.basename(f)
        if rel is None:
            rel = 'ext:' + os.path.basename(f)
        out.append(('ubsan/%s/%s/%s' % (rel, norm_msg(m.group('msg')), job.impl), m.group(0)))
    for m in RE_ASAN.finditer(err):
        tail = err[m.start():m.start() + 20000]
        where = '?'
        for fm in RE_FRAME.finditer(tail):
            if fm.group(2).startswith(REPO + '/'):
                where = os.path.relpath(fm.group(2), REPO)
                break
        out.append(('%s/%s/%s/%s' % (m.group(1).lower() + 'san', m.group(2).rstrip(':'), where, job.impl),
                    tail[:1500].replace('\n', ' | ')))
    for m in re.finditer(r'WARNING: ThreadSanitizer: ([a-z ]+)', err):
        tail = err[m.start():m.start() + 6000]
        where = '?'
        for fm in re.finditer(r'#\d+ (.+?) (/\S+?):(\d+)', tail):
            if fm.group(2).startswith(REPO + '/'):
                where = os.path.relpath(fm.group(2), REPO)
                break
        out.append(('tsan/%s/%s/%s' % (m.group(1).strip().replace(' ', '-'), where, job.impl),
                    tail[:1500].replace('\n', ' | ')))
    return out


class Result:
    def __init__(self, job):
        self.job = job
        self.viol = []      # (key, detail)
        self.errors = []
        self.evals = self.distinct = 0
        self.ops = {}
        self.samples = []
        self.secs = 0.0
        self.buildsecs = 0.0


def execute(job, b):
    r = Result(job)
    t0 = time.time()
    try:
        exe, cmd = build(job, b)
    except CompileError as ex:
        first = re.search(r'^.*: (?:fatal )?error: .*$', str(ex), re.M)
        r.viol.append(('compile:%s/%s' % (job.src, job.impl), 'a documented use no longer compiles: ' + (first.group(0) if first else str(ex)[:500])))
        return r
    except HarnessError as ex:
        r.errors.append(str(ex))
        return r
    r.buildsecs = time.time() - t0
    t0 = time.time()
    args = [exe, str(SEED), str(int(job.scale * 100))] + job.args
    env = {'ASAN_OPTIONS': 'abort_on_error=0:detect_leaks=0:handle_segv=0:handle_abort=0:halt_on_error=1:exitcode=86:allocator_may_return_null=1',
           'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=0', 'TSAN_OPTIONS': 'halt_on_error=0:exitcode=0:second_deadlock_stack=1'}
    env.update(job.env)
    rc = out = err = None
    for attempt in (1, 2):
        rc, out, err = sh(args, job.timeout, env=env, cwd=b.tmp)
        if rc != 'timeout':
            break
    r.secs = time.time() - t0
    r.cmd = cmd + '  # + libVc objects; run: ' + ' '.join(os.path.basename(a) if i == 0 else a for i, a in enumerate(args))
    stats = None
    for line in out.splitlines():
        f = line.split('\t')
        if f[0] == 'FAIL' and len(f) >= 3:
            r.viol.append((f[1], f[2]))
        elif f[0] == 'CRASH' and len(f) >= 3:
            r.viol.append(('crash:' + f[1], f[2]))
        elif f[0] == 'OP' and len(f) >= 3:
            r.ops[f[1]] = r.ops.get(f[1], 0) + int(f[2])
        elif f[0] == 'SAMPLE' and len(f) >= 2:
            r.samples.append('%s: %s' % (job.name, f[1]))
        elif f[0] == 'STATS':
            stats = dict(x.split('=') for x in f[1:])
        elif f[0] == 'HARNESS':
            r.errors.append(job.name + ': ' + line)
    seen = set()
    for k, d in san_reports(err, job):
        if k not in seen:
            seen.add(k)
            r.viol.append((k, d))
    if stats:
        r.evals = int(stats['evals'])
        r.distinct = int(stats['distinct'])
        if r.evals <= 0:
            r.errors.append('%s: evaluated nothing' % job.name)
    if rc == 'timeout':
        m = [l for l in out.splitlines()][-1:]
        r.viol.append(('hang:%s/%s' % (job.src, job.impl), 'no end after 2 runs of %d s (a normal run takes seconds); last output: %s' % (job.timeout, m)))
    elif not stats and not r.viol:
        if isinstance(rc, int) and (rc < 0 or rc in (132, 134, 136, 139)):
            r.viol.append(('crash:%s/%s' % (job.src, job.impl), 'status %s; %s' % (rc, err[-500:])))
        else:
            r.errors.append('%s: no STATS line, status %s\n%s\n%s' % (job.name, rc, out[-1000:], err[-2000:]))
    try:
        os.unlink(exe)
    except OSError:
        pass
    return r


def load_known(prop):
    """known-findings.txt: 'known: property=C01 key=<glob> <what>' and 'fixed: property=...' lines."""
    res = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line.strip())
            if m and m.group(1) == prop:
                res.append({'key': m.group(2).replace('%20', ' '), 'what': m.group(3), 'hit': 0})
    return res


def main():
    prop = sys.argv[1]
    only = None
    for a in sys.argv[2:]:
        if a.startswith('--only='):
            only = a[7:]
    t0 = time.time()
    spec = C.CHECKS[prop]
    jobs = spec['jobs'](TIER)
    if TIER == 'quick':   # building dominates: run longer where that is nearly free
        for j in jobs:
            j.scale *= C.BOOST.get(prop, 1)
    for j in jobs:   # a fixed part of the matrix uses the later standards
        std = {0: 'c++17', 1: 'c++20'}.get(zlib.crc32(j.name.encode()) % 4)
        if std and j.std == 'c++14':
            j.std = std
            j.name += '-' + std[1:].replace('++', '')
    if only:
        jobs = [j for j in jobs if fnmatch.fnmatch(j.name, only)]
    names = [j.name for j in jobs]
    assert len(set(names)) == len(names), 'duplicate job names'
    tmp = tempfile.mkdtemp(prefix='vtb-')
    try:
        b = Builder(tmp)
        # libVc objects first: they are short and shared
        jobs.sort(key=lambda j: -j.weight)
        with ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(lambda j: execute(j, b), jobs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = load_known(prop)
    new = {}
    for r in results:
        for k, d in r.viol:
            hit = None
            for kn in known:
                if fnmatch.fnmatchcase(k, kn['key']):
                    hit = kn
                    break
            if hit:
                hit['hit'] += 1
            else:
                new.setdefault(k, []).append((r, d))
    errors = [e for r in results for e in r.errors]
    evals = sum(r.evals for r in results)
    distinct = sum(r.distinct for r in results)
    ops = {}
    for r in results:
        for k, n in r.ops.items():
            ops[k] = ops.get(k, 0) + n
    samples = []
    for r in results:
        samples += r.samples[:2]
    step = max(1, len(samples) // 12)
    samples = samples[::step][:14]
    fams = {}
    for k, n in ops.items():
        f = k.split('/')[0] if not k.startswith('/') else '/' + k[1:].split('/')[0]
        fams[f] = fams.get(f, 0) + n
    cov = {
        'evaluations': evals,
        'distinct_nontrivial': distinct,
        'rule': spec['rule'],
        'samples': samples or ['(none)'],
        'operation_x_type_x_implementation_combinations': len(ops),
        'evaluations_per_operation': fams,
        'driver_runs': [{'name': r.job.name, 'implementation': r.job.impl, 'compiler': r.job.cxx,
                         'options': ' '.join(r.job.opt), 'evaluations': r.evals, 'distinct': r.distinct,
                         'build_s': round(r.buildsecs, 1), 'run_s': round(r.secs, 1)} for r in results],
    }
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': spec.get('level', 'exploration'), 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for kn in known:
        if kn['hit'] or TIER == 'quick':
            if kn['hit']:
                print('KNOWN-FINDING: property=%s %s [%s, seen %d times]' % (prop, kn['what'], kn['key'], kn['hit']))
            else:
                print('note: listed finding not observed in this run: property=%s %s' % (prop, kn['key']))
    for e in errors:
        print('HARNESS ERROR: ' + e, file=sys.stderr)
    print('%s %s seed=%d: %d jobs, %d evaluations (%d distinct), %d op/type/impl combinations, %.1f s, %d violation keys, %d errors'
          % (prop, TIER, SEED, len(results), evals, distinct, len(ops), time.time() - t0, len(new), len(errors)))
    if os.environ.get('VT_VERBOSE'):
        for r in sorted(results, key=lambda r: -r.buildsecs)[:60]:
            print('   %-50s build %.1f run %.1f evals %d' % (r.job.name, r.buildsecs, r.secs, r.evals))
    if new:
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        rp = os.path.join(VERIF, 'evidence', 'replay', prop + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s, tier %s, VERIF_SEED=%d\n' % (prop, TIER, SEED))
            f.write('replay: cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 fw/run.py %s\n\n' % (VERIF, SEED, TIER, prop))
            for k, l in sorted(new.items()):
                f.write('== %s  (%d reports)\n' % (k, len(l)))
                for r, d in l[:3]:
                    f.write('   job %s\n   %s\n   %s\n' % (r.job.name, getattr(r, 'cmd', ''), d))
        for k, l in sorted(new.items())[:40]:
            print('  violated: %s :: %s' % (k, l[0][1][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if errors:
        return 2
    if evals == 0:
        print('nothing observed', file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
