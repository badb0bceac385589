#!/usr/bin/env python3
"""Build /repo's current tree with sanitizers, run the monitored harnesses, judge, write evidence.

usage: vf.py setup | vf.py build [ID...] | vf.py check <ID> | vf.py replay <replay file>
exit: 0 property held on everything explored; 1 violation (VIOLATION line); 2 the check itself failed
"""
import sys, os, re, json, shlex, subprocess, hashlib, time, threading, shutil, signal, queue, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS  # noqa

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
NCPU = min(8, os.cpu_count() or 8)

UBSAN = '-fsanitize=shift,integer-divide-by-zero,signed-integer-overflow,bounds,float-cast-overflow,bool,enum,return,unreachable'
COMMON = '-g1 -fno-omit-frame-pointer -w -DPOTHOS_VERIF'
FLAVORS = {
    'asan': f'-O1 {COMMON} -fsanitize=address {UBSAN}',
    'tsan': f'-O1 {COMMON} -fsanitize=thread',
}
COV = '-fsanitize-coverage=trace-pc'
LIBS = '-lPocoFoundation -lPocoNet -lPocoUtil -lPocoXML -lPocoJSON -lmuparserx -lnuma -lpthread -ldl -lrt'


class Fail(Exception):
    pass


def log(*a):
    print('[vf]', *a, file=sys.stderr, flush=True)


def clean_env():
    e = dict(os.environ)
    for k in ('LD_LIBRARY_PATH', 'CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'DESTDIR', 'POTHOS_ROOT', 'LD_PRELOAD', 'XDG_DATA_HOME', 'XDG_CONFIG_HOME', 'APPDATA'):
        e.pop(k, None)
    e['LC_ALL'] = 'C.UTF-8'
    return e


def configure():
    cfg = os.path.join(B, 'cfg')
    os.makedirs(cfg, exist_ok=True)
    cmd = ['cmake', '-S', REPO, '-B', cfg, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
           '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_CXX_COMPILER=/usr/bin/g++',
           '-DCMAKE_C_FLAGS=-Wno-error', '-DCMAKE_CXX_FLAGS=-Wno-error',
           '-DCMAKE_INSTALL_PREFIX=' + os.path.join(B, 'root'), '-DCMAKE_INSTALL_LIBDIR=lib',
           '-DENABLE_LIBRARY_DOCS=OFF', '-DPOTHOS_EXTVER=local', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON']
    if os.path.exists('/opt/vp/cmake/no-simdpp.cmake'):
        cmd.append('-DCMAKE_PROJECT_INCLUDE=/opt/vp/cmake/no-simdpp.cmake')
    r = subprocess.run(cmd, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        shutil.rmtree(cfg, ignore_errors=True)
        os.makedirs(cfg)
        r = subprocess.run(cmd, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Fail('cmake configure failed:\n' + r.stdout[-3000:])
    return json.load(open(os.path.join(cfg, 'compile_commands.json')))


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'include'), os.path.join(REPO, 'lib'), os.path.join(V, 'harness')):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0')
                try:
                    h.update(open(p, 'rb').read())
                except OSError:
                    pass
    h.update(open(os.path.abspath(__file__), 'rb').read())
    return h.hexdigest()


def q(s):
    return shlex.quote(s).replace('$', '$$')


def gen_ninja(flavor, cc, harnesses):
    out = os.path.join(B, flavor)
    os.makedirs(out, exist_ok=True)
    flags = FLAVORS[flavor]
    ccache = '/usr/bin/ccache ' if os.path.exists('/usr/bin/ccache') else ''
    n = ['ninja_required_version = 1.5\nbuilddir = %s\n' % out,
         'rule cc\n  command = $cmd\n  description = CC $out\n  depfile = $out.d\n  deps = gcc\n',
         'rule sh\n  command = $cmd\n  description = LD $out\n  rspfile = $out.rsp\n  rspfile_content = $in\n']
    objs = []
    incs = None
    std = None
    for x in cc:
        f = x['file']
        if '/apps/' in f:
            continue
        b = os.path.basename(f)
        if re.match(r'Tests?[A-Z.]', b) and b != 'Testing.cpp':
            continue
        c = shlex.split(x['command'])
        i = c.index('-o')
        del c[i:i + 2]
        if '-c' in c:
            i = c.index('-c')
            del c[i:i + 2]
        c = [a for a in c if a not in ('-O2', '-O3', '-g') and not a.startswith('-W')]
        cxx = c[0]
        o = os.path.join(out, 'o', re.sub(r'[^A-Za-z0-9.]', '_', os.path.relpath(f, '/'))) + '.o'
        objs.append(o)
        cmd = ccache + ' '.join(q(a) for a in c + shlex.split(flags) + [COV, '-c', f, '-o', o, '-MMD', '-MF', o + '.d'])
        n.append(f'build {o}: cc {f}\n  cmd = {cmd}\n')
        if '/lib/Framework/' in f and incs is None:
            incs = [a for a in c[1:] if a.startswith('-I') or a.startswith('-isystem') or a.startswith('-std') or (a.startswith('-D') and 'EXPORTS' not in a and 'POTHOS_DLL' not in a)]
    m = re.search(r'POTHOS_LIBRARY_NAME=\\*"([^"\\]+)', json.dumps([x['command'] for x in cc if '/lib/' in x['file']]).replace('\\"', '"'))
    open(os.path.join(out, 'libname'), 'w').write(m.group(1) if m else 'libPothos.so')
    lib = os.path.join(out, 'libPothos.so')
    n.append(f'build {lib}: sh {" ".join(objs)}\n  cmd = g++ -shared -o {lib} @{lib}.rsp {flags} -fuse-ld=lld {LIBS}\n')
    shim = os.path.join(out, 'shim.o')
    n.append(f'build {shim}: cc {V}/harness/shim.c\n  cmd = {ccache}gcc -O2 -g1 -fPIC {"-DVF_TSAN" if flavor == "tsan" else ""} -c {V}/harness/shim.c -o {shim} -MMD -MF {shim}.d\n')
    mod = os.path.join(out, 'vfmod.so')
    n.append(f'build {mod}: cc {V}/harness/mod.c\n  cmd = gcc -O1 -fPIC -shared {V}/harness/mod.c -o {mod} -MMD -MF {mod}.d\n')
    targets = [mod]
    for hname in harnesses:
        src = f'{V}/harness/{hname}.cpp'
        o = os.path.join(out, 'h_' + hname + '.o')
        exe = os.path.join(out, hname)
        cmd = ccache + ' '.join(q(a) for a in ['g++'] + incs + [f'-I{V}/harness'] + shlex.split(flags) + ['-c', src, '-o', o, '-MMD', '-MF', o + '.d'])
        n.append(f'build {o}: cc {src}\n  cmd = {cmd}\n')
        n.append(f'build {exe}: sh {o} {shim} | {lib}\n  cmd = g++ -fuse-ld=lld -rdynamic -o {exe} {o} {shim} {flags} {lib} -Wl,-rpath,{out} {LIBS}\n')
        targets.append(exe)
    open(os.path.join(out, 'build.ninja'), 'w').write(''.join(n))
    return out, targets


def build(needs):
    """needs: {flavor: set(harness)}"""
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    cc = configure()
    th = tree_hash()
    env = clean_env()
    env.update(CCACHE_DIR=os.path.join(B, 'ccache'), CCACHE_MAXSIZE='20G', CCACHE_NOHASHDIR='1', CCACHE_COMPILERCHECK='content')
    for flavor, hs in needs.items():
        # keep targets already known to this build dir out of it: only build what is asked for
        out, targets = gen_ninja(flavor, cc, sorted(hs))
        stamp = os.path.join(out, 'tree.sha')
        old = open(stamp).read() if os.path.exists(stamp) else ''
        if old != th:
            # contents changed: never trust timestamps (the compiler cache makes this cheap)
            shutil.rmtree(os.path.join(out, 'o'), ignore_errors=True)
            for f in os.listdir(out):
                if f.endswith('.o') or f == '.ninja_deps' or f == '.ninja_log' or f == 'libPothos.so':
                    os.unlink(os.path.join(out, f))
            open(stamp, 'w').write(th)
        r = subprocess.run(['ninja', '-C', out] + targets, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Fail(f'build of {flavor} failed:\n' + '\n'.join(l for l in r.stdout.splitlines() if not re.match(r'\[\d+/', l))[:5000])
    log('build %.1fs' % (time.time() - t0), {k: sorted(v) for k, v in needs.items()})


# ---------------------------------------------------------------------------------------------- running

def run_env(flavor, job, scratch):
    e = clean_env()
    e['HOME'] = os.path.join(scratch, 'home')
    e['TMPDIR'] = os.path.join(scratch, 'tmp')
    e['POTHOS_ROOT'] = os.path.join(scratch, 'root')
    e['GLIBC_TUNABLES'] = 'glibc.cpu.hwcaps=-MOVBE'
    for d in (e['HOME'], e['TMPDIR'], e['POTHOS_ROOT']):
        os.makedirs(d, exist_ok=True)
    util = os.path.join(e['POTHOS_ROOT'], 'bin', 'PothosUtil')
    if not os.path.exists(util):
        os.makedirs(os.path.dirname(util), exist_ok=True)
        open(util, 'w').write('#!/bin/sh\nexit 1\n')
        os.chmod(util, 0o755)
        os.makedirs(os.path.join(e['POTHOS_ROOT'], 'include'), exist_ok=True)
        os.makedirs(os.path.join(e['POTHOS_ROOT'], 'lib'), exist_ok=True)
        os.symlink(os.path.join(B, flavor, 'libPothos.so'), os.path.join(e['POTHOS_ROOT'], 'lib', open(os.path.join(B, flavor, 'libname')).read()))
    lg = os.path.join(scratch, 'san')
    e['ASAN_OPTIONS'] = f'abort_on_error=0:exitcode=77:detect_leaks={1 if job.get("leaks") else 0}:log_path={lg}:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb={job.get("alloc_mb", 4096)}:print_legend=0:print_suppressions=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=0'
    e['LSAN_OPTIONS'] = f'exitcode=78:suppressions={V}/tools/lsan.supp:print_suppressions=0'
    e['TSAN_OPTIONS'] = f'exitcode=0:halt_on_error=0:log_path={lg}:history_size=4:suppressions={V}/tools/tsan.supp:report_signal_unsafe=0:handle_abort=1:detect_deadlocks=0'
    e.update(job.get('env', {}))
    return e


FRAME = re.compile(r'^\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?)(?: (/[^ ]+?)(?::(\d+))?(?::\d+)?)?(?: \(.*\))?$')


def frames(text):
    out = []
    for l in text.splitlines():
        m = FRAME.match(l)
        if m:
            out.append((m.group(1).strip(), m.group(2) or ''))
        elif out and not l.strip():
            break
    return out


def fn(s):
    s = re.sub(r'\(.*', '', s)
    s = re.sub(r'<.*', '', s)
    return s.strip().split(' ')[-1]


def top_repo_frames(text, k=2):
    r = []
    for f, p in frames(text):
        if p.startswith(REPO + '/lib') or p.startswith(REPO + '/include'):
            r.append(fn(f))
        if len(r) >= k:
            break
    return '<'.join(r) or 'unknown'


def parse_san(text):
    """-> list of (key, report)"""
    out = []
    for rep in re.split(r'(?m)^={10,}\s*$', text):
        m = re.search(r'ERROR: AddressSanitizer:? (\S+)', rep)
        if m:
            kind = m.group(1)
            if kind in ('SEGV', 'ABRT', 'FPE', 'BUS', 'ILL') or kind.startswith('unknown'):
                kind = kind
            out.append((f'asan:{kind}:{top_repo_frames(rep)}', rep))
            continue
        m = re.search(r'ERROR: LeakSanitizer', rep)
        if m:
            out.append((f'lsan:{top_repo_frames(rep)}', rep))
            continue
        m = re.search(r'(?:WARNING|ERROR): ThreadSanitizer: ([^(\n]+)', rep)
        if m:
            kind = re.sub(r' on unknown address.*', '', m.group(1)).strip().replace(' ', '-')
            secs = re.split(r'\n\s*\n', rep)
            # only the two access stacks decide identity
            tops = []
            for s in secs[:2]:
                fr = frames(s[s.find('#0'):] if '#0' in s else s)
                t = next((fn(f) for f, p in fr if p.startswith(REPO)), None)
                if t is None:
                    t = next((fn(f) for f, p in fr if '/harness/' in p), 'ext')
                    t = 'h:' + t
                tops.append(t)
            out.append((f'tsan:{kind}:' + '|'.join(sorted(tops)), rep))
    return out


def parse_ubsan(text):
    out = {}
    for m in re.finditer(r'^(\S+?):(\d+):(\d+): runtime error: (.*)$', text, re.M):
        f = m.group(1)
        if '/harness/' in f:
            continue  # never expected; harness UB is a harness bug
        msg = re.sub(r'-?\d[\d.e+]*', 'N', m.group(4))
        # key by file and kind, not by line
        key = f'ubsan:{os.path.basename(f)}:{msg[:60]}'
        out.setdefault(key, text[m.start():m.start() + 1500])
    return list(out.items())


class Job:
    def __init__(self, check, spec, first, count, idx):
        self.check, self.spec, self.first, self.count, self.idx = check, spec, first, count, idx


# once something is known to be wrong, the rest of the run only adds examples: it is given GRACE more seconds;
# LIMIT bounds a quick run whose cases all wait for something that never comes
GRACE, LIMIT = (90, 780) if TIER == 'quick' else (1800, 1 << 30)


class Stop:
    def __init__(self, known):
        self.t0, self.bad, self.known, self.used = time.time(), None, known, False

    def saw(self, key):
        if self.bad is None and not any(rx.search(key) for rx, _ in self.known):
            self.bad = time.time()

    def now(self):
        t = time.time()
        if t - self.t0 > LIMIT or (self.bad and t - self.bad > GRACE):
            self.used = True
            return True
        return False


def run_proc(check, spec, first, count, tag, scratch_root, stop):
    """Run one harness process. Returns dict(violations, stats, status)"""
    scratch = tempfile.mkdtemp(prefix=tag + '.', dir=scratch_root)
    out = os.path.join(B, spec['flavor'])
    cmd = [os.path.join(out, spec['harness']), '--seed', str(SEED), '--mode', spec['mode'], '--first', str(first), '--count', str(count), '--tier', TIER]
    if spec.get('perturb'):
        lp, ep, us = spec['perturb']
        cmd += ['--lockprob', str(lp), '--edgeperiod', str(ep), '--maxus', str(us)]
    if spec.get('maxbad'):
        cmd += ['--maxbad', str(spec['maxbad'])]
    env = run_env(spec['flavor'], spec, scratch)
    quiet = spec.get('case_timeout', 150)
    errp = os.path.join(scratch, 'stderr')
    res = dict(violations=[], stats=None, status='ok', last=first - 1, cmd=cmd, hang=False)
    with open(errp, 'wb') as ef:
        p = subprocess.Popen(cmd, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=ef, start_new_session=True)
    last_line = [time.time()]
    done = threading.Event()

    def reader():
        for raw in p.stdout:
            last_line[0] = time.time()
            l = raw.decode('utf-8', 'replace').rstrip('\n')
            if l.startswith('@@C '):
                res['last'] = int(l[4:])
            elif l.startswith('@@V '):
                d = json.loads(l[4:])
                res['violations'].append((d['key'], d['case'], d['detail']))
                stop.saw(d['key'])
            elif l.startswith('@@S '):
                res['stats'] = json.loads(l[4:])
            elif l.startswith('@@E'):
                res['ended'] = True
        done.set()
    th = threading.Thread(target=reader, daemon=True)
    th.start()
    while not done.wait(0.2):
        if time.time() - last_line[0] > quiet:
            res['hang'] = True
            break
        if stop.now():
            res['stopped'] = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            break
    bt = ''
    if res['hang']:
        try:
            bt = subprocess.run(['gdb', '-p', str(p.pid), '-batch', '-ex', 'thread apply all bt 12'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60).stdout
        except Exception:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    try:
        p.wait(timeout=60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    th.join(5)
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    err = open(errp, errors='replace').read()
    san = ''
    for f in sorted(os.listdir(scratch)):
        if f.startswith('san.'):
            san += open(os.path.join(scratch, f), errors='replace').read() + '\n'
    res['err'] = err[-4000:]
    case = res['last']
    if res['last'] < first and p.returncode != 0 and not res.get('stopped'):
        # never reached its first case: the harness could not start, which says nothing about the property
        res['status'] = 'error'
        res['err'] = err[-2000:] + san[-2000:]
        res['violations'] = []
        shutil.rmtree(scratch, ignore_errors=True)
        return res
    for key, rep in parse_san(san):
        res['violations'].append((key, case, rep[:6000]))
    for key, rep in parse_ubsan(err + '\n' + san):
        res['violations'].append((key, case, rep[:3000]))
    rc = p.returncode
    for v in res['violations']:
        stop.saw(v[0])
    if res.get('stopped'):
        res['status'] = 'stopped'
    elif res['hang']:
        res['status'] = 'hang'
        res['bt'] = bt[-8000:]
    elif rc == 3:
        res['status'] = 'error'
    elif rc != 0 or not res.get('ended'):
        res['status'] = 'crash'
        if not any(v[0].startswith(('asan:', 'lsan:', 'tsan:')) for v in res['violations']):
            nm = signal.Signals(-rc).name if rc and rc < 0 else 'rc%s' % rc
            what = ''
            m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
            if m:
                what = ':' + m.group(1)
            if nm == 'SIGKILL' or res['last'] < first:
                res['status'] = 'error'  # killed from outside (memory): not a verdict
            else:
                res['violations'].append((f'crash:{spec["mode"]}:{nm}{what}', case, err[-3000:]))
    shutil.rmtree(scratch, ignore_errors=True)
    return res


def run_shard(check, spec, first, count, idx, scratch_root, sink, stop):
    """Run cases [first, first+count), restarting after crashes/hangs."""
    nxt, end = first, first + count
    crashes = 0
    merged = []
    while nxt < end:
        if stop.now():
            sink['truncated'] += end - nxt
            break
        r = run_proc(check, spec, nxt, end - nxt, '%s_%s_%d' % (check, spec['mode'], idx), scratch_root, stop)
        for v in r['violations']:
            sink['violations'].append(dict(key=v[0], case=v[1], detail=v[2], spec=spec, cmd=r['cmd']))
        if r['stats']:
            merged.append(r['stats'])
        if r['status'] == 'ok':
            break
        if r['status'] == 'stopped':
            sink['truncated'] += max(0, end - r['last'])
            break
        if r['status'] == 'error':
            sink['errors'].append(f'{spec["harness"]}/{spec["mode"]}: harness error: {r["err"][-800:]}')
            break
        crashes += 1
        sink['lost_cases'] += 1
        sink['cases_extra'] += max(0, r['last'] - nxt)
        if r['status'] == 'hang':
            # inconclusive until the same case fails to finish again, alone
            r2 = run_proc(check, spec, r['last'], 1, '%s_%s_%d_re' % (check, spec['mode'], idx), scratch_root, stop)
            for v in r2['violations']:
                sink['violations'].append(dict(key=v[0], case=v[1], detail=v[2], spec=spec, cmd=r2['cmd']))
            if r2['status'] == 'hang':
                sink['violations'].append(dict(key=f'hang:{spec["mode"]}', case=r['last'], detail='case did not finish, twice\n' + r2.get('bt', '')[-6000:], spec=spec, cmd=r2['cmd']))
                crashes += 2
                stop.saw(f'hang:{spec["mode"]}')
            else:
                sink['inconclusive'] += 1
        nxt = r['last'] + 1
        if crashes >= 3:
            sink['truncated'] += end - nxt
            break
    sink['stats'].extend([(spec, s) for s in merged])


def load_known(cid):
    known = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=/(.*)/ :: (.*)$', l.strip())
            if m and m.group(1) == cid:
                known.append((re.compile(m.group(2)), m.group(3)))
    return known


def check(cid):
    t0 = time.time()
    C = CHECKS[cid]
    specs = []
    for s in C['jobs']:
        s = dict(s)
        s.setdefault('flavor', 'asan')
        s.setdefault('harness', C['harness'])
        n = s[TIER] if TIER in s else s['quick'] * 10
        if not n:
            continue
        s['n'] = n
        specs.append(s)
    needs = {}
    for s in specs:
        needs.setdefault(s['flavor'], set()).add(s['harness'])
    warm = os.path.isdir(os.path.join(B, 'ccache'))
    build(needs)
    tb = time.time() - t0
    scratch_root = tempfile.mkdtemp(prefix='vf_%s_' % cid)
    sink = dict(violations=[], errors=[], stats=[], lost_cases=0, inconclusive=0, truncated=0, cases_extra=0)
    stop = Stop(load_known(cid))
    stop.t0 = t0
    shards = []
    for s in specs:
        k = min(s.get('shards', NCPU), s['n'])
        per = (s['n'] + k - 1) // k
        i = 0
        first = 0
        while first < s['n']:
            shards.append((s, first, min(per, s['n'] - first), len(shards)))
            first += per
    # big-first is unknown; interleave the modes so that the machine stays busy
    work = queue.Queue()
    for x in shards:
        work.put(x)
    par = C.get('parallel', NCPU)

    def worker():
        while True:
            try:
                s, f, n, i = work.get_nowait()
            except queue.Empty:
                return
            try:
                run_shard(cid, s, f, n, i, scratch_root, sink, stop)
            except Exception as ex:
                sink['errors'].append(repr(ex))
    ts = [threading.Thread(target=worker) for _ in range(par)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(scratch_root, ignore_errors=True)

    known = load_known(cid)
    new, knownhits = {}, {}
    for v in sink['violations']:
        hit = None
        for rx, what in known:
            if rx.search(v['key']):
                hit = what
        if hit:
            knownhits.setdefault(hit, v)
        else:
            new.setdefault(v['key'], []).append(v)

    evaluations = sum(s['cases'] for _, s in sink['stats']) + sink['cases_extra']
    distinct = set()
    counts, samples, modes = {}, [], {}
    edges = {}
    perturb = 0
    for spec, s in sink['stats']:
        tag = spec['flavor'] + '/' + spec['mode']
        m = modes.setdefault(tag, dict(cases=0, edges=0, perturbations=0, distinct=0))
        m['cases'] += s['cases']
        m['edges'] = max(m['edges'], s['edges'])
        m['perturbations'] += s['perturbations']
        m.setdefault('_d', set()).update(s['distinct'])
        distinct.update(spec['mode'] + ':' + x for x in s['distinct'])
        for k, n in s['counts'].items():
            if k.startswith('max_'): counts[k] = max(counts.get(k, 0), n)
            else: counts[k] = counts.get(k, 0) + n
        for x in s['samples']:
            if len([1 for y in samples if y.startswith(tag)]) < 2:
                samples.append(tag + ': ' + x)
    for m in modes.values():
        m['distinct'] = len(m.pop('_d'))
    ev = dict(property=cid, tier=TIER, seed=SEED, level=C.get('level', 'exploration'),
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=C['rule'],
                            samples=samples[:12] or ['none'], observed=counts, modes=modes,
                            inconclusive_cases=sink['inconclusive'], lost_cases=sink['lost_cases'], truncated_cases=sink['truncated'],
                            known_findings_seen=sorted(knownhits), build_s=round(tb, 1), warm_cache=warm),
              assumptions=C.get('assumptions', []), wall_s=round(time.time() - t0, 2),
              violations=len(new))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', cid + '.json'), 'w'), indent=1)

    for what in sorted(knownhits):
        print(f'KNOWN-FINDING: property={cid} {what}')
    if new:
        rd = os.path.join(V, 'replay')
        os.makedirs(rd, exist_ok=True)
        for i, (key, vs) in enumerate(sorted(new.items())):
            path = os.path.join(rd, '%s-%02d.json' % (cid, i))
            v = vs[0]
            cmd = list(v['cmd'])
            if v['case'] is not None and v['case'] >= 0:
                cmd[cmd.index('--first') + 1] = str(v['case'])
                cmd[cmd.index('--count') + 1] = '1'
            json.dump(dict(property=cid, key=key, times=len(vs), case=v['case'], seed=SEED, mode=v['spec']['mode'],
                           flavor=v['spec']['flavor'], rebuild=f'python3 tools/vf.py build {cid}', command=cmd, detail=v['detail']), open(path, 'w'), indent=1)
            if i < 12: log('violation', key, 'x%d' % len(vs), '\n    ' + v['detail'][:400].replace('\n', '\n    '))
            if i < 10:
                print(f'VIOLATION property={cid} replay={path} key={key}')
        log('wall %.1fs' % (time.time() - t0))
        sys.exit(1)
    if stop.used:
        log('ERROR: out of time, %d cases not run' % sink['truncated'])
        sys.exit(2)
    if sink['errors']:
        for e in sink['errors'][:5]:
            log('ERROR', e)
        sys.exit(2)
    miss = [k for k in C.get('require', []) if counts.get(k, 0) <= 0]
    if miss or evaluations == 0:
        log('ERROR: monitors observed nothing for', miss, 'evaluations', evaluations)
        sys.exit(2)
    log('ok %s: %d cases, %d distinct, %.1fs (build %.1fs)' % (cid, evaluations, len(distinct), time.time() - t0, tb))
    sys.exit(0)


def needs_of(ids):
    needs = {}
    for c in ids:
        C = CHECKS[c]
        for s in C['jobs']:
            needs.setdefault(s.get('flavor', 'asan'), set()).add(s.get('harness', C['harness']))
    return needs


def main():
    a = sys.argv[1:]
    try:
        if a[0] == 'setup':
            build(needs_of(CHECKS))
        elif a[0] == 'build':
            build(needs_of(a[1:] or CHECKS))
        elif a[0] == 'check':
            check(a[1])
        elif a[0] == 'replay':
            # re-run the recorded case of a replay file against the current tree, output to the terminal
            d = json.load(open(a[1]))
            cid = d['property']
            build({d['flavor']: {os.path.basename(d['command'][0])}})
            spec = next((s for s in CHECKS[cid]['jobs'] if s['mode'] == d['mode'] and s.get('flavor', 'asan') == d['flavor']), {})
            scratch = tempfile.mkdtemp(prefix='vf_replay_')
            env = run_env(d['flavor'], dict(spec), scratch)
            for k in ('ASAN_OPTIONS', 'TSAN_OPTIONS'):
                env[k] = re.sub(r'log_path=[^:]*:', '', env[k])
            r = subprocess.run(shlex.split(os.environ.get('VF_WRAP', '')) + d['command'] + a[2:], env=env, cwd=scratch)
            shutil.rmtree(scratch, ignore_errors=True)
            sys.exit(r.returncode)
        else:
            raise Fail('usage')
    except Fail as e:
        log('ERROR', e)
        sys.exit(2)


main()
