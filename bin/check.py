#!/usr/bin/env python3
"""Decides one property of /repo by running its real code under monitors.

  check.py ID [quick|thorough]      (or VERIF_TIER; VERIF_SEED seeds every choice)
  check.py --replay FILE            runs the one case a violation was seen in
  check.py --list

Builds the harnesses the property needs from /repo's working tree, runs them in
parallel shards, and merges what their monitors observed.
Exit 0: held on everything explored.  Exit 1: VIOLATION lines.  Other: the check failed.
"""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
NCPU = max(2, min(os.cpu_count() or 8, 16))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PROPS, HARNESSES, BUILDS, KINDS, MODE98  # noqa: E402


class CheckError(Exception):
    pass


def env_for(extra=None):
    e = {k: v for k, v in os.environ.items()
         if k not in ('CPATH', 'CPLUS_INCLUDE_PATH', 'CXXFLAGS', 'CPPFLAGS', 'LD_PRELOAD', 'GCC_EXEC_PREFIX')}
    e['PATH'] = '/usr/local/bin:/usr/bin:/bin'
    e['LC_ALL'] = 'C'
    e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:'
                         'detect_stack_use_after_return=1:quarantine_size_mb=64')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    e['MSAN_OPTIONS'] = 'exitcode=98'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:second_deadlock_stack=1'
    if extra:
        e.update(extra)
    return e


# ---------------------------------------------------------------- building

def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'ttl'), HARN, os.path.join(VERIF, 'bin')):
        for root, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.pyc') or f == 'mkdocs.py':
                    continue
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, base).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def compile_one(dirname, h, part, build, seed=1):
    """-> (path or None, output)"""
    b = BUILDS[build]
    if 'units' in b:
        return compile_units(dirname, h, part, build, seed)
    src = HARNESSES[h].get('src', 'h_' + h + '.cpp')
    out = os.path.join(dirname, '%s.%d.%s' % (h, part, build))
    if os.path.exists(out):
        return out, ''
    common = ['-I' + REPO, '-I' + HARN, '-w']
    cmds, objs = [], []
    for extra in HARNESSES[h].get('cxx98', []):  # parts in the older language
        objs.append('%s.%s.o' % (out, extra))
        cmds.append(b['cxx'] + [f for f in b['flags'] if not f.startswith('-std=') and f not in MODE98] + ['-std=gnu++98'] + common +
                    ['-c', os.path.join(HARN, extra), '-o', objs[-1]])
    cmds.append(b['cxx'] + b['flags'] + HARNESSES[h].get('flags', []) + common +
                ['-DMON_PART=%d' % part, os.path.join(HARN, src)] + objs + ['-o', out + '.tmp'] + b.get('link', []))
    for cmd in cmds:
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                               env=env_for(), timeout=700)
        except subprocess.TimeoutExpired:
            raise CheckError('compilation of %s (%s) did not finish' % (h, build))
        if p.returncode != 0:
            return None, ' '.join(cmd) + '\n' + p.stdout
    os.rename(out + '.tmp', out)
    return out, ''


NEEDED = ['utility', 'algorithm', 'functional']  # headers whose features the others use when their own need them


def unit_sources(part, seed):
    """The units of a program: (name, what it includes in which order, the features it uses)."""
    headers = sorted(f[:-4] for f in os.listdir(os.path.join(REPO, 'ttl')) if f.endswith('.hpp'))
    feats = [h for h in headers if h not in ('ttl', 'types', 'slist_node')]
    rnd = random.Random('%d/%d' % (seed, part))
    units = []
    for h in feats:
        rest = [x for x in NEEDED if x != h]
        rnd.shuffle(rest)
        units.append((h + ' first', [h] + rest, [h] + rest))
    whole = [h for h in feats if h not in ('numeric', 'rbtree')]
    units.append(('ttl.hpp', ['ttl'], whole))
    for i in range(3):
        o = feats + feats + ['ttl', 'types', 'slist_node']
        rnd.shuffle(o)
        units.append(('all headers, order %d' % i, o, feats))
    for i in range(5):
        n = rnd.randrange(2, 8)
        o = list(dict.fromkeys(rnd.sample(feats, n) + rnd.sample(['types', 'slist_node'], rnd.randrange(0, 3)) + NEEDED))
        rnd.shuffle(o)
        units.append(('%d headers, order %d' % (len(o), i), o, [h for h in o if h in feats]))
    return headers, units


def compile_units(dirname, h, part, build, seed):
    """Builds a program of many units."""
    b = BUILDS[build]
    out = os.path.join(dirname, '%s.%d.%s.%d' % (h, part, build, seed))
    if os.path.exists(out):
        return out, ''
    d = out + '.src'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    headers, units = unit_sources(part, seed)
    inc = ['-I' + d, '-I' + REPO, '-I' + HARN]
    cmds, objs = [], []

    def source(name, text):
        with open(os.path.join(d, name), 'w') as f:
            f.write(text)
        return os.path.join(d, name)
    cc = b['units'] + inc + ['-w']
    for x in headers:  # nothing else around
        cmds.append(('%s.hpp alone' % x, cc + ['-fsyntax-only', source('alone_%s.cpp' % x, '#include "ttl/%s.hpp"\n' % x)]))
    for i, (what, order, feats) in enumerate(units):
        text = ''.join('#include "ttl/%s.hpp"\n' % x for x in order) + ''.join('#define HAS_%s\n' % x for x in feats)
        if b.get('outline') and i == 0:
            text = '#define RBTREE_INCLUDE_INLINEABLE 1\n#include "ttl/rbtree.hpp"\n' + text
        # the units with everything are among those that instantiate
        text += '#define U_INST %d\n' % (1 if what.startswith('all') else (0, 2, 1, 0, 2)[i % 5])
        src = source('unit_%d.cpp' % i, text + '#define UNIT_NAME unit_%d\n#include "unit_body.hpp"\n' % i)
        objs.append(src[:-4] + '.o')
        each = b['units_each'][i % len(b['units_each'])] + inc + ['-w'] if b.get('units_each') else cc
        cmds.append((what, each + ['-c', src, '-o', objs[-1]]))
    table = '#include "unit_api.hpp"\nextern "C" {\n'
    table += ''.join('int unit_%d(UnitCall *);\n' % i for i in range(len(units)))
    table += 'extern const int unit_count = %d;\nUnitInfo unit_table[] = {\n' % len(units)
    table += ''.join('{unit_%d, "%s"},\n' % (i, u[0]) for i, u in enumerate(units)) + '};\n}\n'
    src = source('table.cpp', table)
    objs.append(src[:-4] + '.o')
    cmds.append(('table', cc + ['-c', src, '-o', objs[-1]]))
    if b.get('bare'):
        cmds.append(('rt', cc + ['-fno-builtin', '-c', os.path.join(HARN, 'unit_rt.cpp'), '-o', os.path.join(d, 'rt.o')]))
    driver = b['cxx'] + b['flags'] + ['-I' + HARN, '-w', '-c', os.path.join(HARN, HARNESSES[h]['src']), '-o', os.path.join(d, 'driver.o')]
    cmds.append(('driver', driver))

    def go(c):
        p = subprocess.run(c[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env_for(), timeout=700)
        return (c, p.stdout) if p.returncode else None
    try:
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(go, cmds):
                if r is not None:
                    return None, '%s: %s\n%s' % (r[0][0], ' '.join(r[0][1]), r[1])
        link = []
        if b.get('bare'):  # the units must be satisfied with what rt.o has
            so = out + '.so'
            hooks = os.path.join(d, 'libhooks.so')
            link.append(('hooks', b['cxx'] + ['-shared', '-fPIC', '-I' + HARN, '-x', 'c++', source('hooks.cpp', HOOKS), '-o', hooks,
                                              '-Wl,-soname,libhooks.so']))
            link.append(('link', b['units'][:1] + ['-shared', '-nostdlib', '-Wl,-Bsymbolic,-z,defs'] + objs +
                         [os.path.join(d, 'rt.o'), hooks, '-lgcc', '-o', so, '-Wl,-rpath,' + d]))
            link.append(('link', b['cxx'] + b['flags'] + ['-rdynamic', os.path.join(d, 'driver.o'), so, hooks, '-o', out + '.tmp',
                                                          '-Wl,-rpath,' + dirname + ':' + d]))
        else:
            link.append(('link', b['cxx'] + b['flags'] + [os.path.join(d, 'driver.o')] + objs + ['-o', out + '.tmp']))
        for c in link:
            r = go(c)
            if r is not None:
                return None, '%s: %s\n%s' % (r[0][0], ' '.join(r[0][1]), r[1])
    except subprocess.TimeoutExpired:
        raise CheckError('compilation of %s (%s) did not finish' % (h, build))
    os.rename(out + '.tmp', out)
    return out, ''


HOOKS = '#include "unit_api.hpp"\nextern "C" { UnitHooks unit_hooks; }\n'


def control_compiles(dirname, build):
    """Whether the compiler and the monitors work without the code under test."""
    b = BUILDS[build]
    if 'units' in b:
        src = os.path.join(dirname, 'control.%s.cpp' % build)
        with open(src, 'w') as f:
            f.write('#define UNIT_NAME unit_0\n#include "unit_body.hpp"\n')
        cmd = b['units'] + ['-I' + HARN, '-w', '-c', src, '-o', src + '.o']
        if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env_for(), timeout=700).returncode:
            return False
    out = os.path.join(dirname, 'control.' + build)
    cmd = b['cxx'] + [f for f in b['flags'] if f not in MODE98] + ['-I' + HARN, '-w', os.path.join(HARN, 'control.cpp'), '-o', out] + b.get('link', [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env_for(), timeout=700)
        if p.returncode:
            sys.stderr.write(p.stdout[-3000:])
            return False
        p = subprocess.run([out, '--count', '2'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=env_for(), timeout=300)
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        return False


# ---------------------------------------------------------------- known findings

def known_findings():
    known = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    for line in open(p):
        line = line.strip()
        m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line)
        if m:
            known[(m.group(1), m.group(2))] = m.group(3)
    return known


# ---------------------------------------------------------------- running

class Runner:
    def __init__(self, prop, tier, seed, known):
        self.prop, self.tier, self.seed, self.known = prop, tier, seed, known
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.mem = threading.Condition()
        self.free = self.most = max(0, available() - 4) # GB for what needs much
        self.skipped = 0
        self.results = []
        self.errors = []
        self.tmp = tempfile.mkdtemp(prefix='ttlcheck.')

    def shard(self, exe, job, start, count):
        need = job.get('mem', 0)
        if not need:
            return self.run_shard(exe, job, start, count)
        with self.mem:
            # there is, or may soon be, somebody else who needs it
            patience = 30 if need <= self.most else 0
            while patience and (self.free < need or available() < need + 2):
                self.mem.wait(4)
                if self.free == self.most:
                    patience -= 1
            if not patience:
                self.skipped += count
                return None
            self.free -= need
        try:
            return self.run_shard(exe, job, start, count)
        finally:
            with self.mem:
                self.free += need
                self.mem.notify_all()

    def run_shard(self, exe, job, start, count):
        if self.stop.is_set():
            return None
        out = os.path.join(self.tmp, 'o%x' % (abs(hash((exe, job['profile'], job['kinds'], start, count))) & 0xffffffffffff))
        cmd = [exe, '--seed', str(self.seed), '--start', str(start), '--count', str(count),
               '--kinds', str(job['kinds']), '--profile', job['profile'], '--out', out, '--states', out + '.st',
               '--scale', str(job.get('scale', 1)), '--cpu', str(HARNESSES[job['h']].get('cpu', 10))]
        pre = BUILDS[job['build']].get('run', [])
        b_env = BUILDS[job['build']].get('env')
        last = ''
        for attempt in range(3):
            try:
                p = subprocess.run(pre + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                                   env=env_for(b_env), timeout=1500 if self.tier == 'quick' else 6000)
            except subprocess.TimeoutExpired:
                raise CheckError('%s: shard did not finish (inconclusive)' % os.path.basename(exe))
            last = 'exit %d: %s' % (p.returncode, p.stderr[-1500:])
            if p.returncode in (0, 1) and os.path.exists(out):
                break
        else:
            raise CheckError('%s: %s' % (os.path.basename(exe), last))
        j = json.load(open(out))
        os.unlink(out)
        if j['error']:
            raise CheckError('%s: monitor error %s' % (os.path.basename(exe), last))
        st = b''
        if os.path.exists(out + '.st'):
            st = open(out + '.st', 'rb').read()
            os.unlink(out + '.st')
        if any((self.prop, v['key']) not in self.known for v in j['violations']):
            self.stop.set()  # what is running still finishes
        return job, start, j, st


def merge(results):
    tot = {'cases': 0, 'ops': 0}
    counters, opc, states, samples = {}, {}, set(), []
    per = {}
    for job, start, j, st in results:
        tot['cases'] += j['cases']
        tot['ops'] += j['ops']
        for k, v in j['counters'].items():
            if k in ('max_size', 'max_stack'):
                counters[k] = max(counters.get(k, 0), v)
            elif k != 'states':
                counters[k] = counters.get(k, 0) + v
        for k, v in j['opcounts'].items():
            kk = j['group'] + ':' + k
            opc[kk] = opc.get(kk, 0) + v
        for i in range(0, len(st), 8):
            states.add(st[i:i + 8])
        label = '%s/%s/%s' % (job['h'], job['profile'], job['build'])
        d = per.setdefault(label, {'cases': 0, 'operations': 0})
        d['cases'] += j['cases']
        d['operations'] += j['ops']
        if start == 0 or len(samples) < 2:
            for s in j['samples'][:2]:
                if s and len(samples) < 10:
                    samples.append('%s: %s' % (label, s[:700]))
    return tot, counters, opc, states, samples, per


def write_replay(prop, seed, job, v, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    key = hashlib.sha256((v['kind'] + v['key']).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (prop, key))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'tier': tier, 'harness': job.get('h'), 'part': job.get('part'),
                   'build': job.get('build'), 'profile': job.get('profile'), 'kinds': job.get('kinds'),
                   'scale': job.get('scale', 1), 'violation': v,
                   'rerun': 'python3 %s --replay %s' % (os.path.abspath(__file__), path)}, f, indent=1)
    return path


def available():
    """GB of memory there is."""
    gb = 0
    try:
        for l in open('/proc/meminfo'):
            if l.startswith('MemAvailable:'):
                gb = int(l.split()[1]) >> 20
        for d in ('/sys/fs/cgroup/memory.max', '/sys/fs/cgroup/memory/memory.limit_in_bytes'):
            if os.path.exists(d):
                v = open(d).read().strip()
                if v.isdigit():
                    gb = min(gb, int(v) >> 30)
    except OSError:
        pass
    return gb


def wanted(q):
    """The number of cases of a job in one part."""
    return max(q.get('shards', 8), q['cases'] // HARNESSES[q['h']].get('parts', 1))


def run_property(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    P = PROPS[prop]
    known = known_findings()
    jobs = P['jobs'](tier)
    os.makedirs(BUILD, exist_ok=True)
    prune()
    dirname = os.path.join(BUILD, tree_hash())
    os.makedirs(dirname, exist_ok=True)
    os.utime(dirname)
    R = Runner(prop, tier, seed, known)
    violations = []   # (job, v)
    findings = {}
    results = []
    try:
        parts = []
        for j in jobs:
            for part in range(HARNESSES[j['h']].get('parts', 1)):
                q = dict(j)
                q['part'] = part
                parts.append(q)
        todo = {}
        for q in parts:
            todo.setdefault((q['h'], q['part'], q['build']), []).append(q)
        order = sorted(todo, key=lambda k: -HARNESSES[k[0]].get('cost', 10))
        failed = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            comp = {ex.submit(compile_one, dirname, *k, seed): k for k in order}
            runs = []
            for f in cf.as_completed(comp):
                k = comp[f]
                exe, log = f.result()
                if exe is None:
                    failed.append((k, log))
                    continue
                for q in todo[k]:
                    n = wanted(q)
                    shards = q.get('shards', 8)
                    per = -(-n // shards)
                    # the part's number offsets the cases, so that parts see different ones
                    base = q['part'] * 10000000
                    for s in range(shards):
                        runs.append(ex.submit(R.shard, exe, q, base + s * per, per))
            for f in cf.as_completed(runs):
                r = f.result()
                if r is not None:
                    results.append(r)
        for k, log in failed:
            if not control_compiles(dirname, k[2]):
                raise CheckError('the compiler does not work: ' + log[-2000:])
            first = next((l for l in log.splitlines() if 'error' in l), '')
            violations.append(({'h': k[0], 'part': k[1], 'build': k[2], 'profile': '', 'kinds': 0},
                               {'kind': 'build', 'key': 'build:%s' % k[0],
                                'msg': 'a program that uses the library no longer compiles: ' + first[:600],
                                'case': 0, 'op': 0, 'trace': log[-6000:]}))
        for job, start, j, st in results:
            for v in j['violations']:
                violations.append((job, v))
            if P.get('findings'):
                for v in j['findings']:
                    findings.setdefault(v['key'], (job, v))
    finally:
        shutil.rmtree(R.tmp, ignore_errors=True)

    tot, counters, opc, states, samples, per = merge(results)
    lines, nviol, seen = [], 0, set()
    for key, (job, v) in sorted(findings.items()):
        if (prop, key) in known:
            lines.append('KNOWN-FINDING: property=%s %s: %s' % (prop, key, known[(prop, key)]))
        else:
            violations.append((job, v))
    # the case a violation is reported for must not depend on which shard was faster
    violations.sort(key=lambda x: (x[1]['key'], x[1]['case']))
    for job, v in violations:
        if v['key'] in seen:
            continue
        seen.add(v['key'])
        if (prop, v['key']) in known:
            lines.append('KNOWN-FINDING: property=%s %s: %s' % (prop, v['key'], known[(prop, v['key'])]))
            continue
        nviol += 1
        path = write_replay(prop, seed, job, v, tier)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s %s (%s/%s/%s case %d): %s' % (v['kind'], v['key'], job['h'], job['profile'], job['build'],
                                                 v['case'], v['msg'].replace('\n', ' ')[:400]))
        if v['trace']:
            print('  ... ' + v['trace'][-300:].replace('\n', ' '))
    for l in sorted(set(lines)):
        print(l)

    missing = []
    if not nviol:
        for c in P.get('needs', []):
            if not counters.get(c):
                missing.append(c)
        want = sum(-(-wanted(q) // q.get('shards', 8)) * q.get('shards', 8)
                   for q in parts)
        if tot['cases'] < want - R.skipped:
            missing.append('cases (%d of %d)' % (tot['cases'], want))
        if not states:
            missing.append('states')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['ops'],
            'distinct_nontrivial': len(states),
            'rule': P['rule'],
            'samples': samples,
            'histories': tot['cases'],
            'what_the_monitors_saw': {k: v for k, v in counters.items() if v},
            'executions_per_harness_profile_build': per,
            'operation_kinds': len(opc),
            'operations': dict(sorted(opc.items())),
            'builds': {b: ' '.join(BUILDS[b]['cxx'] + BUILDS[b]['flags']) for b in sorted({q['build'] for q in jobs})},
            'known_findings_seen': sorted(set(lines)),
        },
        'assumptions': P.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(p + '.tmp', p)
    if nviol:
        return 1
    if missing:
        raise CheckError('the monitors did not observe: ' + ', '.join(missing))
    print('%s held on %d histories, %d operations, %d distinct states (%s, seed %d, %.1f s)' %
          (prop, tot['cases'], tot['ops'], len(states), tier, seed, time.time() - t0))
    return 0


def prune():
    try:
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime)
    except OSError:
        return
    for d in ds[:-3]:
        if time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    if r['violation']['kind'] == 'build':
        print(r['violation']['trace'])
        return 1
    dirname = os.path.join(BUILD, tree_hash())
    os.makedirs(dirname, exist_ok=True)
    exe, log = compile_one(dirname, r['harness'], r['part'], r['build'], r['seed'])
    if exe is None:
        print(log)
        return 1
    cmd = [exe, '--seed', str(r['seed']), '--start', str(r['violation']['case']), '--count', '1', '--kinds', str(r['kinds']),
           '--profile', r['profile'], '--scale', str(r['scale'])]
    print(' '.join(cmd))
    b = BUILDS[r['build']]
    p = subprocess.run(b.get('run', []) + cmd, env=env_for(b.get('env')), stdout=subprocess.PIPE, text=True)
    j = json.loads(p.stdout)
    for v in j['violations'] + j['findings']:
        print('%s %s: %s\n  history: %s' % (v['kind'], v['key'], v['msg'], v['trace']))
    print('reproduced' if j['violations'] else 'not reproduced by the case alone')
    return 1 if j['violations'] else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--list':
        for p in sorted(PROPS):
            print(p, PROPS[p]['title'])
        return 0
    if len(a) == 2 and a[0] == '--replay':
        return replay(a[1])
    if not a or a[0] not in PROPS:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    return run_property(a[0], tier)


if __name__ == '__main__':
    try:
        rc = main()
    except CheckError as e:
        print('CHECK-ERROR: %s' % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
