#!/usr/bin/env python3
"""Runner for the property checks: builds the harnesses from /repo's working
tree, runs the generated-input search, shrinks and confirms failures, writes
the evidence.

  vf.py check P01            (VERIF_SEED, VERIF_TIER from the environment)
  vf.py replay FILE          re-runs a replay file, exit 1 if it still fails
  vf.py setup                checks the tool chain
"""
import array, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARN = os.path.join(VERIF, 'harness')
NCPU = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, VERIF)
import meta
from checks import CHECKS, CONFIGS  # noqa: E402

BASE = ['-DCURVE_ALT_BN128', '-DNO_PROCPS', '-I' + REPO, '-std=gnu++14', '-mpclmul', '-msse4.1', '-w']
CXX = 'g++'
REF_FLAGS = ['-O2']  # the reference models: the same in every configuration


class BuildError(Exception):
    pass


def lib_sources():
    out = []
    for g in ('algebra/curves/alt_bn128/*.cpp', 'algebra/curves/bls12_381/*.cpp', 'algebra/curves/edwards/*.cpp',
              'algebra/curves/mnt/*.cpp', 'algebra/curves/mnt/*/*.cpp', 'algebra/fields/*/*.cpp',
              'algebra/field_utils/*.cpp', 'algebra/scalar_multiplication/*.cpp', 'common/*.cpp', 'algebra/*.cpp'):
        out += glob.glob(os.path.join(REPO, 'libff', g))
    # programs and not the library
    return sorted(p for p in out if os.path.basename(p) != 'multiexp_profile.cpp' and '/tests/' not in p)


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for base, dirs, files in os.walk(os.path.join(REPO, 'libff')):
            dirs.sort()
            if os.path.basename(base) == 'tests':
                continue
            for f in sorted(files):
                if f.endswith(('.cpp', '.hpp', '.tcc', '.h')):
                    h.update(f.encode())
                    with open(os.path.join(base, f), 'rb') as fh:
                        h.update(fh.read())
        for f in sorted(glob.glob(HARN + '/*.hpp')):
            with open(f, 'rb') as fh:
                h.update(fh.read())
        _tree = h.hexdigest()
    return _tree


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def obj_for(cfg, src, extra):
    flags = (REF_FLAGS if cfg.startswith('ref') else CONFIGS[cfg]['flags']) + BASE + extra
    h = hashlib.sha256()
    h.update(tree_hash().encode())
    cxx = CONFIGS.get(cfg, {}).get('cxx', CXX)
    h.update(' '.join([cxx] + flags).encode())
    with open(src, 'rb') as fh:
        h.update(fh.read())
    name = re.sub(r'[^A-Za-z0-9]', '_', os.path.relpath(src, '/')) + '-' + h.hexdigest()[:16] + '.o'
    return os.path.join(BUILD, cfg, name), flags


def compile_one(cfg, src, extra):
    out, flags = obj_for(cfg, src, extra)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d.tmp' % os.getpid()
    cmd = [CONFIGS.get(cfg, {}).get('cxx', CXX)] + flags + ['-c', src, '-o', tmp]
    p = run(cmd)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr.decode(errors='replace')[-3000:]))
    os.replace(tmp, out)
    return out


def prune():
    """keep the build cache small (it only serves repeated local runs)"""
    objs = []
    for p in glob.glob(BUILD + '/*/*'):
        try:
            objs.append((os.path.getmtime(p), os.path.getsize(p), p))
        except OSError:
            pass
    total = sum(o[1] for o in objs)
    for _, size, p in sorted(objs):
        if total < 3 << 30:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= size


def build(wanted, pool):
    """wanted: list of (cfg, harness dict). Returns {(cfg, name): binary or BuildError}"""
    jobs = {}
    libs = lib_sources()

    def submit(key, *a):
        if key not in jobs:
            jobs[key] = pool.submit(compile_one, *a)
        return jobs[key]
    plan = {}
    for cfg, h in wanted:
        keys = []
        # the slowest compilations first
        for unit in h['units']:
            src, extra = unit if isinstance(unit, tuple) else (unit, [])
            k = (cfg, src, tuple(extra))
            submit(k, cfg, os.path.join(HARN, src), list(extra))
            keys.append(k)
        plan[(cfg, h['name'])] = keys
    for cfg, h in wanted:
        keys = plan[(cfg, h['name'])]
        k = (cfg, 'pbt_main.cpp', ())
        submit(k, cfg, os.path.join(HARN, 'pbt_main.cpp'), [])
        keys.append(k)
        # the reference models: optimised in every configuration
        kind, fl = ('refdebug', ['-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC']) if '-D_GLIBCXX_DEBUG' in CONFIGS[cfg]['flags'] else ('ref', [])
        k = (kind, 'ref.cpp', ())
        submit(k, kind, os.path.join(HARN, 'ref.cpp'), fl)
        keys.append(k)
        if h.get('lib', True):
            for s in libs:
                k = (cfg, s, ())
                submit(k, cfg, s, [])
                keys.append(k)
    out = {}
    for cfg, h in wanted:
        try:
            objs = [jobs[k].result() for k in plan[(cfg, h['name'])]]
            hh = hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16]
            exe = os.path.join(BUILD, cfg, '%s-%s' % (h['name'], hh))
            if not os.path.exists(exe):
                tmp = exe + '.%d.tmp' % os.getpid()
                p = run([CONFIGS[cfg].get('cxx', CXX)] + CONFIGS[cfg]['flags'] + objs + ['-lgmpxx', '-lgmp', '-lsodium', '-lcrypto', '-o', tmp])
                if p.returncode != 0:
                    raise BuildError('link %s [%s]\n%s' % (h['name'], cfg, p.stderr.decode(errors='replace')[-3000:]))
                os.replace(tmp, exe)
            if CONFIGS[cfg].get('probe') and run([exe, '--list'], env=ENV).returncode != 0:
                raise BuildError('%s programs do not start here' % cfg)
            out[(cfg, h['name'])] = exe
        except BuildError as e:
            out[(cfg, h['name'])] = e
    return out


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=98:allocator_may_return_null=1',
           TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_signal_unsafe=0',
           UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1', OMP_NUM_THREADS='4', LC_ALL='C')
# a case that needs this much CPU time is a hang: cases take milliseconds
HANG = {'quick': 60, 'thorough': 120}


def shard_run(exe, cfg, seed, shard, shards, mult, div, work, wall, hang):
    out = os.path.join(work, 'out-%d.json' % shard)
    rec = os.path.join(work, 'rec-%d' % shard)
    log = os.path.join(work, 'log-%d' % shard)
    cmd = CONFIGS[cfg].get('wrap', []) + [exe, '--seed', str(seed), '--shard', str(shard), '--shards', str(shards), '--mult', str(mult), '--div', str(div),
           '--hang', str(hang * CONFIGS[cfg].get('slow', 1)), '--wall', str(wall), '--out', out, '--rec', rec]
    with open(log, 'wb') as lf:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=lf, env=ENV, cwd=work)
    res = {'tests': [], 'failures': [], 'cut': False}
    hashes = array.array('Q')
    if p.returncode in (0, 1) and os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
        hp = out + '.hashes'
        if os.path.exists(hp):
            with open(hp, 'rb') as f:
                hashes.frombytes(f.read())
            os.unlink(hp)
        dp = out + '.digests'
        if os.path.exists(dp):
            d = array.array('Q')
            with open(dp, 'rb') as f:
                d.frombytes(f.read())
            os.unlink(dp)
            res['digests'] = {d[i]: (d[i + 1], d[i + 2], d[i + 3]) for i in range(0, len(d), 4)}
        return res, hashes
    # crash, sanitizer report or hang: the record holds the case
    r = array.array('Q')
    with open(rec, 'rb') as f:
        r.frombytes(f.read())
    with open(log, errors='replace') as f:
        text = f.read()
    what = crash_text(p.returncode, text)
    names = run([exe, '--list']).stdout.decode().split('\n')
    test = names[r[1]].rsplit(' ', 1)[0] if r[1] < len(names) else None
    if test is None:
        res['init_failure'] = what
        return res, hashes
    res['failures'] = [{'test': test, 'index': r[2], 'msg': what, 'sample': '', 'choices': list(r[5:5 + r[4]])}]
    return res, hashes


def crash_text(rc, log):
    m = re.search(r'(runtime error: .*|==\d+== (?:Use of|Conditional|Invalid|Syscall|Source and).*|Error: attempt.*|ERROR: AddressSanitizer: .*|SUMMARY: ThreadSanitizer: .*|SUMMARY: .*|.*Assertion .* failed.*|terminate called.*)', log)
    s = m.group(1)[:300] if m else ''
    if rc == 97:
        return 'the case does not terminate (CPU time limit)'
    return 'process ended with %s %s' % ('signal %d' % -rc if rc < 0 else 'status %d' % rc, s)


def replay_once(exe, cfg, test, choices, work, tag, hang=60):
    f = os.path.join(work, 'replay-%s.in' % tag)
    o = os.path.join(work, 'replay-%s.out' % tag)
    with open(f, 'w') as fh:
        fh.write(test + '\n' + ' '.join(map(str, choices)) + '\n')
    if os.path.exists(o):
        os.unlink(o)
    p = run(CONFIGS[cfg].get('wrap', []) + [exe, '--replay', f, '--out', o, '--hang', str(hang * CONFIGS[cfg].get('slow', 1))], env=ENV, cwd=work)
    if p.returncode in (0, 1) and os.path.exists(o):
        with open(o) as fh:
            d = json.load(fh)
        if d['result'] == 1:
            return True, d['msg'], d['choices'], d['sample']
        return False, '', d['choices'], d['sample']
    return True, crash_text(p.returncode, p.stderr.decode(errors='replace')), choices, ''


def one_case(exe, cfg, seed, test, index, work, tag):
    """runs the case again from its seed; None when it crashes"""
    o = os.path.join(work, 'case-%s.out' % tag)
    if os.path.exists(o):
        os.unlink(o)
    run([exe, '--case', test, str(index), '--seed', str(seed), '--out', o, '--hang', str(60 * CONFIGS[cfg].get('slow', 1))], env=ENV, cwd=work)
    if not os.path.exists(o):
        return None
    with open(o) as f:
        return json.load(f)


def shrink(exe, cfg, test, choices, msg, work, tag, budget_s):
    """delete blocks, zero and halve choices while the case still fails"""
    t0 = time.time()
    best, bmsg, bsample = list(choices), msg, ''
    n = [0]

    def attempt(c):
        nonlocal best, bmsg, bsample
        if time.time() - t0 > budget_s:
            return False
        n[0] += 1
        ok, m, used, sample = replay_once(exe, cfg, test, c, work, tag)
        if ok:
            best, bmsg, bsample = list(used[:len(c)] if len(used) >= len(c) else used), m, sample
            while best and best[-1] == 0:
                best.pop()
            return True
        return False
    improved = True
    while improved and time.time() - t0 < budget_s:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() - t0 < budget_s:
            i = 0
            while i < len(best) and time.time() - t0 < budget_s:
                c = best[:i] + best[i + size:]
                if attempt(c):
                    improved = True
                    continue
                if any(best[i:i + size]):
                    c = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    if attempt(c):
                        improved = True
                i += size
            size //= 2
        for i in range(len(best)):
            if i >= len(best) or time.time() - t0 > budget_s:
                break
            for _ in range(70):
                if i >= len(best) or best[i] == 0:
                    break
                v = best[i]
                done = False
                for cand in ([1] if v > 1 else []) + [v // 2, v >> 8, v - 1]:
                    if cand < v and attempt(best[:i] + [cand] + best[i + 1:]):
                        improved = done = True
                        break
                if not done:
                    break
    return best, bmsg, bsample, n[0]


def run_history(exe, cfg, seed, cases, work, tag):
    """runs the cases one after the other in one process; does the last one fail?"""
    f = os.path.join(work, 'history-%s.in' % tag)
    o = os.path.join(work, 'history-%s.out' % tag)
    with open(f, 'w') as fh:
        fh.write(''.join(c + '\n' for c in cases))
    if os.path.exists(o):
        os.unlink(o)
    p = run(CONFIGS[cfg].get('wrap', []) + [exe, '--history', f, '--seed', str(seed), '--out', o, '--hang', str(60 * CONFIGS[cfg].get('slow', 1))], env=ENV, cwd=work)
    if p.returncode in (0, 1) and os.path.exists(o):
        with open(o) as fh:
            d = json.load(fh)
        return d['result'] == 1, d['msg'], d['sample']
    return True, crash_text(p.returncode, p.stderr.decode(errors='replace')), ''


def find_history(exe, cfg, seed, x, work, tag, pool, budget_s):
    """A failure that does not come back in a fresh process may depend on the
    cases that ran before it: repeat those, and drop what is not needed."""
    last = '%d %s' % (x['index'], x['test'])
    p = run([exe, '--prefix', x['test'], str(x['index']), '--seed', str(seed)] + x['where'])
    cases = p.stdout.decode().splitlines()
    if not cases or cases[-1] != last:
        return None
    same = [c for c in cases if c.split(' ', 1)[1] == x['test']]
    t0 = time.time()
    for cand in (same[-20:], same, cases):
        rs = list(pool.map(lambda i: run_history(exe, cfg, seed, cand, work, tag + str(i)), range(3)))
        if all(r[0] for r in rs):
            best = cand
            break
    else:
        return None
    size = max(1, (len(best) - 1) // 2)
    while size >= 1 and time.time() - t0 < budget_s:
        i = 0
        while i < len(best) - 1 and time.time() - t0 < budget_s:
            c = best[:i] + best[min(i + size, len(best) - 1):]
            if run_history(exe, cfg, seed, c, work, tag)[0]:
                best = c
            else:
                i += size
        size //= 2
    rs = list(pool.map(lambda i: run_history(exe, cfg, seed, best, work, tag + str(i)), range(3)))
    return (best, rs[0][1], rs[0][2]) if all(r[0] for r in rs) else None


def sometimes(exe, cfg, seed, x, work, tag, pool, first, wall):
    """A failure that depends on the schedule of threads (or on memory that was
    never written): repeated until it comes back.  The oracles do not depend on
    time, so that a failure seen twice is one, however rare."""
    threads = CONFIGS[cfg].get('threads')
    n = 45 if threads else 9
    rs = list(first) + list(pool.map(lambda i: replay_once(exe, cfg, x['test'], x['choices'], work, tag + 'x' + str(i)), range(n)))
    bad = [r for r in rs if r[0] and 'signal 9' not in r[1]]
    if bad:
        return x['choices'], '%s (in %d of %d repetitions)' % (bad[0][1], len(bad), len(rs)), bad[0][3]
    if threads:
        w = x['where']
        res = list(pool.map(lambda i: shard_run(exe, cfg, seed, int(w[1]), int(w[3]), int(w[5]), int(w[7]), mkdir(os.path.join(work, 'again-%s-%d' % (tag, i))), wall, 60)[0], range(4)))
        for r in res:
            for y in r['failures']:
                if y['test'] == x['test'] and 'signal 9' not in y['msg']:
                    return y['choices'], y['msg'] + ' (depends on the schedule: seen when the search was repeated)', y['sample']
    return [], None, ''


def mkdir(d):
    os.makedirs(d, exist_ok=True)
    return d


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)['findings'] if e.get('status') == 'known']


def check(pid):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    spec = CHECKS[pid]
    work = os.path.join(BUILD, 'work-%s-%d' % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    prune()
    pool = cf.ThreadPoolExecutor(NCPU)
    wanted = []
    for h in spec['harness']:
        for cfg, share in h['cfgs'].items():
            if tier == 'quick' and share.get('thorough_only'):
                continue
            wanted.append((cfg, h))
    bins = build(wanted, pool)
    t_build = time.time() - t0
    notes, violations, known_hits = [], [], []
    runs = []
    for (cfg, h) in wanted:
        b = bins[(cfg, h['name'])]
        if isinstance(b, BuildError):
            # a build failure is libff's when the default configuration of the same harness builds
            if h['cfgs'][cfg].get('build_is_property') and not isinstance(bins[('A', h['name'])], BuildError):
                os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
                rp = os.path.join(VERIF, 'replays', '%s-build-%s-%s.json' % (pid, cfg, h['name']))
                with open(rp, 'w') as f:
                    json.dump({'property': pid, 'config': cfg, 'harness': h['name'], 'kind': 'build', 'message': str(b)}, f, indent=1)
                violations.append((rp, 'configuration %s does not build' % cfg))
            else:
                notes.append('configuration %s of %s was not built: %s' % (cfg, h['name'], str(b)[-600:]))
                print('NOTE build failed [%s %s]\n%s' % (cfg, h['name'], b))
            continue
        share = h['cfgs'][cfg]
        mult, div = share.get('mult', 1), share.get('div', 1)
        if tier == 'thorough':
            mult *= share.get('thorough', spec.get('thorough', 20))
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        if scale != 1:
            div = int(div * 1000)
            mult = max(1, int(mult * 1000 * scale))
        runs.append((cfg, h, b, mult, div))
    if not runs and not violations:
        print('no configuration could be built')
        return 2
    wall = spec.get('wall', {}).get(tier, 420 if tier == 'quick' else 6 * 3600)
    futs = []
    for (cfg, h, b, mult, div) in runs:
        shards = 2 if CONFIGS[cfg].get('threads') else NCPU
        for s in range(shards):
            w = os.path.join(work, '%s-%s-%d' % (cfg, h['name'], s))
            os.makedirs(w, exist_ok=True)
            where = ['--shard', str(s), '--shards', str(shards), '--mult', str(mult), '--div', str(div)]
            futs.append((cfg, h, b, where, pool.submit(shard_run, b, cfg, seed, s, shards, mult, div, w, wall, HANG[tier])))
    evals = disc = compared = 0
    digests = {}
    distinct = set()
    labels, per_test, samples, fails, cut = {}, {}, [], [], False
    dropped = 0
    for cfg, h, b, where, f in futs:
        # enough is known: leave time to shrink and confirm
        if tier == 'quick' and fails and time.time() - t0 > 300 and f.cancel():
            dropped += 1
            continue
        res, hashes = f.result()
        cut = cut or res.get('cut', False)
        salt = int(hashlib.sha256((cfg + h['name']).encode()).hexdigest()[:16], 16)
        distinct.update(x ^ salt for x in hashes)
        if spec.get('differential') and res.get('digests'):
            digests.setdefault(h['name'], {}).setdefault(cfg, {}).update(res['digests'])
        if 'init_failure' in res:
            fails.append((cfg, h, b, {'test': '(initialisation)', 'index': 0, 'msg': res['init_failure'], 'choices': []}))
        for t in res['tests']:
            evals += t['evals']
            disc += t['discarded']
            d = per_test.setdefault('%s %s' % (cfg, t['name']), [0, 0])
            d[0] += t['evals']
            d[1] += t['nontrivial']
            for k, v in t['labels'].items():
                labels[k] = labels.get(k, 0) + v
            for s in t['samples']:
                if len(samples) < 400:
                    samples.append('[%s] %s: %s' % (cfg, t['name'], s))
        for x in res['failures']:
            x['where'] = where
            fails.append((cfg, h, b, x))
    if dropped:
        notes.append('%d of %d parts were not run after a failure was found' % (dropped, len(futs)))
    # what the configurations computed for the same case is the same
    for h in spec['harness']:
        per = digests.get(h['name'], {})
        base = spec.get('differential')
        if base not in per:
            base = next(iter(sorted(per)), None)
        seen = set()
        for cfg in sorted(per):
            for k, (t, i, d) in sorted(per[cfg].items()):
                if cfg == base or k not in per[base]:
                    continue
                compared += 1
                if per[base][k][2] != d and (cfg, t) not in seen:
                    seen.add((cfg, t))
                    fails.append((cfg, h, bins[(cfg, h['name'])], {'test': t, 'index': i, 'msg': 'differs', 'choices': [], 'against': base}))
    # one failure per test and configuration, shortest first
    uniq = {}
    for cfg, h, b, x in fails:
        k = (cfg, h['name'], x['test'], 'against' in x)
        if k not in uniq or len(x['choices']) < len(uniq[k][3]['choices']):
            uniq[k] = (cfg, h, b, x)
    todo = sorted(uniq.values(), key=lambda z: ('against' in z[3], CONFIGS[z[0]].get('slow', 1) > 8, len(z[3]['choices']), z[0], str(z[3]['test'])))
    known = load_known()
    max_report = 4
    for cfg, h, b, x in todo:
        if len(violations) >= max_report:
            notes.append('%d more failing tests not shrunk' % (len(todo) - max_report))
            break
        if violations and CONFIGS[cfg].get('slow', 1) > 8:
            notes.append('%s [%s] fails too; not shrunk in this slow configuration' % (x['test'], cfg))
            continue
        if tier == 'quick' and violations and time.time() - t0 > 480:
            notes.append('other failing tests not shrunk for lack of time')
            break
        tag = hashlib.sha256(('%s %s %s' % (cfg, h['name'], x['test'])).encode()).hexdigest()[:10]
        history, rare = None, False
        if 'against' in x:
            other, ob = x['against'], bins[(x['against'], h['name'])]
            names = run([b, '--list']).stdout.decode().split('\n')
            x['test'] = names[x['test']].rsplit(' ', 1)[0]
            got = []
            for i in range(3):
                o1, o2 = (one_case(z, c, seed, x['test'], x['index'], work, tag) for z, c in ((b, cfg), (ob, other)))
                got.append(o1 is not None and o2 is not None and o1['choices'] == o2['choices'] and o1['digest'] != o2['digest'])
            if not all(got):
                notes.append('difference between %s and %s in %s not reproduced' % (cfg, other, x['test']))
                print('NOTE ' + notes[-1])
                continue
            best, tries, sample = o1['choices'], 1, o1['sample']
            msg = 'configurations %s and %s compute different values: %s and %s' % (cfg, other, o1['digest_text'][:600], o2['digest_text'][:600])
        elif x['test'] == '(initialisation)':
            rc = shard_run(b, cfg, seed, 0, 1, 0, 1, work, wall, 60)[0]
            if 'init_failure' not in rc:
                notes.append('initialisation failure not reproduced')
                continue
            best, msg, sample, tries = [], x['msg'], '', 1
        else:
            rs = list(pool.map(lambda i: replay_once(b, cfg, x['test'], x['choices'], work, tag + str(i)), range(3)))
            if not any(r[0] for r in rs):
                history = find_history(b, cfg, seed, x, work, tag, pool, 40 if tier == 'quick' else 300)
            if history:
                best, msg, sample, tries = [], history[1], history[2], 0
                msg += ' (only after other cases in the same process: the result depends on earlier calls)'
            elif not all(r[0] for r in rs):
                best, msg, sample = sometimes(b, cfg, seed, x, work, tag, pool, rs, wall)
                tries, rare = 0, True
            else:
                best, msg, sample, tries = x['choices'], rs[0][1], rs[0][3], 0
            if msg is None:
                notes.append('failure of %s [%s] not reproduced on replay: %s' % (x['test'], cfg, x['msg'][:200]))
                print('NOTE not reproduced: %s [%s] %s' % (x['test'], cfg, x['msg'][:300]))
                continue
            if not history and not rare and 'does not terminate' not in msg:
                best, msg, sample2, tries = shrink(b, cfg, x['test'], x['choices'], msg, work, tag, 25 if tier == 'quick' else 120)
                sample = sample2 or sample
                rs = [replay_once(b, cfg, x['test'], best, work, tag + str(i)) for i in range(3)]
                if not all(r[0] for r in rs):
                    best = x['choices']
        hit = None
        for e in known:
            if e['property'] == pid and re.search(e.get('config', '.'), cfg) and re.search(e['test'], x['test']) and re.search(e['message'], msg):
                hit = e
        if hit:
            known_hits.append(hit['what'])
            continue
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rp = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, tag))
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'config': cfg, 'harness': h['name'], 'test': x['test'], 'seed': seed, 'index': x['index'], 'message': msg, 'against': x.get('against'), 'history': history and history[0],
                       'case': sample, 'choices': best, 'unshrunk_choices': x['choices'], 'shrink_attempts': tries,
                       'how': 'python3 vf.py replay ' + os.path.relpath(rp, VERIF)}, f, indent=1)
        violations.append((rp, '%s [%s]: %s' % (x['test'], cfg, msg)))
    for w in sorted(set(known_hits)):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    for rp, msg in violations:
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, VERIF)))
        print('  ' + msg[:1500])
    # spread the samples over tests
    step = max(1, len(samples) // 12)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': meta.rule(pid),
            'samples': samples[::step][:14] or ['(none)'],
            'compared_between_configurations': compared,
            'discarded': disc, 'tests': len(per_test), 'configurations': sorted({c for c, _, _, _, _ in runs}),
            'labels': dict(sorted(labels.items(), key=lambda z: -z[1])[:60]),
            'per_test_evaluations': {k: v[0] for k, v in sorted(per_test.items())},
            'cut_by_wall_limit': cut,
        },
        'assumptions': meta.assumptions(pid) + notes,
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d tests, build %.1fs, total %.1fs, violations %d' %
          (pid, tier, seed, evals, len(distinct), len(per_test), t_build, time.time() - t0, len(violations)))
    if notes and not violations and not evals:
        return 2
    return 1 if violations else 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    spec = CHECKS[d['property']]
    h = [h for h in spec['harness'] if h['name'] == d['harness']][0]
    pool = cf.ThreadPoolExecutor(NCPU)
    b = build([(d['config'], h)], pool)[(d['config'], h['name'])]
    if isinstance(b, BuildError):
        print(b)
        return 1 if d.get('kind') == 'build' else 2
    if d.get('kind') == 'build':
        print('builds')
        return 0
    work = os.path.join(BUILD, 'work-replay-%d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    if d.get('against'):
        ob = build([(d['against'], h)], pool)[(d['against'], h['name'])]
        o1, o2 = (one_case(z, c, d['seed'], d['test'], d['index'], work, 'r') for z, c in ((b, d['config']), (ob, d['against'])))
        ok, msg, sample = o1 is None or o2 is None or o1['digest'] != o2['digest'], 'configurations %s and %s differ' % (d['config'], d['against']), ''
    elif d.get('history'):
        ok, msg, sample = run_history(b, d['config'], d['seed'], d['history'], work, 'r')
    else:
        
        for _ in range(48 if 'repetitions' in d['message'] or 'schedule' in d['message'] else 1):
            ok, msg, _, sample = replay_once(b, d['config'], d['test'], d['choices'], work, 'r')
            if ok:
                break
    print(('FAILS: ' + msg) if ok else 'passes', '\n', sample)
    shutil.rmtree(work, ignore_errors=True)
    return 1 if ok else 0


def setup():
    for tool in ('g++',):
        if not shutil.which(tool):
            print('missing', tool)
            return 1
    os.makedirs(BUILD, exist_ok=True)
    # compile the harness core once: shows that GMP and the C++ headers are there
    print(compile_one('A', os.path.join(HARN, 'pbt_main.cpp'), []))
    return 0


if __name__ == '__main__':
    if len(sys.argv) >= 2 and sys.argv[1] == 'setup':
        sys.exit(setup())
    if len(sys.argv) == 3 and sys.argv[1] == 'check':
        sys.exit(check(sys.argv[2]))
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    print(__doc__)
    sys.exit(64)
