#!/usr/bin/env python3
"""Mutation analysis of the checks (a development tool: no check uses it).

Puts many small changes at once into a copy of libff, each behind a number that
an environment variable selects (mutant schemata), builds the harnesses once,
and runs them once per mutant.  What survives is read by hand: it is either an
equivalent change, or something the checks have to learn.

  mutate.py build DIR FILE...     copy, mutate, build, measure which mutants each harness reaches
  mutate.py run DIR [N [SEED]]    run (a sample of) the mutants; results in DIR/results.json;
                                  MUT_FILES: only files that match, MUT_JOBS: how many at a time
  mutate.py show DIR              the survivors
"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, time
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
SKIP = re.compile(r'assert|static_assert|"|^\s*#|template|typedef|^\s*using|\\\s*$|UNUSED|\basm\b|__asm|printf|_cnt\b|enter_block|leave_block|print_|, ?&\w|, \w+ = \w|namespace|window_table|MUT\(|static const|\bstruct\b|\bts\b|\bconstexpr\b|__m128i?\s+\w+\s*\[')


def strip(s):
    s = re.sub(r'/\*.*?\*/', '', s)
    return re.sub(r'//.*$', '', s).rstrip()


def alts(e):
    """mutations of an expression"""
    out = []

    def sub(pat, *rep):
        for m in re.finditer(pat, e):
            for r in rep:
                n = e[:m.start()] + m.expand(r) + e[m.end():]
                if n != e and n not in out:
                    out.append(n)
    sub(r' \+ ', ' - '); sub(r'(?<=[\w)\]]) - ', ' + '); sub(r'(?<=[\w)\]]) ?\* ?(?=[\w(])', ' + '); sub(r'(?<=[\w)\]])\+(?=[\w(])', '-'); sub(r'(?<=[\w)\]])-(?=[\w(])', '+')
    sub(r' == ', ' != '); sub(r' != ', ' == '); sub(r' < ', ' <= '); sub(r' <= ', ' < '); sub(r' > ', ' >= '); sub(r' >= ', ' > ')
    sub(r' && ', ' || '); sub(r' \|\| ', ' && '); sub(r' << ', ' >> '); sub(r' >> ', ' << '); sub(r' & ', ' | '); sub(r' \| ', ' & '); sub(r' \^ ', ' | ')
    sub(r' / ', ' * '); sub(r' % ', ' / ')
    sub(r'\.squared\(\)', ''); sub(r'\.dbl\(\)', ''); sub(r'\.inverse\(\)', ''); sub(r'\btrue\b', 'false'); sub(r'\bfalse\b', 'true'); sub(r'!(?=[\w(])', '')
    sub(r'\bc0\b', 'c1'); sub(r'\bc1\b', 'c0'); sub(r'\bc2\b', 'c1'); sub(r'\bX\b', 'Y'); sub(r'\bY\b', 'X'); sub(r'\bZ\b', 'X'); sub(r'\bother\.', 'this->'); sub(r'\bthis->', 'other.')
    sub(r'(?<![\w.)\]])-(?=[a-zA-Z(])', '')
    for m in re.finditer(r'(?<![\w.<])(0x[0-9a-fA-F]+|\d+)((?:u|l|ul|ull|ll)?)(?![\w.])', e):
        v = int(m.group(1), 0)
        for w in ((v + 1, v - 1) if 0 < v < 1 << 20 else (1,) if v == 0 else ()):
            n = e[:m.start()] + ('0x%x' % w if m.group(1).startswith('0x') else str(w)) + m.group(2) + e[m.end():]
            if n not in out:
                out.append(n)
    return out


def mutate(text, fname, start):
    pre, k = [], start
    if re.search(r'_(init|fields)\.cpp$', fname):
        # constants written as strings of digits: another last digit
        def lit(l, ln):
            def one(m):
                nonlocal k
                d = m.group(1)
                o = d[:-1] + str((int(d[-1]) + (1 if ln % 2 else 9)) % 10) if ln % 3 else d[:len(d) // 2] + str((int(d[len(d) // 2]) + 1) % 10) + d[len(d) // 2 + 1:]
                pre.append((k, fname, ln, '"%s"' % d, '"%s"' % o)); k += 1
                return '(MUT(%d) ? "%s" : "%s")' % (k - 1, o, d)
            return re.sub(r'"(\d+)"', one, l) if not l.strip().startswith('//') and 'bigint<' not in l else l
        text = '\n'.join(lit(l, i + 1) for i, l in enumerate(text.split('\n')))
    lines = text.split('\n')
    res, muts, depth, i, n = [], pre, 0, 0, len(lines)
    incomment = False
    base = 1 if re.search(r'^namespace libff', text, re.M) else 0
    while i < n:
        raw = lines[i]
        if incomment or raw.strip().startswith('/*'):
            incomment = '*/' not in raw
            res.append(raw); i += 1
            continue
        line = strip(raw)
        one = re.match(r'^(.*\)(?: const)? *\{ *return) (.+?);( *\})$', line) if fname.endswith('.hpp') and not SKIP.search(line) else None
        if one:
            a = alts(one.group(2)) or ([one.group(2) + ' + 1'] if re.match(r'[\w:<>]+(\(\))?$', one.group(2)) else [])
            if a:
                res.append(one.group(1))
                for x in a:
                    res.append('MUT(%d) ? (%s) :' % (k, x)); muts.append((k, fname, i + 1, one.group(2), x)); k += 1
                res.append('(%s);%s' % (one.group(2), one.group(3)))
                i += 1
                continue
        j = i
        if not fname.endswith('.hpp') and depth > base and line and not SKIP.search(line) and not line.strip().startswith(('{', '}')):
            # join a statement that spans lines
            while (line.count('(') != line.count(')') or not re.search(r'[;{}:]$|^\s*else$|^\s*do$' + (r'|\)$' if re.match(r'\s*(else )?(if|while|for)\b', line) else ''), line)) and j + 1 < n and j - i < 8 and not lines[j + 1].strip().startswith('#'):
                j += 1
                line = line + ' ' + strip(lines[j]).strip()
            ok = line.count('(') == line.count(')') and not SKIP.search(line)
            ind = re.match(r'\s*', line).group(0)
            done = None

            def multi(pre, e, post, a):
                nonlocal k
                o = [ind + pre]
                for x in a:
                    o.append('MUT(%d) ? (%s) :' % (k, x))
                    muts.append((k, fname, i + 1, e, x)); k += 1
                o.append('(%s)%s' % (e, post))
                return o
            if ok:
                m = re.match(r'\s*return (.+);$', line)
                if m and m.group(1) not in ('*this', '(*this)') and '{' not in m.group(1):
                    a = alts(m.group(1))
                    if a:
                        done = multi('return', m.group(1), ';', a)
                if not m and not done:
                    m = re.match(r'\s*((?:else )?if|while) \((.+)\)( \{)?$', line)
                    if m and ';' not in line:
                        a = alts(m.group(2))
                        if m.group(1) != 'while':
                            a += ['!(%s)' % m.group(2)]
                        if a:
                            done = multi(m.group(1) + ' (', m.group(2), ')' + (m.group(3) or ''), a)
                if not m and not done:
                    m = re.match(r'\s*for \(([^;]*); ([^;]*); ([^;]*)\)( \{)?$', line)
                    if m and any('pragma omp' in x for x in lines[max(0, i - 3):i]):
                        ok = False  # OpenMP wants the plain form
                    elif m:
                        a = alts(m.group(2))
                        p = re.match(r'(.*\w) = (.*)$', m.group(1))
                        b = alts(p.group(2)) if p else []
                        o = [ind + 'for (']
                        if p and b and ',' not in m.group(1):
                            o += multi(p.group(1) + ' =', p.group(2), ';', b)
                        else:
                            o.append(m.group(1) + ';')
                        o += multi('', m.group(2), ';', a) if a else [m.group(2) + ';']
                        o.append(m.group(3) + ')' + (m.group(4) or ''))
                        done = o
                if not m and not done:
                    m = re.match(r'\s*((?:const )?[A-Za-z_][\w:]*(?:<[^=;]*>)?(?: ?[&*])?(?: (?:long|int|char))? ?\b\w+) = ([^;{]+);$', line)
                    if m and not m.group(1).startswith('return') and re.search(r'[\w>&*] ?\w+$', m.group(1)) and ' ' in m.group(1).strip():
                        a = alts(m.group(2))
                        if a:
                            done = multi(m.group(1) + ' =', m.group(2), ';', a)
                        else:
                            done = [line]
                    elif re.match(r'\s*[^={}]+\s+\w+\((.*)\);$', line) and re.match(r'\s*(const )?[A-Za-z_][\w:<>, ]*[ >&]\w+\(', line) and not re.match(r'\s*(return|else|if|for|while)\b', line):
                        done = [line]  # a declaration with a constructor
                    elif re.match(r'\s*[^;{}]+;$', line) and not re.match(r'\s*(return|break|continue|while|if|for|const|unsigned|std::vector|bool|int|long|char|auto|size_t|else|do|case|default|mp_limb_t|goto|throw|using|typename)\b', line) and not re.match(r'\s*[A-Za-z_][\w:]*(<.*>)? [\w, ]+(\[.*\])*;$', line) and not re.match(r'\s*(COMBA|REDUCE|MONT)', line):
                        s = line.strip()[:-1]
                        p = re.match(r'(.+?) ([-+*/|^&%]|<<|>>)?= (.+)$', s)
                        o = [ind + '{']
                        vs = [''] + ([p.group(1) + ' ' + (p.group(2) or '') + '= ' + x for x in alts(p.group(3))] if p else [] if re.search(r'<<|>>', s) else alts(s))
                        if p and p.group(2):
                            vs.append(p.group(1) + ' ' + {'+': '-', '-': '+', '*': '+', '/': '*', '|': '&', '&': '|', '^': '|', '<<': '>>', '>>': '<<', '%': '/'}[p.group(2)] + '= ' + p.group(3))
                        for x in vs:
                            o.append('if (MUT(%d)) { %s; } else' % (k, x))
                            muts.append((k, fname, i + 1, s, x or '(deleted)')); k += 1
                        o.append('{ %s; } }' % s)
                        done = o
            if done and len(done) > 1:
                res += done
                for q in range(i, j + 1):
                    t = strip(lines[q]); depth += t.count('{') - t.count('}')
                i = j + 1
                continue
            if j > i:
                for q in range(i, j + 1):
                    t = strip(lines[q]); depth += t.count('{') - t.count('}')
                    res.append(lines[q])
                i = j + 1
                continue
        t = strip(raw)
        if not raw.strip().startswith('#'):
            depth += t.count('{') - t.count('}')
        res.append(raw); i += 1
    return '\n'.join(res), muts, k


HEAD = '''#ifndef MUT_H_
#define MUT_H_
namespace mutns { extern int id; extern char seen[]; inline bool hit(int k) { seen[k] = 1; return id == k; } }
#define MUT(k) __builtin_expect(mutns::hit(k), 0)
#endif
'''
MAIN = '''#include <cstdio>
#include <cstdlib>
namespace mutns { int id = 0; char seen[1 << 16]; }
__attribute__((constructor(101))) static void start() { if (const char *e = getenv("MUT")) mutns::id = atoi(e); }
static void stop() { if (const char *e = getenv("MUTCOV")) { FILE *f = fopen(e, "w"); for (int i = 0; i < 1 << 16; i++) if (mutns::seen[i]) fprintf(f, "%d\\n", i); fclose(f); } }
__attribute__((destructor)) static void fin() { stop(); }
'''
ALL = {'A': ['P%02d' % i for i in range(1, 27) if i not in (21, 24)], 'N': ['P01', 'P02', 'P03', 'P04', 'P08', 'P16', 'P17', 'P18', 'P19'], 'M': ['P12', 'P13', 'P25'], 'D': ['P08', 'P22']}
# sanitized configurations see what needs no wrong value to be wrong
SLOW = {}


def load_vf(d):
    os.environ['VERIF_REPO'] = d + '/repo'
    sys.path.insert(0, V)
    import vf
    vf.BUILD = d + '/build'
    vf.BASE += ['-include', d + '/mut.h']
    ls = vf.lib_sources
    vf.lib_sources = lambda: ls() + [d + '/mut.cpp']
    return vf


def build(d, files, only=None):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
    open(d + '/mut.h', 'w').write(HEAD)
    open(d + '/mut.cpp', 'w').write(MAIN)
    k, muts = 1, []
    for f in files:
        p = d + '/repo/' + f
        t, m, k = mutate(open(p).read(), f, k)
        open(p, 'w').write(t)
        muts += m
    print(len(muts), 'candidates', flush=True)
    vf = load_vf(d)
    sel = {c: [p for p in ps if not only or p in only] for c, ps in ALL.items()}
    wanted = [(c, h) for c, ps in sel.items() for p in ps for h in vf.CHECKS[p]['harness']]
    units = []
    for c, h in wanted:
        for u in h['units']:
            src, extra = u if isinstance(u, tuple) else (u, [])
            x = (c, vf.HARN + '/' + src, tuple(extra))
            if x not in units:
                units.append(x)
        for s in vf.lib_sources():
            if (c, s, ()) not in units:
                units.append((c, s, ()))
    pool = cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8")))
    # drop what does not compile
    bad, full = set(), False
    while True:
        def syn(x):
            c, src, extra = x
            p = subprocess.run(['nice', 'g++'] + vf.CONFIGS[c]['flags'] + vf.BASE + list(extra) + ['-fsyntax-only', '-fmax-errors=0', src], stderr=subprocess.PIPE)
            return (p.stderr.decode(errors='replace') if p.returncode else '')
        # one curve and the library show nearly all of them
        errs = list(pool.map(syn, [u for u in units if full or '/repo/' in u[1] or (u[0] in 'AM' and re.search(r'p(04|12|08|19|22b|23|25b|20b|16)\.cpp', u[1]) and u[2] in ((), ('-DCRV=1',), ('-DCRV=5',)))]))
        if not any(errs) and not full:
            full = True
            continue
        pos = set()
        for e in errs:
            for m in re.finditer(r'^(%s/repo/libff/[^:]+):(\d+):\d+: error' % d, e, re.M):
                pos.add((m.group(1), int(m.group(2))))
            for m in re.finditer(r'^(%s/repo/libff/[^:]+):(\d+):\d+:   required' % d, e, re.M):
                pass
        if not any(errs):
            break
        print('full' if full else 'some', 'errors at', len(pos), 'places', flush=True)
        if not pos:
            print([e for e in errs if e][0][:3000])
            return 1
        byfile, nowhere = {}, []
        for f, l in pos:
            byfile.setdefault(f, set()).add(l)
        for f, ls in byfile.items():
            t = open(f).read().split('\n')
            for l in ls:
                # the mutant on this line, or the nearest one above or below
                for q in [l, l - 1, l + 1, l - 2] + [l + x for x in range(2, 13)] + [l - x for x in range(3, 13)]:
                    if not 0 < q <= len(t):
                        continue
                    m = re.search(r'MUT\((\d+)\)', t[q - 1])
                    if m:
                        bad.add(int(m.group(1)))
                        t[q - 1] = ''
                        break
                else:
                    nowhere.append((f[len(d):], l, t[l - 1][:100]))
            open(f, 'w').write('\n'.join(t))
        print('nowhere', len(nowhere), nowhere[:4], flush=True)
    muts = [m for m in muts if m[0] not in bad]
    json.dump(muts, open(d + '/mutants.json', 'w'), indent=0)
    print(len(muts), 'mutants compile', flush=True)
    vf._tree = None
    bins = vf.build(wanted, pool)
    out = []
    for (c, h) in wanted:
        b = bins[(c, h['name'])]
        if isinstance(b, vf.BuildError):
            print('BUILD', c, h['name'], str(b)[-800:])
            continue
        pid = 'P' + h['name'][1:3]
        s = vf.CHECKS[pid]['harness'][0]['cfgs'].get(c, {})
        out.append({'cfg': c, 'prop': pid, 'exe': b, 'mult': s.get('mult', 1), 'div': s.get('div', 1)})

    def cov(r):
        f = '%s/cov-%s-%s' % (d, r['cfg'], r['prop'])
        w = f + '.d'; os.makedirs(w, exist_ok=True)
        t0 = time.time()
        p = subprocess.run([r['exe'], '--mult', str(r['mult']), '--div', str(r['div'] * 8), '--out', f + '.json', '--first'], env=dict(vf.ENV, MUTCOV=f, OMP_NUM_THREADS='2'), cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        r['secs'] = time.time() - t0
        r['rc'] = p.returncode
        r['reach'] = [int(x) for x in open(f)] if os.path.exists(f) else []
        return r
    out = list(pool.map(cov, out))
    for r in out:
        print(r['cfg'], r['prop'], 'rc', r['rc'], '%.1fs' % r['secs'], len(r['reach']), 'reached')
    json.dump(out, open(d + '/runners.json', 'w'))


def go(d, n=0, seed=1, budget=int(os.environ.get('MUT_WALL', '25'))):
    vf = load_vf(d)
    muts = json.load(open(d + '/mutants.json'))
    runners = [r for r in json.load(open(d + '/runners.json')) if r['rc'] == 0]
    for r in runners:
        r['reach'] = set(r['reach'])
    rp = d + '/results.json'
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    todo = [m for m in muts if str(m[0]) not in res and re.search(os.environ.get('MUT_FILES', ''), m[1])]
    if n:
        random.Random(seed).shuffle(todo)
        todo = todo[:n]

    def one(m):
        rs = sorted([r for r in runners if m[0] in r['reach']], key=lambda r: r['secs'])
        if not rs:
            return m[0], 'unreached'
        w = '%s/w%d' % (d, m[0])
        os.makedirs(w, exist_ok=True)
        try:
            for frac in (64, 8, 1):
                for r in rs:
                    lim = 5 + 20 * r['secs'] * 8 / frac
                    cmd = [r['exe'], '--mult', str(r['mult']), '--div', str(r['div'] * frac), '--out', w + '/o.json', '--first', '--hang', '20', '--wall', str(max(4, min(budget, 4 * r['secs'] * 8 / frac)))]
                    try:
                        p = subprocess.run(['nice'] + cmd, env=dict(vf.ENV, MUT=str(m[0]), OMP_NUM_THREADS='2'), cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=max(60, lim))
                        rc = p.returncode
                    except subprocess.TimeoutExpired:
                        rc = 97
                    if rc != 0:
                        return m[0], '%s %s /%d rc=%d' % (r['cfg'], r['prop'], frac, rc)
            return m[0], 'SURVIVED'
        finally:
            shutil.rmtree(w, ignore_errors=True)
    t0, c = time.time(), 0
    with cf.ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '8'))) as ex:
        for x in cf.as_completed([ex.submit(one, m) for m in todo]):
            k, r = x.result()
            res[str(k)] = r; c += 1
            if c % 50 == 0:
                json.dump(res, open(rp, 'w'))
                print(c, '/', len(todo), '%.0fs' % (time.time() - t0), sum(v == 'SURVIVED' for v in res.values()), 'survived', flush=True)
    json.dump(res, open(rp, 'w'))


def show(d, what=('SURVIVED', 'unreached')):
    muts = {m[0]: m for m in json.load(open(d + '/mutants.json'))}
    res = json.load(open(d + '/results.json'))
    for k, r in sorted(res.items(), key=lambda x: int(x[0])):
        if r in what:
            m = muts[int(k)]
            print('%-9s %s %s:%d\n     %s\n     %s' % (r, k, m[1].replace('libff/', ''), m[2], m[3][:160], m[4][:160]))
    print(len(res), 'run', sum(v == 'SURVIVED' for v in res.values()), 'survived', sum(v == 'unreached' for v in res.values()), 'unreached')


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'build':
        fs = [x for x in a[3:] if not re.match(r'P\d\d$', x)]
        sys.exit(build(a[2], fs, [x for x in a[3:] if re.match(r'P\d\d$', x)]))
    elif a[1] == 'run':
        go(a[2], *[int(x) for x in a[3:]])
    elif a[1] == 'show':
        show(a[2])
    elif a[1] == 'dry':
        t, m, _ = mutate(open(a[2]).read(), a[2], 1)
        print(t if len(a) > 3 else '\n'.join('%d %d: %s -> %s' % (x[0], x[2], x[3], x[4]) for x in m))
