#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code in /repo.

  check.py --property ID [--tier quick|thorough] [--entry NAME]   run the check
  check.py --property ID --replay FILE [--tier T]                 run one recorded input natively
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'checks'))
ENV = dict(os.environ, PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LANG='C', LC_ALL='C')
for k in ('CPLUS_INCLUDE_PATH', 'CPATH', 'CXXFLAGS', 'LDFLAGS', 'CFLAGS'):
    ENV.pop(k, None)
CLANGXX, CLANG, LLVM = '/usr/bin/clang++-18', '/usr/bin/clang-18', '/usr/lib/llvm-18/bin'
NCPU = os.cpu_count() or 8


def sh(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


class BuildError(Exception):
    pass


def must(cmd, what, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        raise BuildError('%s failed: %s\n%s' % (what, ' '.join(cmd), r.stderr[-3000:]))
    return r


def engine():
    """Build posym when absent or older than its sources."""
    d = os.path.join(V, 'engine')
    srcs = sorted(glob.glob(d + '/*.cpp') + glob.glob(d + '/*.h'))
    h = hashlib.sha256()
    for s in srcs:
        if os.path.basename(s) == 'rt.cpp':
            continue
        h.update(open(s, 'rb').read())
    b = os.path.join(V, 'build')
    stamp = os.path.join(b, 'posym.stamp')
    exe = os.path.join(b, 'posym')
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return exe
    must(['bash', os.path.join(d, 'build.sh'), b], 'engine build')
    open(stamp, 'w').write(h.hexdigest())
    return exe


def repo_sources():
    return sorted(glob.glob(REPO + '/src/*.cpp'))


def par(jobs):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(must, *j) for j in jobs]:
            f.result()


def build_bitcode(work, harness, tier, entries):
    base = ['-I' + REPO + '/include', '-I' + V + '/harness', '-O1', '-Xclang', '-disable-llvm-passes', '-g0', '-emit-llvm', '-c', '-w',
            '-D_GLIBCXX_ASSERTIONS', '-DPOSYM', '-fno-jump-tables', '-ffp-contract=off']
    if tier == 'thorough':
        base.append('-DTHOROUGH')
    jobs, bcs = [], []
    for s in [os.path.join(V, 'engine/rt.cpp')] + [os.path.join(V, 'harness', h) for h in harness] + repo_sources():
        o = os.path.join(work, os.path.basename(s)[:-4] + ('_h' if '/harness/' in s else '') + '.bc')
        extra = ['-fno-access-control', '-fno-builtin'] if s.endswith('engine/rt.cpp') else []
        jobs.append(([CLANGXX, '-std=gnu++17'] + base + extra + [s, '-o', o], 'bitcode'))
        bcs.append(o)
    o = os.path.join(work, 'rt_c.bc')
    jobs.append(([CLANG] + base + ['-fno-builtin', os.path.join(V, 'engine/rt_c.c'), '-o', o], 'bitcode'))
    bcs.append(o)
    par(jobs)
    r = must([LLVM + '/llvm-nm', '--defined-only', '--format=just-symbols', os.path.join(work, 'rt.bc'), os.path.join(work, 'rt_c.bc')], 'nm')
    open(os.path.join(work, 'own'), 'w').write(r.stdout)
    a1, a2, a3 = (os.path.join(work, x) for x in ('a1.bc', 'a2.bc', 'a3.bc'))
    must([LLVM + '/llvm-link'] + bcs + ['-o', a1], 'link')
    keep = ','.join(entries + ['memcmp', 'memcpy', 'memmove', 'memset', 'strlen', 'bcmp', 'memchr', 'strcmp', 'strchr', 'wcslen', 'wmemcpy'])
    must([LLVM + '/opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + keep, a1, '-o', a2], 'internalize')
    must([LLVM + '/opt', '-O2', '-vectorize-loops=false', '-vectorize-slp=false', a2, '-o', a3], 'opt')
    return a3


def build_native(work, harness, tier, san=True):
    d = os.path.join(work, 'native-%s' % san)
    os.makedirs(d, exist_ok=True)
    base = ['-std=gnu++17', '-I' + REPO + '/include', '-I' + V + '/harness', '-g1', '-w', '-c']
    base += ['-O1', '-fsanitize=thread', '-pthread'] if san == 'thread' else ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer'] if san else ['-O0', '-g']
    if tier == 'thorough':
        base.append('-DTHOROUGH')
    jobs, objs = [], []
    for s in [os.path.join(V, 'harness/native.cpp')] + [os.path.join(V, 'harness', h) for h in harness] + repo_sources():
        o = os.path.join(d, os.path.basename(s)[:-4] + ('_h' if '/harness/' in s else '') + '.o')
        jobs.append((['/usr/bin/g++'] + base + [s, '-o', o], 'native'))
        objs.append(o)
    par(jobs)
    exe = os.path.join(d, 'replay')
    must(['/usr/bin/g++'] + objs + (['-fsanitize=thread', '-pthread'] if san == 'thread' else ['-fsanitize=address,undefined'] if san else []) + ['-rdynamic', '-ldl', '-o', exe], 'native link')
    return exe


def write_replay(path, entry, inputs, note=''):
    with open(path, 'w') as f:
        f.write('# entry %s\n' % entry)
        for l in note.splitlines():
            f.write('# %s\n' % l)
        for k, n, v in inputs:
            f.write('%s\t%s\t%s\n' % (k, n, v))
    return path


ASAN = dict(ENV, ASAN_OPTIONS='detect_leaks=0:hard_rss_limit_mb=3000:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='exitcode=78:print_stacktrace=0', TSAN_OPTIONS='halt_on_error=1:exitcode=66')


def run_native(exe, entry, path, timeout=20, pre=()):
    try:
        r = subprocess.run(list(pre) + [exe, entry, path], env=ASAN, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out = r.stdout.decode('latin-1')
        return r.returncode, out, r.stderr.decode('latin-1')
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''


def native_result(out):
    obs, cov, asr = [], [], None
    for l in out.splitlines():
        if l.startswith('OBS '):
            body = l[4:]
            lab, _, hx = body.rpartition(' ')
            obs.append([lab, hx])
        elif l.startswith('COVER '):
            cov.append(l[6:])
        elif l.startswith('ASSERT '):
            asr = l[7:]
    return obs, cov, asr


def merge(outs):
    t = {}
    lists = ('events', 'samples', 'cover_samples', 'unsup_samples')
    for p in outs:
        d = json.load(open(p))
        for k, v in d.items():
            if k in lists:
                t.setdefault(k, []).extend(v)
            elif k == 'functions':
                t.setdefault(k, set()).update(v)
            elif isinstance(v, dict):
                x = t.setdefault(k, {})
                for a, b in v.items():
                    x[a] = max(x.get(a, 0), b) if k.startswith('in_') else x.get(a, 0) + b
            elif k in ('max_depth',):
                t[k] = max(t.get(k, 0), v)
            else:
                t[k] = t.get(k, 0) + v
    return t


def bounds(m):
    """What was left symbolic, read off the inputs the harness asked the engine for."""
    o = []
    for n in sorted(m.get('in_count', {})):
        t = []
        if n in m['in_bytes']:
            t.append('up to %d symbolic bytes' % m['in_bytes'][n])
        if m['in_choices'].get(n):
            t.append('%d alternatives' % m['in_choices'][n])
        if m['in_count'][n] > 1:
            t.append('up to %d times per path' % m['in_count'][n])
        o.append('%s: %s' % (n, ', '.join(t)))
    return '; '.join(o)


def load_known():
    p = os.path.join(V, 'known-findings.jsonl')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('status') == 'finding':
                    r.append(d)
    return r


def matches_known(k, pid, entry, ev):
    if k['property'] != pid or k.get('entry') not in (None, entry):
        return False
    if 'msg' in k and not re.search(k['msg'], ev['msg']):
        return False
    if 'where' in k and not re.search(k['where'], ev['where']):
        return False
    for name, pat in k.get('inputs', {}).items():
        vals = []
        for kind, n, v in ev['inputs']:
            if n == name:
                vals.append(bytes.fromhex(v).decode('latin-1') if kind == 'B' else str(v))
        if not any(re.search(pat, x, re.S) for x in vals):
            return False
    return True


def show(inputs):
    o = []
    for k, n, v in inputs:
        o.append('%s=%s' % (n, v if k == 'C' else repr(bytes.fromhex(v))[1:]))
    return ' '.join(o)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--entry')
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--keep')
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from props import PROPS
    P = PROPS[a.property]
    pid, tier = a.property, a.tier
    t0 = time.time()
    work = a.keep or tempfile.mkdtemp(prefix='posym-')
    os.makedirs(work, exist_ok=True)
    try:
        return run(a, P, pid, tier, seed, t0, work)
    except BuildError as e:
        print('ERROR: ' + str(e), file=sys.stderr)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def run(a, P, pid, tier, seed, t0, work):
    harness = P['harness']
    entries = [e for e in P['entries'] if not a.entry or e['name'] == a.entry]
    entries = [e for e in entries if tier in e.get('tiers', ('quick', 'thorough'))]
    names = [e['name'] for e in P['entries']]
    if a.replay:
        entry = re.match(r'# entry (\S+)', open(a.replay).readline()).group(1)
        shared = re.search(r'^# shared: ', open(a.replay).read(), re.M)
        exe = build_native(work, harness, tier, 'thread' if shared else True)
        rc, out, err = run_native(exe, entry, a.replay, 60 if shared else 20)
        sys.stdout.write(out)
        sys.stderr.write(err)
        print('exit', rc)
        return 0 if rc == 0 else 1
    with cf.ThreadPoolExecutor(3) as ex:
        fe = ex.submit(engine)
        fb = ex.submit(build_bitcode, work, harness, tier, names)
        bc = fb.result()
        posym = fe.result()
    tb = time.time() - t0
    natpool = cf.ThreadPoolExecutor(1)
    fn = None if a.no_native else natpool.submit(build_native, work, harness, tier)
    hard = 560 if tier == 'quick' else 780
    outdir = os.path.join(V, 'out', pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    results, problems = [], []
    def explore(ie):
        i, e = ie
        left = hard - (time.time() - t0)
        budget = a.budget or e.get('budget', {}).get(tier, 150 if tier == 'quick' else 400)
        budget = max(5, min(budget, left - 2 * (len(entries) - i)))
        op = os.path.join(work, 'o_' + e['name'])
        cmd = [posym, bc, '--entry', e['name'], '--workers', str(e.get('workers', min(8, NCPU))), '--budget', '%.1f' % budget, '--seed', str(seed), '--out', op, '--own', os.path.join(work, 'own'),
               '--samples', str(e.get('samples', 48 if tier == 'quick' else 120)), '--max-instrs', str(e.get('max_instrs', 20000000))]
        ts = time.time()
        r = sh(cmd)
        outs = glob.glob(op + '.*')
        if r.returncode not in (0, 4) or not outs:
            problems.append('engine failed on %s: rc %s %s' % (e['name'], r.returncode, r.stderr[-800:]))
            if not outs:
                return None
        m = merge(outs)
        m['entry'] = e
        m['wall'] = time.time() - ts
        m['bad'] = r.returncode != 0
        if a.v:
            t = '%-28s %6.1fs paths=%d forks=%d instr=%d br=%d dom=%d z3=%d(%.1fs) hits=%d asserts=%d/%d killed=%d unsup=%d inc=%d pend=%d ev=%d depth=%d\n' % (
                e['name'], m['wall'], m['paths'], m['forks'], m['instrs'], m['branches'], m['dom_queries'], m['z3_queries'], m['z3_time'], m['cache_hits'], m['asserts_concrete'], m['asserts_symbolic'],
                m['assume_killed'], m['unsupported'], m['incomplete'], m['pending'], len(m['events']), m['max_depth'])
            t += '   covers %s ends %s\n' % (m['covers'], m['ends'])
            for k, v in m['unsup_msgs'].items():
                t += '   UNSUPPORTED %d %s\n' % (v, k)
            if r.stderr:
                t += r.stderr[-1500:] + '\n'
            print(t, end='', flush=True)
        return m

    # one entry's serial phase (splitting, solver-heavy single paths) overlaps with another's parallel phase
    with cf.ThreadPoolExecutor(3) as ex:
        results = [m for m in ex.map(explore, enumerate(entries)) if m is not None]
    # ---- native replay
    exe = fn.result() if fn else None
    plain = threads = None
    violations, known, unconfirmed = [], [], []
    kf = load_known()
    validated = mism = 0
    mismatch_notes = []
    samples_out = []
    n = 0

    def confirm(entry, ev):
        nonlocal n, plain, threads
        n += 1
        path = write_replay(os.path.join(outdir, 'cex-%d.txt' % n), entry, ev['inputs'], '%s: %s\nat %s' % (ev['kind'], ev['msg'], ev['where']))
        if exe is None:
            return 'symbolic', path, ''
        if ev['kind'] == 'shared':          # the same body in two threads, watched by ThreadSanitizer
            threads = threads or build_native(work, harness, tier, 'thread')
            rc, out, err = run_native(threads, entry, path, 60)
            return ('confirmed' if rc == 66 or (isinstance(rc, int) and rc < 0) else None), path, 'ThreadSanitizer rc=%s %s' % (rc, (err or '')[:600])
        rc, out, err = run_native(exe, entry, path)
        if rc in (0, 4, 5) and ev['kind'] in ('uninit', 'memory', 'unreachable') and shutil.which('valgrind'):
            plain = plain or build_native(work, harness, tier, san=False)
            rc, out, err = run_native(plain, entry, path, 60, ('valgrind', '-q', '--error-exitcode=9'))
        if rc == 3 and ev['kind'] == 'assert':
            return 'confirmed', path, native_result(out)[2] or ''
        if rc in (0, 4, 5, 2):
            return None, path, 'rc=%s' % rc
        return 'confirmed', path, 'native rc=%s %s' % (rc, (err or '')[-400:])

    for m in results:
        entry = m['entry']['name']
        if a.no_native:
            for ev in m['events'][:12]:
                print('  EVENT', ev['kind'], '|', ev['msg'], '|', show(ev['inputs']), '|', ev['where'][:200])
                write_replay(os.path.join(outdir, 'ev-%s.txt' % entry), entry, ev['inputs'])
            continue
        seen = {}
        for ev in sorted(m['events'], key=lambda x: (x['kind'] != 'assert', len(x['inputs']))):
            key = (ev['kind'], ev['msg'])
            kn = next((k for k in kf if matches_known(k, pid, entry, ev)), None)
            if kn is not None:
                if kn not in known:
                    st, path, note = confirm(entry, ev)
                    if st:
                        known.append(kn)
                continue
            if seen.get(key, 0) >= 2 or len(violations) >= 12:
                continue
            st, path, note = confirm(entry, ev)
            if st:
                seen[key] = seen.get(key, 0) + 1
                violations.append((entry, ev, path, note))
            else:
                unconfirmed.append({'entry': entry, 'kind': ev['kind'], 'msg': ev['msg'], 'where': ev['where'], 'inputs': show(ev['inputs']), 'native': note})
        # translation validation: sampled completed paths on the real build
        sm = m['cover_samples'] + m['samples']
        jobs = []
        seenin = set()
        for s in sm:
            ki = json.dumps(s['inputs'])
            if ki not in seenin:
                seenin.add(ki)
                jobs.append(s)
        lim = 60 if tier == 'quick' else 200
        jobs = jobs[:lim]

        def val(js):
            idx, s = js
            p = write_replay(os.path.join(work, 's_%s_%d.txt' % (entry, idx)), entry, s['inputs'])
            rc, out, err = run_native(exe, entry, p)
            return s, p, rc, out, err
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for s, p, rc, out, err in ex.map(val, enumerate(jobs)):
                obs, cov, asr = native_result(out)
                if rc == 0 and obs == s['obs'] and set(cov) == set(s['covers']):
                    validated += 1
                    continue
                if rc == 3 or rc not in (0, 4, 5, 2):
                    ev = {'kind': 'native', 'msg': asr or 'native run failed rc=%s' % rc, 'where': (err or '')[-300:], 'inputs': s['inputs'], 'obs': []}
                    if next((k for k in kf if matches_known(k, pid, entry, ev)), None) is None and len(violations) < 12:
                        st, path, note = confirm(entry, ev)
                        if st:
                            violations.append((entry, ev, path, 'found while validating a sampled path on the native build; ' + note))
                    continue
                mism += 1
                mismatch_notes.append({'entry': entry, 'inputs': show(s['inputs']), 'rc': rc, 'sym_obs': s['obs'][:6], 'native_obs': obs[:6], 'native_covers': cov, 'sym_covers': s['covers']})
        # paths the engine could not follow to the end: at least run their inputs on the real build
        if m['unsup_samples']:
            def runu(js):
                p = write_replay(os.path.join(work, 'u_%s_%d.txt' % (entry, js[0])), entry, js[1]['inputs'])
                return js[1], run_native(exe, entry, p)
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for s, (rc, out, err) in ex.map(runu, enumerate(m['unsup_samples'][:lim])):
                    if rc == 3 or rc not in (0, 4, 5, 2):
                        ev = {'kind': 'native', 'msg': native_result(out)[2] or 'native run failed rc=%s' % rc, 'where': (err or '')[-300:], 'inputs': s['inputs'], 'obs': []}
                        if next((k for k in kf if matches_known(k, pid, entry, ev)), None) is None and len(violations) < 12:
                            st, path, note = confirm(entry, ev)
                            if st:
                                violations.append((entry, ev, path, 'input of a path the engine could not follow to its end, run on the native build; ' + note))
        for s in (m['cover_samples'] + m['samples'])[:4]:
            samples_out.append({'entry': entry, 'path_witness': show(s['inputs']), 'observed': [[l, bytes.fromhex(h).decode('latin-1')] for l, h in s['obs']][:6], 'covers': s['covers']})
    # ---- vacuity
    missing = []
    for m in results:
        for c in m['entry'].get('covers', []):
            if not m['covers'].get(c):
                missing.append((m['entry']['name'], c, bool(m['pending'] or m['unsupported'] or m['incomplete'] or m['bad'])))
    tot = lambda k: sum(m.get(k, 0) for m in results)
    funcs = set()
    for m in results:
        funcs |= m['functions']
    r = sh(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(sorted(funcs)))
    dem = [x for x in r.stdout.splitlines() if 'program_options' in x]
    dem = [re.sub(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string', x)[:200] for x in dem]
    truncated = [m['entry']['name'] for m in results if m['pending'] or m['incomplete'] or m['unsupported'] or m['bad']]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('forks') + len(results), 'transitions': tot('branches'),
            'traces_validated_against_impl': validated,
            'samples': samples_out[:24],
            'exhaustive': not truncated,
            'explanation': 'states = symbolic states created, transitions = symbolic branch decisions; each completed path stands for all inputs satisfying its path condition.',
            'paths_completed': tot('paths'), 'instructions': tot('instrs'),
            'assertions_decided_by_solver': tot('assert_queries'), 'assertions_proved_unsat': tot('assert_unsat'), 'assertions_true_on_every_value_of_their_path': tot('asserts_concrete'),
            'solver': {'z3_queries': tot('z3_queries'), 'z3_sat': tot('z3_sat'), 'z3_unsat': tot('z3_unsat'), 'z3_unknown': tot('z3_unknown'), 'z3_seconds': round(tot('z3_time'), 2),
                       'single_byte_domain_queries': tot('dom_queries'), 'cross_checked_with_z3': tot('domain_xchecks'), 'cache_hits': tot('cache_hits')},
            'functions_encoded': len(funcs), 'library_functions_encoded': dem[:400],
            'entries': [{'entry': m['entry']['name'], 'bounds': bounds(m),
                         'paths': m['paths'], 'states': m['forks'] + 1, 'wall_s': round(m['wall'], 1), 'covers': m['covers'], 'pending_states_at_budget': m['pending'], 'solver_unknown': m['incomplete'],
                         'unsupported_paths': m['unsupported'], 'unsupported': m['unsup_msgs'], 'assume_killed': m['assume_killed'], 'max_depth': m['max_depth'], 'complete': not (m['pending'] or m['incomplete'] or m['unsupported'])} for m in results],
            'not_complete': truncated,
            'validation_mismatches': mism, 'mismatch_notes': mismatch_notes[:10], 'unconfirmed_symbolic_events': unconfirmed[:20],
            'build_s': round(tb, 1),
        },
        'assumptions': P.get('assumptions', []) + COMMON,
        'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
    }
    if not a.no_native and not a.entry:
        json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if violations:
        for entry, e, path, note in violations[:6]:
            print('  %s in %s: %s' % (e['kind'], entry, e['msg']))
            print('    input: %s' % show(e['inputs']))
            print('    at: %s' % e['where'][:300])
            print('    native replay: %s' % note[:300])
        print('VIOLATION property=%s replay=%s' % (pid, violations[0][2]))
    for u in unconfirmed[:5]:
        print('note: symbolic event not reproduced by the native build (not reported): %s' % u, file=sys.stderr)
    for u in mismatch_notes[:3]:
        print('note: model/native mismatch: %s' % u, file=sys.stderr)
    for p in problems:
        print('ERROR: ' + p, file=sys.stderr)
    vac = [x for x in missing if not x[2]]
    for x in missing:
        print('note: reachability witness not found: %s/%s%s' % (x[0], x[1], ' (exploration truncated)' if x[2] else ''), file=sys.stderr)
    print('%s %s: %d paths, %d states, %d z3 queries (%.1fs), %d assertions, validated %d/%d, %s, %.0fs' % (
        pid, tier, tot('paths'), tot('forks') + len(results), tot('z3_queries'), tot('z3_time'), tot('asserts_concrete') + tot('asserts_symbolic'), validated, validated + mism,
        'complete within bounds' if not truncated else 'INCOMPLETE: ' + ','.join(truncated), time.time() - t0))
    if violations:
        return 1
    if (vac or (problems and not results)) and not a.no_native:
        return 2
    return 0


COMMON = [
    'Bounds per entry are those listed in coverage.entries; inputs outside them are not covered.',
    'The library is compiled by clang 18 from the current /repo sources to LLVM IR (-O2 mid-level optimisation, asserts on, _GLIBCXX_ASSERTIONS) and executed symbolically; machine-code libc/libstdc++ parts are replaced by engine/rt.cpp and engine/rt_c.c ("C" locale, allocation never fails below 4 MiB).',
    'Counterexamples are reported only when the native g++ build with ASan/UBSan (or valgrind) reproduces them; sampled paths are replayed natively and their observations compared.',
    'Feasibility of conditions over one byte is decided over its 256-value domain (a sample is cross-checked with Z3); everything else by Z3.',
]

if __name__ == '__main__':
    sys.exit(main())
