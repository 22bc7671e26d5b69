#!/usr/bin/env python3
"""Decides one property: builds props/<ID>.cpp against /repo's current tree, searches for a failing
case, confirms it by replaying it, and writes evidence/<ID>.json.

  check.py C05                      quick or thorough, as VERIF_TIER says
  check.py C05 --tier thorough
  check.py --replay replays/C05/x.replay
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = os.path.join(REPO, 'include')
COMMON = ['-std=c++17', '-ffp-contract=off', '-w', '-I' + os.path.join(VERIF, 'harness'), '-I' + INC]
BUILDS = {
    'plain': ['g++', '-O2', '-DNDEBUG', '-fconstexpr-ops-limit=2000000000', '-fconstexpr-depth=4000', '-fconstexpr-loop-limit=10000000'] + COMMON,
    # another compiler, with the library's own assertions, and every undefined operation reported
    'sanitized': ['clang++', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all'] + COMMON,
    'fuzz': ['clang++', '-O1', '-g1', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-DPBT_FUZZ'] + COMMON,
}
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')


def meta(pid):
    with open(os.path.join(VERIF, 'harness', 'meta.json')) as f:
        return json.load(f)[pid]


def workdir(pid):
    d = os.path.join(VERIF, 'build', pid)
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix='run-', dir=d)


def start_build(pid, kind, d, seed=1, rows=128):
    exe = os.path.join(d, kind)
    src = [os.path.join(VERIF, 'props', pid + '.cpp'), os.path.join(VERIF, 'harness', 'main.cpp')]
    log = open(exe + '.log', 'w')
    return exe, subprocess.Popen(BUILDS[kind] + ['-DPBT_CT_SEED=%du' % (seed % 1000000), '-DPBT_CT_N=%d' % rows] + src + ['-o', exe], stdout=log, stderr=log), exe + '.log'


def headers_compile(d):
    """Do the headers as such still compile?"""
    src = os.path.join(d, 'all.cpp')
    with open(src, 'w') as f:
        for h in ['forward', 'vec', 'vec_io', 'vec_ext', 'mat', 'mat_io', 'mat_ext', 'quat', 'bbox', 'bbox_io', 'plane', 'plane_io', 'line', 'line_io',
                  'ray', 'ray_io', 'segment', 'polygon', 'distance', 'intersection', 'approx', 'convex_hull', 'bezier_surface', 'scalar', 'util', 'constexpr_util']:
            if os.path.exists(os.path.join(INC, 'vecmath', h + '.h')):
                f.write('#include <vecmath/%s.h>\n' % h)
        f.write('int main() {}\n')
    return subprocess.run(BUILDS['plain'] + ['-fsyntax-only', src], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def run_driver(exe, args, timeout):
    try:
        return subprocess.run([exe] + args, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return None


def rows(thorough):
    return 1000 if thorough else 128


def save_replay(pid, kind, path, seed, nrows):
    dst = os.path.join(VERIF, 'replays', pid)
    os.makedirs(dst, exist_ok=True)
    out = os.path.join(dst, '%s-%s' % (kind, os.path.basename(path)))
    with open(path) as f, open(out, 'w') as o:
        o.write('property: %s\nbuild: %s\ncompile-time-seed: %d\ncompile-time-rows: %d\n' % (pid, kind, seed, nrows) + f.read())
    return out


def known(pid):
    """test names of known findings of this property -> description"""
    res = {}
    with open(os.path.join(VERIF, 'known-findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) test=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    return res


def replay_main(path):
    text = open(path).read()
    pid = re.search(r'^property: (\S+)', text, re.M).group(1)
    kind = re.search(r'^build: (\S+)', text, re.M).group(1)
    d = workdir(pid)
    try:
        num = lambda k, default: int((re.search(r'^%s: (\d+)' % k, text, re.M) or [None, default])[1])
        exe, p, log = start_build(pid, kind, d, num('compile-time-seed', 1), num('compile-time-rows', 128))
        if p.wait() != 0:
            print(open(log).read()[:4000])
            return 1
        if 'kind: compile' in text:
            print('compiles')
            return 0
        r = run_driver(exe, ['--replay', path], 300)
        print(r.stdout if r else 'hangs')
        return r.returncode if r else 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        return replay_main(os.path.abspath(a.replay))
    pid = a.property
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    m = meta(pid)
    t0 = time.time()
    d = workdir(pid)
    try:
        return decide(pid, tier, seed, m, d, t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def decide(pid, tier, seed, m, d, t0):
    thorough = tier == 'thorough'
    kinds = ['plain', 'sanitized'] + (['fuzz'] if thorough else [])
    jobs = {k: start_build(pid, k, d, seed, rows(thorough)) for k in kinds}
    builds = {}
    failures, problems, tests = [], [], []
    for k in kinds:
        exe, p, log = jobs[k]
        builds[k] = p.wait() == 0
    if not builds['plain'] or not builds['sanitized']:
        bad = 'plain' if not builds['plain'] else 'sanitized'
        text = open(jobs[bad][2]).read()
        print(text[:3000])
        if not headers_compile(d):
            print('the headers of %s do not compile' % REPO)
            return 2
        # an operation the property is about cannot be used any more, although the library compiles
        path = os.path.join(d, 'compile.replay')
        errs = [l for l in text.splitlines() if 'error' in l][:5]
        with open(path, 'w') as f:
            f.write('test: -\nkind: compile\nmessage: uses of the library that compiled before do not compile any more: %s\nchoices: \n' % ' | '.join(errs))
        failures.append(dict(test='-', kind='compile', message='does not compile', inputs=' | '.join(errs), replay=save_replay(pid, bad, path, seed, rows(thorough)), build=bad))
    else:
        scale = float(m['scale']) * float(os.environ.get('VERIF_SCALE', '1'))
        for k in ['plain', 'sanitized']:
            rd = os.path.join(d, 'r-' + k)
            os.makedirs(rd)
            out = os.path.join(rd, 'out.json')
            s = scale if k == 'plain' else scale * float(m.get('sanitized', 0.05))
            for attempt in range(2):
                # the sanitized build searches other cases than the plain one
                r = run_driver(jobs[k][0], ['--seed', str(seed if k == 'plain' else seed + 1000003), '--tier', tier, '--scale', repr(s), '--out', out, '--replay-dir', rd, '--jobs', '8'], 3600)
                if r is None or not os.path.exists(out):
                    print('driver failed: %s' % (r.stdout[-2000:] if r else 'timeout'))
                    return 2
                rep = json.load(open(out))
                if not rep['problems'] or rep['failures']:
                    break
            for t in rep['tests']:
                t['build'] = k
                tests.append(t)
            for f in rep['failures']:
                f['build'] = k
                failures.append(f)
            problems += rep['problems']
            if any(f['kind'] == 'hang' for f in failures):
                break  # the other build would spend its time in the same loop
        if thorough and builds.get('fuzz'):
            fuzz(pid, seed, m, jobs['fuzz'][0], jobs['sanitized'][0], d, tests, failures)
    # confirm
    confirmed, unconfirmed = [], []
    for f in failures:
        if f['kind'] == 'compile':
            confirmed.append(f)
            continue
        exe = jobs[f['build']][0]
        again = 0
        times = 1 if f['kind'] == 'hang' else 3  # a hang was run twice already
        for _ in range(times):
            r = run_driver(exe, ['--replay', f['replay']], 300)
            again += 1 if (r is None or r.returncode == 1) else 0
        if again == times:
            f['replay'] = save_replay(pid, f['build'], f['replay'], seed, rows(thorough))
            confirmed.append(f)
        else:
            unconfirmed.append(f)
            print('a failure of %s (%s) was reproduced %d times out of %d: %s' % (f['test'], f['build'], again, times, f['message']))
    kf = known(pid)
    violations = [f for f in confirmed if f['test'] not in kf]
    for name in sorted({f['test'] for f in confirmed if f['test'] in kf}):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[name]))
    ev = evidence(pid, tier, seed, m, tests, violations, problems, time.time() - t0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for f in violations:
        print('%s [%s, %s]: %s\n    with %s' % (f['test'], f['build'], f['kind'], f['message'], f['inputs']))
        print('VIOLATION property=%s replay=%s' % (pid, f['replay']))
    n = ev['coverage']['evaluations']
    if violations:
        return 1
    if unconfirmed or problems:
        for p in problems:
            print('problem: ' + p)
        return 2
    print('%s holds on %d generated cases (%s, seed %d, %.1f s)' % (pid, n, tier, seed, time.time() - t0))
    return 0


def fuzz(pid, seed, m, exe, driver, d, tests, failures):
    """coverage-guided search over the choice sequences of the same tests"""
    fd = os.path.join(d, 'fuzzing')
    os.makedirs(os.path.join(fd, 'corpus'))
    secs = int(os.environ.get('VERIF_FUZZ_S', m.get('fuzz_s', 60)))
    procs = []
    for w in range(8):
        wd = os.path.join(fd, 'w%d' % w)
        os.makedirs(wd)
        log = open(os.path.join(wd, 'log'), 'w')
        procs.append((wd, subprocess.Popen([exe, '-seed=%d' % (seed * 8 + w + 1), '-max_total_time=%d' % secs, '-timeout=25', '-rss_limit_mb=3000', '-max_len=4096', '-len_control=20',
                                            '-use_value_profile=%d' % (w % 2), '-reload=1', '-artifact_prefix=' + wd + '/', '-print_final_stats=1', os.path.join(fd, 'corpus')],
                                           env=ENV, stdout=log, stderr=log, cwd=wd)))
    runs = 0
    for wd, p in procs:
        try:
            p.wait(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            p.kill()
        text = open(os.path.join(wd, 'log'), errors='replace').read()
        c = re.search(r'stat::number_of_executed_units:\s*(\d+)', text)
        runs += int(c.group(1)) if c else 0
        for a in glob.glob(wd + '/crash-*') + glob.glob(wd + '/timeout-*'):
            path = os.path.join(wd, 'fuzz.replay')
            r = run_driver(driver, ['--from-bytes', a, '--replay-out', path], 300)
            if r is not None and r.returncode == 1 and os.path.exists(path):
                t = open(path).read()
                g = lambda k: (re.search(r'^%s: (.*)$' % k, t, re.M) or [None, ''])[1]
                name = g('test')
                if name not in [f['test'] for f in failures]:
                    failures.append(dict(test=name, kind=g('kind'), message=g('message'), inputs=g('inputs'), replay=path, build='sanitized'))
    corpus = len(os.listdir(os.path.join(fd, 'corpus')))
    tests.append(dict(name='coverage-guided', build='fuzz', evaluations=runs, nontrivial=corpus, distinct_nontrivial=corpus,
                      labels={'corpus entries (each reached new coverage)': corpus}, samples=[]))


def evidence(pid, tier, seed, m, tests, violations, problems, wall):
    samples = []
    for t in tests:
        for s in t['samples'][:2]:
            if t['build'] == 'plain':
                samples.append('%s: %s' % (t['name'], s[:1000]))
    return {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(t['evaluations'] for t in tests),
            'distinct_nontrivial': sum(t['distinct_nontrivial'] for t in tests),
            'rule': 'Every case is drawn from a seeded sequence of choices (pure function of the seed, the test and the case number); distinct by the '
                    'hash of its choices. ' + m['rule'],
            'samples': samples,
            'tests': {'%s (%s)' % (t['name'], t['build']): {'cases': t['evaluations'], 'nontrivial': t['nontrivial'], 'distinct_nontrivial': t['distinct_nontrivial'], 'classes': t['labels']} for t in tests},
            'problems': problems,
        },
        'assumptions': m.get('assumptions', []) + ['IEEE 754 binary32/binary64 arithmetic without contraction or fast-math', 'x86-64, gcc 13 -O2 and clang 18 -O1 with ASan and UBSan'],
        'wall_s': round(wall, 2), 'violations': len(violations),
    }


if __name__ == '__main__':
    sys.exit(main())
