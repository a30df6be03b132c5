#!/usr/bin/env python3
"""check.py <property id> [--replay FILE] [--seed N] [--tier quick|thorough] [--scale X] [--sub NAME]

Builds /repo's current sources with the harness of one property, generates cases, shrinks and replays
failures, and writes evidence/<id>.json.  Exit 0: held; 1: VIOLATION printed; 2: the check itself failed.
"""
import argparse, fcntl, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
CXX = '/usr/bin/g++'
COMMON = ['-std=c++20', '-include', 'cmath', '-include', 'stdexcept', '-I' + REPO + '/include',
          '-isystem', '/usr/include/eigen3', '-DNDEBUG', '-w', '-pthread']
VARIANTS = {
    'plain': ['-O2'],
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread'],
}
sys.path.insert(0, VERIF)
from checks import CHECKS  # id -> {harness, variants, ...}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(harness, variant):
    """Compile every source of the library plus the harness; contents decide what is recompiled (ccache)."""
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, 'ccache'), CCACHE_MAXSIZE='2G', CCACHE_NOHASHDIR='1',
                   CCACHE_SLOPPINESS='', LANG='C.UTF-8')
        for k in ('CCACHE_DISABLE', 'CCACHE_READONLY', 'CPATH', 'CPLUS_INCLUDE_PATH'):
            env.pop(k, None)
        cc = (['ccache'] if shutil.which('ccache') else []) + [CXX] + COMMON + VARIANTS[variant]
        srcs = []
        for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
            dirs.sort()
            srcs += [os.path.join(root, f) for f in sorted(files) if f.endswith(('.cpp', '.cc', '.cxx'))]
        own = [os.path.join(VERIF, 'harness', 'engine.cpp')] + [os.path.join(VERIF, 'harness', h) for h in harness]

        def compile_one(s):
            o = os.path.join(d, hashlib.sha1(s.encode()).hexdigest()[:12] + '_' + os.path.basename(s) + '.o')
            extra = ['-I' + os.path.join(VERIF, 'harness')] if s.startswith(VERIF) else []
            # the engine needs no sanitizer of its own
            r = run(cc + extra + ['-c', s, '-o', o], env=env, cwd=d)
            return s, o, r.returncode, r.stdout

        with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            # big harness files first
            res = list(ex.map(compile_one, own + srcs))
        bad = [(s, out) for s, _, rc, out in res if rc]
        if bad:
            raise BuildError('\n'.join('%s:\n%s' % (s, out[-3000:]) for s, out in bad[:3]))
        exe = os.path.join(d, 'h_' + hashlib.sha1(' '.join(harness).encode()).hexdigest()[:10] + '_%d' % os.getpid())
        r = run([CXX] + VARIANTS[variant] + ['-pthread'] + [o for _, o, _, _ in res] + ['-o', exe], cwd=d)
        if r.returncode:
            raise BuildError('link: ' + r.stdout[-3000:])
    return exe


def renv():
    return dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=0',
                UBSAN_OPTIONS='exitcode=99:halt_on_error=1:print_stacktrace=0', TSAN_OPTIONS='exitcode=99:halt_on_error=1')


def replay(exe, rec, env):
    if rec.get('history'):
        h = rec['history']
        r = subprocess.run([exe, '--mode', 'history', '--id', rec['property'], '--sub', rec['sub'], '--cpu', str(rec.get('cpu', 60)), '--seed', str(rec['seed']),
                            '--first', str(h['first']), '--last', str(h['last']), '--stride', str(h['stride'])],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, errors='replace')
        return r.returncode, r.stdout
    r = subprocess.run([exe, '--mode', 'replay', '--id', rec['property'], '--sub', rec['sub'], '--cpu', str(rec.get('cpu', 60)),
                        '--choices', ' '.join(map(str, rec['choices']))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, errors='replace')
    return r.returncode, r.stdout


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick') or 'quick')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--sub')
    ap.add_argument('--build-only', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    spec = CHECKS[a.id]
    exes = []
    try:
        for v in spec['variants']:
            exes.append((v, build(spec['harness'], v)))
    except BuildError as e:
        print('BUILD FAILED for %s:\n%s' % (a.id, e))
        return 2
    if a.build_only:
        for _, e in exes:
            os.unlink(e)
        return 0
    env = renv()
    tmp = os.path.join(BUILD, 'out_%s_%d.json' % (a.id, os.getpid()))
    code, subs, violations = 0, [], 0
    try:
        if a.replay:
            rec = json.load(open(a.replay))
            exe = dict(exes)[rec['variant']]
            for _ in range(spec.get('racy', 1)):
                rc, out = replay(exe, rec, env)
                if rc == 1:
                    break
            print(out)
            if rc == 1:
                print('VIOLATION property=%s replay=%s' % (a.id, a.replay))
            return rc
        wall = {'quick': 240, 'thorough': 6 * 3600}[a.tier] / len(exes)
        for v, exe in exes:
            cmd = [exe, '--id', a.id, '--seed', str(a.seed), '--tier', a.tier, '--out', tmp, '--wall', str(wall),
                   '--scale', str(a.scale * spec.get('scale', {}).get(v, 1.0)), '--cpu', str(spec.get('cpu', 60))]
            if a.sub:
                cmd += ['--sub', a.sub]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, errors='replace')
            if r.returncode not in (0, 1):
                print('harness error %d\n%s' % (r.returncode, r.stdout[-2000:]))
                return 2
            res = json.load(open(tmp))
            for s in res['subs']:
                s['variant'] = v
                subs.append(s)
                f = s.pop('failure', None)
                if not f:
                    continue
                rec = {'property': a.id, 'sub': s['sub'], 'variant': v, 'seed': a.seed, 'case': f['case'], 'message': f['message'],
                       'trace': f['note'], 'choices': f['choices'], 'cpu': spec.get('cpu', 60),
                       'rerun': 'python3 /verif/check.py %s --replay <this file>' % a.id}
                if f['history']:
                    rec['history'] = {'first': f['first'], 'last': f['case'], 'stride': f['stride']}
                ok = [replay(exe, rec, env)[0] for _ in range(3)] if f['reproduced'] or f['history'] else [0, 0, 0]
                if ok != [1, 1, 1] and spec.get('racy'):
                    # which thread comes first is not up to us: the failure counts when the same case fails again within a number of attempts
                    rec.pop('history', None)
                    for choices in [rec['choices'], f['original']] * spec['racy']:
                        rec['choices'] = choices
                        rc, out = replay(exe, rec, env)
                        ok.append(rc)
                        if rc == 1:
                            rec['message'] = f['message'] = out.split('FAIL ', 1)[-1].splitlines()[0] if 'FAIL ' in out else f['message']
                            rec['racy'] = ok = [1, 1, 1]
                            break
                if ok != [1, 1, 1]:
                    print('NOTE %s/%s: a failure (%s) did not replay deterministically %s; not reported' % (a.id, s['sub'], f['first_message'][:300], ok))
                    continue
                os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
                path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (a.id, s['sub'], hashlib.sha1(json.dumps(rec['choices']).encode()).hexdigest()[:8]))
                json.dump(rec, open(path, 'w'), indent=1)
                print('%s/%s (%s): %s' % (a.id, s['sub'], v, f['message']))
                if f['note']:
                    print('  ' + f['note'].rstrip().replace('\n', '\n  '))
                print('VIOLATION property=%s replay=%s' % (a.id, path))
                violations += 1
                code = 1
            if code:
                break
    finally:
        for _, e in exes:
            if os.path.exists(e):
                os.unlink(e)
        if os.path.exists(tmp):
            os.unlink(tmp)
    if not a.no_evidence:
        ev = {
            'property': a.id, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': sum(s['evaluations'] for s in subs),
                'distinct_nontrivial': sum(s['distinct_nontrivial'] for s in subs),
                'rule': 'cases are choice sequences drawn by a seeded generator; distinct = different choice sequences; non-trivial per sub-check: '
                        + '; '.join('%s: %s' % (k, r) for k, r in dict((s['sub'], s['rule']) for s in subs).items()),
                'samples': [{'sub': s['sub'], 'case': x} for s in subs for x in s['samples'][:2]],
                'subchecks': [{k: s[k] for k in ('sub', 'variant', 'planned', 'evaluations', 'nontrivial', 'distinct_nontrivial', 'wall_s', 'labels')} for s in subs],
            },
            'assumptions': spec.get('assumptions', []),
            'wall_s': round(time.time() - t0, 2), 'violations': violations,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', a.id + '.json'), 'w'), indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, %s' % (
        a.id, a.tier, a.seed, sum(s['evaluations'] for s in subs), sum(s['distinct_nontrivial'] for s in subs), time.time() - t0,
        'VIOLATED' if code else 'held'))
    for s in subs:
        print('   %-28s %-6s %8d cases %8d non-trivial %6.1f s' % (s['sub'], s['variant'], s['evaluations'], s['distinct_nontrivial'], s['wall_s']))
    return code


if __name__ == '__main__':
    sys.exit(main())
