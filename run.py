#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree, explores it on all cores, writes
evidence/<id>.json and reports.  Usage: run.py ID [--tier quick|thorough] | run.py --replay FILE | run.py --selftest"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'rmw_dds_common')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, os.path.join(HERE, 'tools'))
from checks import CHECKS, ASSUMPTIONS  # noqa: E402

COMMON = ['-std=c++17', '-Wno-deprecated-declarations']
VARIANTS = {
    'opt': ['-O2', '-DNDEBUG', '-g1'],
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    # compiled with ThreadSanitizer instrumentation but linked with our own runtime (harness/sched.cpp)
    'conc': ['-O1', '-g1', '-D_GLIBCXX_EXTERN_TEMPLATE=0'],
}
REPO_ONLY = {'conc': ['-fsanitize=thread']}
NCPU = os.cpu_count() or 4


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fhash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree(*dirs):
    out = []
    for d in dirs:
        for r, _, fs in os.walk(d):
            out += [os.path.join(r, f) for f in fs]
    return out


class Broken(Exception):
    pass


def build(harness, variant):
    """Returns the path of the executable; everything is rebuilt when any input changed."""
    repo_src = sorted(glob.glob(os.path.join(PKG, 'src', '**', '*.cpp'), recursive=True))
    repo_dep = repo_src + tree(os.path.join(PKG, 'include'), os.path.join(PKG, 'msg')) + \
        [f for f in tree(os.path.join(PKG, 'src')) if not f.endswith('.cpp')]
    env_dep = tree(os.path.join(HERE, 'env'))
    har_dep = tree(os.path.join(HERE, 'harness'))
    flags = COMMON + VARIANTS[variant]
    key = fhash(set(repo_dep + env_dep + har_dep), harness + variant + ' '.join(flags))
    d = os.path.join(BUILD, harness + '-' + variant + '-' + key)
    exe = os.path.join(d, 'run')
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, harness + '-' + variant + '-*')):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    gen = os.path.join(d, 'gen')
    r = sh([sys.executable, os.path.join(HERE, 'env', 'gen_msgs.py'), os.path.join(PKG, 'msg'), gen])
    if r.returncode:
        raise Broken('message generation failed:\n' + r.stdout)
    inc = ['-I' + os.path.join(HERE, 'env', 'include'), '-I' + gen, '-I' + os.path.join(PKG, 'include'),
           '-I' + os.path.join(PKG, 'src'), '-I' + os.path.join(HERE, 'harness')]
    srcs = [(s, True) for s in repo_src] + [(os.path.join(HERE, 'env', 'src', 'env.cpp'), False),
                                            (os.path.join(HERE, 'harness', harness + '.cpp'), False)]
    if variant == 'conc':
        srcs.append((os.path.join(HERE, 'harness', 'sched.cpp'), False))

    def comp(a):
        i, (s, isrepo) = a
        o = os.path.join(d, '%d-%s.o' % (i, os.path.basename(s)))
        f = flags + (REPO_ONLY.get(variant, []) if isrepo or s.endswith(('h_conc.cpp', 'h_pure.cpp')) else [])
        if s.endswith('sched.cpp'):
            f = COMMON + ['-O2', '-g1', '-fno-builtin', '-fno-threadsafe-statics']
        r = sh(['g++'] + f + inc + ['-c', s, '-o', o])
        return s, isrepo, o, r
    repo_objs, objs = [], []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for s, isrepo, o, r in ex.map(comp, enumerate(srcs)):
            if r.returncode:
                log('cannot compile %s:\n%s' % (s, r.stdout[-3000:]))
                if not isrepo:
                    raise Broken('harness does not compile against this tree')
                continue
            (repo_objs if isrepo else objs).append(o)
    lib = os.path.join(d, 'librepo.a')
    sh(['ar', 'rcs', lib] + repo_objs)
    link = [f for f in flags]
    if variant == 'conc':
        link = ['-rdynamic']
    r = sh(['g++'] + link + objs + [lib, '-o', exe + '.tmp', '-lpthread', '-ldl'])
    if r.returncode:
        raise Broken('link failed:\n' + r.stdout[-3000:])
    os.rename(exe + '.tmp', exe)
    return exe


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1',
           UBSAN_OPTIONS='print_stacktrace=1')


def workdir():
    w = os.path.join(BUILD, 'work-%d' % os.getpid())
    os.makedirs(w, exist_ok=True)
    return w


def run_exe(exe, prop, tier, variant, tag, args, timeout):
    """Returns (rc, json or None, current case, output tail)"""
    w = workdir()
    out, cur = os.path.join(w, tag + '.json'), os.path.join(w, tag + '.cur')
    for f in (out, cur):
        if os.path.exists(f):
            os.unlink(f)
    scratch = os.path.join(w, tag + '.scratch')
    os.makedirs(scratch, exist_ok=True)
    cmd = [exe, prop, '--tier', tier, '--variant', variant, '--out', out, '--cur', cur] + args
    with open(os.path.join(w, tag + '.log'), 'w') as lf:
        try:
            p = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=dict(ENV, HX_SCRATCH=scratch), timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 98
    shutil.rmtree(scratch, ignore_errors=True)
    j = None
    if rc in (0, 1) and os.path.exists(out):
        try:
            j = json.load(open(out))
        except ValueError:
            rc = 99
    elif rc in (0, 1):
        rc = 99
    case = ''
    if os.path.exists(cur):
        b = open(cur, 'rb').read()[8:]
        case = b.split(b'\0')[0].decode(errors='replace')
    with open(os.path.join(w, tag + '.log'), errors='replace') as lf:
        tail = lf.read()[:4000]
    return rc, j, case, tail


def why(rc, tail):
    if rc == 97:
        return 'the case never finished (hang)'
    if rc == 98:
        return 'the exploration never finished (hang)'
    for key in ('ERROR: AddressSanitizer', 'runtime error:', 'terminate called', 'Assertion'):
        if key in tail:
            return tail[tail.index(key):][:300].split('\n')[0]
    return 'the process died with status %d' % rc


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                # finding: property=<id> variant=<v|*> case=<case> <description>
                f = line.split(' ', 4)
                out.append({'variant': f[2].split('=', 1)[1], 'case': f[3].split('=', 1)[1], 'what': f[4]})
    return out


def check(prop, tier):
    t0 = time.time()
    c = CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    variants = c['variants']
    try:
        with cf.ThreadPoolExecutor(len(variants)) as ex:
            exes = dict(zip(variants, ex.map(lambda v: build(c['harness'], v), variants)))
    except Broken as e:
        log('BROKEN: %s' % e)
        return 2
    log('built in %.1f s' % (time.time() - t0))
    budget = c.get('budget', {}).get(tier, 200 if tier == 'quick' else 560)
    hang = c.get('hang', 40)
    jobs = []
    for v in variants:
        n = c.get('nshards', NCPU)
        for s in range(n):
            jobs.append((v, s, n))
    # long ones first: sanitized variants
    jobs.sort(key=lambda j: j[0] != 'asan')

    def one(j):
        v, s, n = j
        b = budget / max(1, len(variants)) if tier == 'thorough' else budget
        return j, run_exe(exes[v], prop, tier, v, '%s-%s-%d' % (prop, v, s),
                          ['--shard', str(s), '--nshards', str(n), '--budget', '%.0f' % b, '--hang', str(hang)], b + 150)
    res = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for x in ex.map(one, jobs):
            res.append(x)
    tot = {k: 0 for k in ('states', 'transitions', 'traces', 'evaluations')}
    outcomes, extra, samples, capped, viols, incomplete = set(), {}, [], False, [], False
    for (v, s, n), (rc, j, case, tail) in res:
        if j is not None:
            if v == variants[0] or c.get('sum_variants'):
                for k in tot:
                    tot[k] += j[k]
                outcomes.update(j['outcomes'])
                for k, x in j['extra'].items():
                    extra[k] = extra.get(k, 0) + x
            else:
                extra['executions under ' + v] = extra.get('executions under ' + v, 0) + j['evaluations']
            if s == 0 or len(samples) < 3:
                samples += j['samples'][:2]
            capped = capped or j['capped']
            for x in j['violations']:
                viols.append((v, s, n, x['case'], x['msg'], 'case'))
        else:
            viols.append((v, s, n, case, why(rc, tail), 'crash'))
    # every violation is replayed alone before it is reported
    confirmed, tried = [], 0
    for (v, s, n, case, msg, kind) in viols:
        if len(confirmed) >= 3 or tried >= 6:
            break
        tried += 1
        ok, how = False, ''
        if case:
            rc, j, _, tail = run_exe(exes[v], prop, tier, v, 'replay', ['--replay', case, '--hang', str(hang * 2)], hang * 2 + 60)
            if rc != 0:
                ok, how = True, 'case'
                if rc in (97, 98):
                    tried = 99      # replaying hangs is slow, one is enough
                if j is None:
                    msg = why(rc, tail)
                elif j['violations']:
                    msg = j['violations'][0]['msg']
        if not ok:
            rc, j, case2, tail = run_exe(exes[v], prop, tier, v, 'replay',
                                         ['--shard', str(s), '--nshards', str(n), '--budget', '%.0f' % budget, '--hang', str(hang * 3)], budget + 200)
            if rc != 0:
                ok, how = True, 'shard %d/%d' % (s, n)
        if ok:
            confirmed.append({'property': prop, 'harness': c['harness'], 'variant': v, 'tier': tier, 'case': case, 'how': how, 'shard': s,
                              'nshards': n, 'message': msg, 'replay_cmd': 'python3 /verif/run.py --replay <this file>'})
        else:
            log('not reproduced, not reported: %s %s: %s' % (v, case, msg))
            incomplete = True
    known = known_findings(prop)
    new = []
    for x in confirmed:
        k = [f for f in known if f['case'] == x['case'] and f['variant'] in ('*', x['variant'])]
        if k:
            log('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
        else:
            new.append(x)
    exhaustive = not capped and not incomplete and not viols
    cov = {'exhaustive': exhaustive, 'samples': samples[:6], 'rule': c['rule']}
    if c['level'] == 'model_checking':
        cov.update(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['traces'])
        cov['evaluations'] = tot['evaluations']
        cov['distinct_nontrivial'] = len(outcomes)
    else:
        cov.update(evaluations=tot['evaluations'], distinct_nontrivial=len(outcomes))
        if tot['states']:
            cov['states'] = tot['states']
    cov['detail'] = extra
    cov['bounds'] = c['bounds'][tier] if isinstance(c['bounds'], dict) else c['bounds']
    cov['variants'] = variants
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': c['level'], 'coverage': cov, 'assumptions': ASSUMPTIONS + c.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    log('%s %s: states %d transitions %d traces %d executions %d distinct %d exhaustive %s, %.1f s' % (
        prop, tier, tot['states'], tot['transitions'], tot['traces'], tot['evaluations'], len(outcomes), exhaustive, time.time() - t0))
    if new:
        rd = os.path.join(HERE, 'replays')
        os.makedirs(rd, exist_ok=True)
        for i, x in enumerate(new):
            p = os.path.join(rd, '%s-%d.json' % (prop, i))
            with open(p, 'w') as f:
                json.dump(x, f, indent=1)
            log('%s [%s] %s: %s' % (prop, x['variant'], x['case'], x['message']))
            log('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if tot['evaluations'] == 0:
        log('BROKEN: nothing was explored')
        return 2
    return 0


def replay(path):
    x = json.load(open(path))
    exe = build(x['harness'], x['variant'])
    if x['how'] == 'case':
        a = ['--replay', x['case']]
    else:
        a = ['--shard', str(x['shard']), '--nshards', str(x['nshards'])]
    rc, j, case, tail = run_exe(exe, x['property'], x['tier'], x['variant'], 'replay', a + ['-v'], 900)
    log(tail)
    log('violated' if rc else 'held')
    return 1 if rc else 0


def selftest():
    """The repository's own tests of the parts its build leaves out, compiled against the stand-ins of /verif/env."""
    d = os.path.join(BUILD, 'selftest')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    gen = os.path.join(d, 'gen')
    sh([sys.executable, os.path.join(HERE, 'env', 'gen_msgs.py'), os.path.join(PKG, 'msg'), gen])
    srcs = sorted(glob.glob(os.path.join(PKG, 'src', '*.cpp'))) + [os.path.join(HERE, 'env', 'src', 'env.cpp')]

    def t(name):
        exe = os.path.join(d, name)
        r = sh(['g++'] + COMMON + ['-g1', '-fsanitize=address,undefined', '-I' + os.path.join(HERE, 'env', 'include'), '-I' + gen,
                '-I' + os.path.join(PKG, 'include'), os.path.join(PKG, 'test', name + '.cpp')] + srcs +
               ['-o', exe, '-lgmock_main', '-lgmock', '-lgtest', '-lpthread'])
        if r.returncode:
            return name, r.stdout[-1500:]
        r = sh([exe], cwd=d)
        return name, '' if r.returncode == 0 else r.stdout[-1500:]
    bad = 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for n, e in ex.map(t, ['test_graph_cache', 'test_qos', 'test_gid_utils', 'test_time_utils', 'test_security']):
            log('selftest %s: %s' % (n, 'passed' if not e else 'FAILED\n' + e))
            bad |= bool(e)
    shutil.rmtree(d, ignore_errors=True)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    try:
        if a and a[0] == '--replay':
            return replay(a[1])
        if a and a[0] == '--selftest':
            return selftest()
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        return check(a[0], tier)
    finally:
        shutil.rmtree(os.path.join(BUILD, 'work-%d' % os.getpid()), ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
