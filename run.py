#!/usr/bin/env python3
"""Runner of the runtime monitors: builds /repo's sources with sanitizers, drives the workload, judges what the monitors saw.

usage: run.py CXX            run the check (VERIF_SEED, VERIF_TIER)
       run.py CXX --replay F  run the case(s) recorded in a replay file, verbosely
       run.py --setup         check the tools
Exit: 0 property held on everything explored, 1 VIOLATION, 3 error of the check itself.
"""
import sys, os, json, glob, hashlib, subprocess, time, re, shutil, struct, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(HERE, 'out')
BASE = ['-std=c++14', '-w', '-g1', '-fno-omit-frame-pointer', '-DNDEBUG_OFF', '-I' + REPO + '/include', '-I' + HERE + '/harness',
        '-I/usr/include/eigen3', '-isystem', '/usr/lib/python3/dist-packages/numpy/core/include', '-I/usr/include/python3.12']
ASAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
FLAVOURS = {
    'asan': (['g++'], ASAN, []),
    'tsan': (['clang++'], ['-O1', '-fsanitize=thread', '-D_GLIBCXX_ASSERTIONS'], ['-lpthread']),
    'plain': (['g++'], ['-O1'], []),
    'fast': (['g++'], ['-O2', '-D_GLIBCXX_ASSERTIONS'], []),
}
ENVX = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77:halt_on_error=1',
    'TSAN_OPTIONS': 'exitcode=77:halt_on_error=1:second_deadlock_stack=1',
    'PYTHONPATH': os.path.join(HERE, 'harness', 'pystub'), 'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': 'C.UTF-8',
}
from props import PROPS  # noqa: E402


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def slurp(p):
    with open(p, 'rb') as f:
        return f.read()


def build(flavour, harness, extra_link=()):
    """compile /repo's current sources and the harness; objects are cached by content"""
    cxx, cf, lf = FLAVOURS[flavour]
    bdir = os.path.join(OUT, 'build', flavour)
    os.makedirs(bdir, exist_ok=True)
    hdrs = sorted(glob.glob(REPO + '/include/**/*.h*', recursive=True))
    libsrc = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    if not libsrc:
        raise CheckError('no sources in ' + REPO)
    flags = BASE + cf
    hh = sha(*[slurp(h) for h in hdrs], ' '.join(cxx + flags))
    mh = sha(*[slurp(h) for h in sorted(glob.glob(HERE + '/harness/*.hpp'))])
    jobs = [(os.path.join(HERE, 'harness', harness), mh), (os.path.join(HERE, 'harness', 'mon.cpp'), mh)] + [(s, '') for s in libsrc]
    objs, todo = [], []
    for src, x in jobs:
        o = os.path.join(bdir, os.path.basename(src)[:-4] + '-' + sha(hh, x, src, slurp(src)) + '.o')
        objs.append(o)
        if not os.path.exists(o):
            todo.append((src, o))

    def comp(so):
        src, o = so
        tmp = o + '.%d.tmp' % os.getpid()
        p = subprocess.run(cxx + flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            return '%s: %s' % (src, p.stdout.decode(errors='replace')[:3000])
        os.replace(tmp, o)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(comp, todo) if e]
    if errs:
        raise CheckError('compilation failed:\n' + '\n'.join(errs))
    exe = os.path.join(bdir, harness[:-4] + '-' + sha(*objs))
    if not os.path.exists(exe):
        p = subprocess.run(cxx + flags + objs + ['-o', exe + '.tmp', '-lpython3.12', '-ldl'] + lf + list(extra_link), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise CheckError('link failed: ' + p.stdout.decode(errors='replace')[:3000])
        os.replace(exe + '.tmp', exe)
    return exe


def env():
    e = dict(os.environ)
    e.update(ENVX)
    return e


def crash_kind(text, rc):
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|ERROR: ThreadSanitizer: [^\n]*|Assertion `[^\n]*|Assertion \'[^\n]*|terminate called[^\n]*)', text)
    return (m.group(1)[:300] if m else 'process ended with status %s' % rc)


def crash_key(text, rc):
    if 'AddressSanitizer' in text: return 'memory-error'
    if 'ThreadSanitizer' in text: return 'data-race'
    if 'runtime error' in text: return 'undefined-behaviour'
    if 'Assertion' in text: return 'assertion'
    if 'terminate called' in text: return 'uncaught-exception'
    return 'crash'


def run_shard(cfg, exe, prop, seed, start, count, wd, k, watchdog, deadline):
    """runs one shard; restarts after a crash. Returns list of result objects"""
    res, cur, end, crashes = [], start, start + count, 0
    while cur < end and crashes < 4:
        out = os.path.join(wd, 's%d_%d.jsonl' % (k, crashes))
        prog = os.path.join(wd, 's%d_%d.prog' % (k, crashes))
        sig = os.path.join(wd, 's%d_%d.sig' % (k, crashes))
        errf = os.path.join(wd, 's%d_%d.err' % (k, crashes))
        cmd = cfg.get('wrap', []) + [exe, '--seed', str(seed), '--start', str(cur), '--count', str(end - cur), '--out', out, '--progress', prog, '--sigs', sig] + cfg.get('args', [])
        with open(errf, 'wb') as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=env(), cwd=wd, start_new_session=True)
            last, lastt, hung, late = None, time.time(), False, False
            while True:
                try:
                    p.wait(0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time()
                try:
                    st = slurp(prog)
                except OSError:
                    st = None
                if st != last:
                    last, lastt = st, now
                if now - lastt > watchdog:
                    hung = True
                if now > deadline:
                    late = True
                if hung or late:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
        rc = p.returncode
        txt = slurp(errf).decode(errors='replace')
        done = []
        if os.path.exists(out):
            for l in slurp(out).decode(errors='replace').splitlines():
                try:
                    done.append(json.loads(l))
                except ValueError:
                    pass
        res += done
        if os.path.exists(sig):
            res.append({'sigs': sig})
        if late:
            raise CheckError('time budget exceeded (shard %d)' % k)
        if rc == 0 and any('summary' in d for d in done):
            break
        if rc == 4:
            raise CheckError('harness usage error: ' + txt[-500:])
        try:
            case = struct.unpack('<q', slurp(prog)[:8])[0]
        except Exception:
            raise CheckError('harness died before the first case (status %s): %s' % (rc, txt[-2000:]))
        if hung:
            # once more alone, to separate a hang from a slow machine
            try:
                q = subprocess.run(cfg.get('wrap', []) + [exe, '--seed', str(seed), '--start', str(case), '--count', '1', '--out', out + '.x'] + cfg.get('args', []), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(), cwd=wd, timeout=watchdog)
                cur = case + 1
                continue
            except subprocess.TimeoutExpired:
                res.append({'fail': True, 'case': case, 'key': 'hang', 'msg': 'the case does not end within %d s, twice' % watchdog, 'input': ''})
        elif rc == -9:
            raise CheckError('a shard was killed (out of memory?)')
        else:
            res.append({'fail': True, 'case': case, 'key': crash_key(txt, rc), 'msg': crash_kind(txt, rc), 'input': '', 'report': txt[-6000:]})
        crashes += 1
        cur = case + 1
    return res


def known_findings():
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith('{'):
                r.append(json.loads(l))
    return [k for k in r if k.get('status') == 'known']


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        for t in ('g++', 'clang++', 'valgrind'):
            if not shutil.which(t):
                log('missing tool', t)
                return 3
        os.makedirs(OUT, exist_ok=True)
        log('tools present')
        return 0
    prop = sys.argv[1]
    cfg = PROPS[prop]
    if '--replay' in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        part = cfg['parts'][rp['part']]
        exe = build(part['flavour'], part['harness'])
        return subprocess.run(part.get('wrap', []) + [exe, '--seed', str(rp['seed']), '--start', str(rp['case']), '--count', '1', '--verbose'] + part.get('args', []), env=env()).returncode
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    wd = os.path.join(OUT, 'work', '%s-%s-%d' % (prop, tier, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    rdir = os.path.join(OUT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {}, 'assumptions': cfg.get('assumptions', []), 'wall_s': 0, 'violations': 0}
    evp = os.path.join(HERE, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    fails, tot, classes, samples, sigs, parts = [], {'evals': 0, 'skipped': 0, 'checks': 0, 'nontrivial': 0}, {}, [], set(), []
    try:
        known = known_findings()
        bt = 0
        deadline = t0 + (780 if tier == 'quick' else 6 * 3600)
        for probe in cfg.get('probes', []):  # user programs that have to compile against the public headers
            p = subprocess.run(['g++'] + BASE + ['-fsyntax-only', os.path.join(HERE, 'harness', 'probe', probe)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                build(cfg['parts'][0]['flavour'], cfg['parts'][0]['harness'])  # an error of the check if nothing compiles
                fails.append({'fail': True, 'part': 0, 'case': 0, 'key': 'does-not-compile', 'msg': probe + ': ' + p.stdout.decode(errors='replace')[:500]})
        for pi, part in enumerate(cfg['parts']):
            b0 = time.time()
            exe = build(part['flavour'], part['harness'])
            bt += time.time() - b0
            n = part['quick'] if tier == 'quick' else part['thorough']
            if os.environ.get('VERIF_CASES'):
                n = int(os.environ['VERIF_CASES'])
            shards = part.get('shards', 8)
            shards = max(1, min(shards, n))
            cuts = [n * i // shards for i in range(shards + 1)]
            pw = os.path.join(wd, 'p%d' % pi)
            os.makedirs(pw, exist_ok=True)
            with ThreadPoolExecutor(shards) as ex:
                fs = [ex.submit(run_shard, part, exe, prop, seed, cuts[i], cuts[i + 1] - cuts[i], pw, i, part.get('watchdog', 60), deadline) for i in range(shards)]
                rs = [r for f in fs for r in f.result()]
            pe = 0
            for r in rs:
                if 'sigs' in r:
                    b = slurp(r['sigs'])
                    sigs.update((pi, x) for x in struct.unpack('<%dQ' % (len(b) // 8), b))
                elif r.get('summary'):
                    for k in tot:
                        tot[k] += r[k]
                    pe += r['evals']
                    for k, v in r['classes'].items():
                        classes[k] = classes.get(k, 0) + v
                    samples += r['samples'][:2]
                elif r.get('fail'):
                    r['part'] = pi
                    fails.append(r)
            parts.append({'harness': part['harness'], 'flavour': part['flavour'], 'evaluations': pe})
            if pe == 0 and not fails:
                raise CheckError('the workload of part %d was observed by no monitor' % pi)
        missing = [c for c in cfg.get('must_see', []) if not classes.get(c)]
        if missing and not fails and not os.environ.get('VERIF_CASES'):
            raise CheckError('scenario classes never reached: ' + ', '.join(missing))
        newf, seen = [], {}
        for f in fails:
            for k in known:
                if k['property'] == prop and k['key'] == f['key'] and re.search(k.get('match', ''), f['msg'] + ' ' + f.get('input', '')):
                    seen.setdefault(k['id'], (k, f))
                    break
            else:
                newf.append(f)
        for k, f in seen.values():
            log('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        # a listed finding that was not met in this run is still printed once as listed
        for k in known:
            if k['property'] == prop and k['id'] not in seen:
                log('KNOWN-FINDING: property=%s %s (not met in this run)' % (prop, k['what']))
        ev['violations'] = len(newf)
        ev['coverage'] = {'evaluations': tot['evals'], 'distinct_nontrivial': len(sigs), 'rule': cfg['rule'], 'samples': samples[:6] or ['none'],
                          'oracle_comparisons': tot['checks'], 'draws_outside_the_domain': tot['skipped'], 'scenario_classes': classes, 'parts': parts, 'build_s': round(bt, 1)}
        ev['wall_s'] = round(time.time() - t0, 2)
        json.dump(ev, open(evp, 'w'), indent=1)
        log('%s %s: %d cases, %d distinct, %d oracle comparisons, %d skipped, %d failing; build %.0f s, total %.0f s' % (prop, tier, tot['evals'], len(sigs), tot['checks'], tot['skipped'], len(newf), bt, time.time() - t0))
        if newf:
            bykey = {}
            for f in newf:
                bykey.setdefault(f['key'], []).append(f)
            for key, l in list(bykey.items())[:8]:
                f = l[0]
                rp = os.path.join(rdir, '%s-%s-%d-%d.json' % (prop, re.sub('[^a-z0-9]+', '_', key.lower()), seed, f['case']))
                json.dump({'property': prop, 'part': f['part'], 'seed': seed, 'case': f['case'], 'key': key, 'msg': f['msg'], 'input': f.get('input', ''), 'report': f.get('report', ''), 'rerun': 'python3 run.py %s --replay %s' % (prop, rp)}, open(rp, 'w'), indent=1)
                log('  [%s] %d cases, first: case %d: %s' % (key, len(l), f['case'], f['msg'][:600]))
                log('VIOLATION property=%s replay=%s' % (prop, rp))
            return 1
        return 0
    except CheckError as e:
        ev['coverage'] = {'evaluations': tot['evals'], 'distinct_nontrivial': len(sigs), 'rule': cfg['rule'], 'samples': ['the check ended in an error: ' + str(e)[:300]]}
        ev['wall_s'] = round(time.time() - t0, 2)
        json.dump(ev, open(evp, 'w'), indent=1)
        log('ERROR of the check %s: %s' % (prop, e))
        return 3
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
