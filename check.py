#!/usr/bin/env python3
"""Run one property check.

  check.py PROPERTY [--tier quick|thorough] [--seed N]     run the check, write evidence/PROPERTY.json
  check.py --build                                         compile everything (used by setup_cmd)
  check.py --replay FILE                                   run one recorded case verbosely

Exit status: 0 held, 1 violated (VIOLATION line on stdout), 2 the check itself could not run.
"""
import sys, os, json, hashlib, subprocess, time, shutil, struct, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
H = os.path.join(VERIF, 'harness')
NCPU = min(16, os.cpu_count() or 4)

BASE = ['-std=c++17', '-I' + REPO + '/include', '-I' + REPO, '-I' + H]
CONFIGS = {
    'ld':  (['g++', '-O1', '-DWITH_LONG_DOUBLE'], []),
    'dbl': (['g++', '-O1'], []),
    'san': (['clang++', '-O1', '-g1', '-DWITH_LONG_DOUBLE', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
             '-fno-sanitize=vptr', '-ftrivial-auto-var-init=pattern', '-fno-omit-frame-pointer'], ['-fsanitize=address,undefined']),
}
# property -> list of (configuration, binary, engine property id, share of the time)
SM = 'sm'; CORE = 'core'
PROPS = json.load(open(os.path.join(H, 'plan.json')))


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:32]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def headers():
    fs = []
    for d in (REPO + '/include', REPO + '/SM', REPO + '/source', REPO + '/user-dir', H):
        for root, _, names in os.walk(d):
            fs += [os.path.join(root, n) for n in names if n.endswith(('.h', '.hpp', '.inc', '.ipp', '.tpp', '.hh'))]
    return sha(*[x for f in sorted(fs) for x in (f, read(f))])


def sources(binary):
    def under(d):
        r = []
        for root, _, names in os.walk(d):
            r += [os.path.join(root, n) for n in names if n.endswith('.cpp')]
        return sorted(r)
    core = under(REPO + '/source')
    sm = [f for f in under(REPO + '/SM') if os.path.basename(f) != 'test.cpp']
    mine = [H + '/main.cpp']
    if binary == CORE:
        return core + [REPO + '/user-dir/eemm.cpp'], mine + [H + '/core_props.cpp']
    if binary == SM:
        return core + sm, mine + [H + '/sm_props.cpp'] + sorted(glob.glob(H + '/procs/*.cpp'))
    raise ValueError(binary)


def compile_one(cmd, src, obj):
    if os.path.exists(obj):
        return None
    tmp = obj + '.%d.tmp' % os.getpid()
    r = subprocess.run(cmd + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=os.path.dirname(src))
    if r.returncode:
        return src + '\n' + r.stdout.decode(errors='replace')[-3000:]
    os.rename(tmp, obj)
    return None


def build(config, binary):
    comp, link = CONFIGS[config]
    cmd = comp + BASE + ['-w']
    hh = headers()
    obj_dir = os.path.join(BUILD, config); os.makedirs(obj_dir, exist_ok=True)
    lib, mine = sources(binary)
    jobs = []
    for s in lib + mine:
        key = sha(s, read(s), hh, ' '.join(cmd))
        jobs.append((s, os.path.join(obj_dir, key + '.o')))
    exe = os.path.join(obj_dir, binary + '-' + sha(*[o for _, o in jobs]))
    if os.path.exists(exe):
        return exe
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(cmd, *j), jobs) if e]
    if errs:
        raise BuildError('compilation failed (%s):\n%s' % (config, errs[0]))
    tmp = exe + '.%d.tmp' % os.getpid()
    r = subprocess.run(comp + [o for _, o in jobs] + link + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('link failed (%s):\n%s' % (config, r.stdout.decode(errors='replace')[-3000:]))
    os.rename(tmp, exe)
    # drop stale artefacts so the cache does not grow without bound
    try:
        fs = sorted((os.path.join(obj_dir, f) for f in os.listdir(obj_dir)), key=os.path.getmtime)
        keep = {o for _, o in jobs} | {exe}
        for f in fs[:-1500]:
            if f not in keep:
                os.unlink(f)
    except OSError:
        pass
    return exe


def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=1:leak_check_at_exit=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=66'
    e['LSAN_OPTIONS'] = 'leak_check_at_exit=0:max_leaks=3'; e['LC_ALL'] = 'C'
    return e


def replay_once(exe, path, tier):
    try:
        r = subprocess.run([exe, '--replay', path, '--tier', tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), timeout=300)
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return -999, 'timed out'


def run_part(exe, engine, tier, seed, budget, scale, work):
    """Run the shards of one engine property; returns (merged dict, failing replay path or None, error or None)."""
    procs = []
    for i in range(NCPU):
        out = os.path.join(work, '%s-%d' % (engine, i))
        log = open(out + '.log', 'wb')
        p = subprocess.Popen([exe, '--prop', engine, '--seed', str(seed), '--tier', tier, '--shard', '%d/%d' % (i, NCPU),
                              '--budget', str(budget), '--scale', str(scale), '--out', out], stdout=log, stderr=subprocess.STDOUT, env=env())
        procs.append([p, out, log, False])
    t0 = time.time(); bad = None
    while any(not d[3] for d in procs):
        for d in procs:
            if d[3]:
                continue
            rc = d[0].poll()
            if rc is None:
                continue
            d[3] = True; d[2].close()
            if rc != 0 and bad is None:
                bad = (rc, d[1])
        if bad is not None or time.time() - t0 > budget + 150:
            if bad is None:
                bad = (-998, None)
            # let the others stop; what they found is not needed
            for d in procs:
                if not d[3]:
                    d[0].kill(); d[0].wait(); d[3] = True; d[2].close()
            break
        time.sleep(0.05)
    m = {'evaluations': 0, 'discarded': 0, 'trivial': 0, 'early': False, 'tags': {}, 'maxima': {}, 'subjects': {}, 'samples': [], 'rule': ''}
    hashes = set()
    for _, out, _, _ in procs:
        try:
            j = json.load(open(out))
        except Exception:
            continue
        for k in ('evaluations', 'discarded', 'trivial'):
            m[k] += j[k]
        m['early'] |= j['early']; m['rule'] = j['rule']
        for k, v in j['tags'].items():
            m['tags'][k] = m['tags'].get(k, 0) + v
        for k, v in j['subjects'].items():
            m['subjects'][k] = m['subjects'].get(k, 0) + v
        for k, v in j['maxima'].items():
            m['maxima'][k] = max(m['maxima'].get(k, v), v)
        m['samples'] += j['samples'][:2]
        b = read(out + '.hashes')
        hashes.update(struct.unpack('<%dQ' % (len(b) // 8), b))
    m['distinct'] = len(hashes)
    if bad is None:
        return m, None, None
    rc, out = bad
    if out is None:
        return m, None, 'workers did not finish in time'
    if rc == 10 and os.path.exists(out + '.replay'):
        return m, out + '.replay', None
    # crash, sanitizer report or CPU limit: the case in flight is in the .cur file
    if rc == 77 or rc == 66 or rc < 0:
        try:
            b = read(out + '.cur'); cs, sub, act = struct.unpack('<Q64si', b[:76])
        except Exception as e:
            return m, None, 'worker ended with %s and left no record (%s)' % (rc, e)
        tail = read(out + '.log')[-2500:].decode(errors='replace')
        if not act:
            return m, None, 'worker ended with %s outside any case\n%s' % (rc, tail)
        path = out + '.replay'
        with open(path, 'w') as f:
            f.write('property %s\nsubject %s\nseed %d\nbycase 1\n' % (engine, sub.split(b'\0')[0].decode(), cs))
            f.write('# worker ended with status %s\n' % rc)
            for l in tail.splitlines():
                f.write('#   ' + l + '\n')
        return m, path, None
    return m, None, 'worker ended with status %s\n%s' % (rc, read(out + '.log')[-2000:].decode(errors='replace'))


def write_sequence(exe, path, rep, p, tier, seed, body):
    try:
        b = read(rep[:-len('.replay')] + '.cur'); idx = struct.unpack('<q', b[80:88])[0]
    except Exception:
        return False
    back = 1
    while True:
        lo = max(0, idx - back * NCPU)
        with open(path, 'w') as f:
            f.write('property %s\nconfig %s\ntier %s\nsubject -\nsequence %d %d %d %d\n' % (p['engine'], p['config'], tier, seed, NCPU, lo, idx))
            f.write('# the case fails only after the earlier cases of the same process\n')
            f.write(''.join(l + '\n' for l in body.splitlines() if l.startswith('#')))
        rc, _ = replay_once(exe, path, tier)
        if rc not in (0, 2):
            return True
        if lo == 0:
            return False
        back *= 8


def known_findings():
    r = []
    for l in open(os.path.join(VERIF, 'KNOWN-FINDINGS.txt')):
        l = l.strip()
        if l.startswith('known: '):
            d = dict(x.split('=', 1) for x in l[7:].split('|')[0].split())
            d['what'] = l.split('|', 1)[1].strip(); r.append(d)
    return r


def main(argv):
    if argv and argv[0] == '--build':
        need = sorted({(p['config'], p['binary']) for v in PROPS.values() for p in v['parts']})
        for c, b in need:
            t = time.time()
            try:
                build(c, b)
            except BuildError as e:
                print(e); return 2
            print('built', c, b, '%.1fs' % (time.time() - t), flush=True)
        return 0
    if argv and argv[0] == '--replay':
        path = argv[1]; cfg = None; eng = None; tier = 'quick'
        for l in open(path):
            w = l.split()
            if len(w) > 1 and w[0] == 'property':
                eng = w[1]
            if len(w) > 1 and w[0] == 'config':
                cfg = w[1]
            if len(w) > 1 and w[0] == 'tier':
                tier = w[1]
        for v in PROPS.values():
            for p in v['parts']:
                if p['engine'] == eng and (cfg is None or cfg == p['config']):
                    rc, out = replay_once(build(p['config'], p['binary']), path, tier); print(out, end=''); return 1 if rc else 0
        return 2
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = os.environ.get('VERIF_SEED', '1')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--seed' in argv:
        seed = argv[argv.index('--seed') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(seed)
    except ValueError:
        seed = int(sha(seed)[:12], 16)
    eseed = seed & ((1 << 63) - 1)
    t0 = time.time()
    plan = PROPS[pid]
    work = os.path.join(BUILD, 'work', '%s-%d' % (pid, os.getpid())); os.makedirs(work, exist_ok=True)
    total = float(os.environ.get('VERIF_BUDGET', plan.get('budget', {}).get(tier, {'quick': 75, 'thorough': 520}[tier])))
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': [], 'cases_discarded': 0, 'cases_trivial': 0, 'parts': []}
    violations = 0; status = 0; msgs = []
    try:
        wsum = sum(p.get('weight', 1) for p in plan['parts'])
        for p in plan['parts']:
            tb = time.time()
            try:
                exe = build(p['config'], p['binary'])
            except BuildError as e:
                print(e); status = 2; break
            tb = time.time() - tb
            m, rep, err = run_part(exe, p['engine'], tier, eseed, total * p.get('weight', 1) / wsum, float(os.environ.get('VERIF_SCALE', 1)) * p.get('scale', 1), work)
            cov['evaluations'] += m['evaluations']; cov['distinct_nontrivial'] += m['distinct']
            cov['cases_discarded'] += m['discarded']; cov['cases_trivial'] += m['trivial']
            if m['rule'] and m['rule'] not in cov['rule']:
                cov['rule'] += (' / ' if cov['rule'] else '') + m['rule']
            cov['samples'] += m['samples'][:3]
            subs = m['subjects']
            cov['parts'].append({'engine': p['engine'], 'build': p['config'], 'subjects': len(subs), 'fewest_cases_per_subject': min(subs.values()) if subs else 0,
                                 'classes': m['tags'], 'maxima': m['maxima'], 'stopped_by_time': m['early'], 'build_s': round(tb, 1)})
            if err:
                print('check error:', err); status = 2; break
            if rep:
                os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
                path = os.path.join(VERIF, 'replays', '%s-%s-%d.txt' % (pid, tier, seed))
                body = open(rep).read()
                with open(path, 'w') as f:
                    f.write(body.replace('\nsubject', '\nconfig %s\ntier %s\nsubject' % (p['config'], tier), 1))
                outs = [replay_once(exe, path, tier) for _ in range(3)]
                if all(rc == 0 for rc, _ in outs):
                    # the case passes on its own: state may be carried over from earlier cases of that worker
                    if write_sequence(exe, path, rep, p, tier, eseed, body):
                        outs = [replay_once(exe, path, tier) for _ in range(3)]
                if all(rc not in (0, 2) for rc, _ in outs):
                    violations += 1; status = 1
                    print('\n'.join(l for l in body.splitlines() if l.startswith('#'))[:4000])
                    msgs.append('VIOLATION property=%s replay=%s' % (pid, path))
                    break
                print('check error: a failing case did not reproduce (statuses %s); replay %s' % ([rc for rc, _ in outs], path)); status = 2; break
        if status == 0:
            for k in known_findings():
                if k.get('property') != pid:
                    continue
                for p in plan['parts'][:1]:
                    exe = build(p['config'], p['binary'])
                    path = os.path.join(work, 'known')
                    with open(path, 'w') as f:
                        f.write('property %s\nsubject %s\nseed 1\nbycase 1\n' % (k['probe'], k.get('subject', '-')))
                    rc, out = replay_once(exe, path, tier)
                    if rc == 10:
                        msgs.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
                    cov.setdefault('known_findings_probed', 0); cov['known_findings_probed'] += 1
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': violations}
        if plan.get('assumptions'):
            ev['assumptions'] = plan['assumptions']
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        if status in (0, 1):
            tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
            json.dump(ev, open(tmp, 'w'), indent=1); os.rename(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print('%s %s seed=%d: %s, %d evaluations, %d distinct non-trivial cases, %.1fs' % (pid, tier, seed, {0: 'held', 1: 'VIOLATED', 2: 'ERROR'}[status], cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    for x in msgs:
        print(x)
    sys.stdout.flush()
    return status


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
