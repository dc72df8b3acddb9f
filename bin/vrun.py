#!/usr/bin/env python3
"""Runner of the monitoring checks.

  vrun.py setup [variant...]        mirror /repo, configure and build every harness
  vrun.py check ID                  run the check of one property (VERIF_SEED, VERIF_TIER)
  vrun.py build VARIANT TARGET...   build targets only
"""
import fcntl, fnmatch, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SRC = os.path.join(BUILD, 'src')
WORK = os.path.join(VERIF, 'work')
sys.path.insert(0, os.path.join(VERIF, 'bin'))
SKIP_TOP = {'.git', '_build'}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def mirror():
    """Make build/src equal to /repo's working tree, touching only files whose content differs."""
    want = {}
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == '.':
            dirs[:] = [d for d in dirs if d not in SKIP_TOP]
        dirs[:] = [d for d in dirs if not os.path.islink(os.path.join(root, d))]
        for f in files:
            p = os.path.normpath(os.path.join(rel, f))
            want[p] = os.path.join(root, f)
    changed = 0
    for p, src in want.items():
        dst = os.path.join(SRC, p)
        if os.path.islink(src) and not os.path.exists(src):
            continue
        try:
            with open(src, 'rb') as fh:
                data = fh.read()
        except OSError:
            continue
        try:
            with open(dst, 'rb') as fh:
                if fh.read() == data:
                    continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, 'wb') as fh:
            fh.write(data)
        shutil.copymode(src, dst)
        changed += 1
    for root, dirs, files in os.walk(SRC):
        rel = os.path.relpath(root, SRC)
        for f in files:
            if os.path.normpath(os.path.join(rel, f)) not in want:
                os.unlink(os.path.join(root, f))
                changed += 1
    return changed


def build(variant, targets):
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ)
    env['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env['CCACHE_DIR'] = os.path.join(VERIF, '.cache', 'ccache')
    env['CCACHE_MAXSIZE'] = '8G'
    env['CCACHE_BASEDIR'] = VERIF
    env['TMPDIR'] = os.path.join(WORK, 'tmp')
    os.makedirs(env['TMPDIR'], exist_ok=True)
    env.pop('CONDA_PREFIX', None)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        n = mirror()
        b = os.path.join(BUILD, variant)
        t0 = time.time()
        if not os.path.exists(os.path.join(b, 'build.ninja')):
            r = subprocess.run(['bash', os.path.join(VERIF, 'bin', 'vcfg.sh'), SRC, b, variant], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                log(r.stdout[-4000:])
                return False
        r = subprocess.run(['ninja', '-C', b] + list(targets), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log(r.stdout[-6000:])
            return False
        log(f'[build] {variant} {" ".join(targets)}: {n} files mirrored, {time.time()-t0:.0f}s')
    return True


SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:'
                    'detect_stack_use_after_return=0:handle_abort=0:detect_odr_violation=0:malloc_context_size=12:'
                    'quarantine_size_mb=64:new_delete_type_mismatch=0:hard_rss_limit_mb=9000',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=0',
    'TSAN_OPTIONS': 'halt_on_error=0:second_deadlock_stack=1:history_size=4:ignore_noninstrumented_modules=1:'
                    'report_signal_unsafe=0:exitcode=0:suppressions=' + os.path.join(VERIF, 'harness', 'tsan.supp'),
    'TZ': 'UTC',
}

FRAME = re.compile(r'^\s*#\d+\s+(?:0x[0-9a-f]+\s+in\s+)?(.*?)\s+(?:\(|/|\.\./|<null>)')


def frame_names(lines, start, limit=30):
    out = []
    for ln in lines[start:start + limit]:
        m = FRAME.match(ln)
        if m:
            fn = re.sub(r'\(.*$', '', m.group(1)).strip()
            fn = re.sub(r'<.*>', '<>', fn)
            out.append((fn, ln))
        elif out and not ln.strip():
            break
    return out


def in_tree(fr):
    return '/build/src/' in fr[1] or '/repo/' in fr[1]


def parse_sanitizers(text):
    """-> list of (key, detail) for every sanitizer report in text."""
    lines = text.splitlines()
    res = []
    seen = set()

    def add(key, i, n=40):
        if key not in seen:
            seen.add(key)
            res.append((key, '\n'.join(lines[i:i + n])))
    for i, ln in enumerate(lines):
        m = re.search(r'(\S+?):(\d+):(\d+): runtime error: (.*)', ln)
        if m:
            path = m.group(1)
            path = re.sub(r'^.*/build/src/', '', path)
            path = re.sub(r'^.*/build/\w+/', 'build/', path)
            msg = re.sub(r'0x[0-9a-f]+', 'PTR', m.group(4))
            msg = re.sub(r'-?\d+(\.\d+)?(e[+-]?\d+)?', 'N', msg)
            fr = frame_names(lines, i + 1)
            fn = next((f[0] for f in fr if in_tree(f)), fr[0][0] if fr else '?')
            add(f'ubsan:{path}:{msg[:80]}:{fn}', i, 14)
            continue
        m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([\w-]+)', ln)
        if m:
            fr = frame_names(lines, i + 1)
            fn = next((f[0] for f in fr if in_tree(f)), fr[0][0] if fr else '?')
            add(f'asan:{m.group(2)}:{fn}', i)
            continue
        m = re.search(r'WARNING: ThreadSanitizer: ([^(]+)', ln)
        if m:
            # two (or more) stacks; key on the first in-tree function of each of the first two
            fns = []
            j = i + 1
            block = []
            while j < len(lines) and not lines[j].startswith('==='):
                block.append(lines[j])
                j += 1
            cur, stacks = [], []
            for b in block:
                f = FRAME.match(b)
                if f:
                    fn = re.sub(r'\(.*$', '', f.group(1)).strip()
                    cur.append((re.sub(r'<.*>', '<>', fn), b))
                elif cur and not b.strip():
                    stacks.append(cur)
                    cur = []
            if cur:
                stacks.append(cur)
            for s in stacks[:2]:
                fns.append(next((f[0] for f in s if in_tree(f)), s[0][0]))
            add(f'tsan:{m.group(1).strip()}:' + '|'.join(sorted(set(fns))), i, 60)
    return res


def run_one(run, shard, seed, tier, outdir, tag, timeout):
    exe = os.path.join(BUILD, run['variant'], 'verif', run['exe'])
    out = os.path.join(outdir, f'{tag}.out')
    scratch = os.path.join(outdir, f'{tag}.d')
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    cmd = [exe] + run['args'] + ['--seed', str(seed), '--shard', str(shard), '--shards', str(run['shards']),
                                 '--tier', tier, '--out', out]
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(run.get('env', {}))
    t0 = time.time()
    err = os.path.join(outdir, f'{tag}.err')
    hung = False
    with open(err, 'wb') as fe:
        p = subprocess.Popen(cmd, cwd=scratch, env=env, stdout=subprocess.DEVNULL, stderr=fe, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    with open(err, 'rb') as fe:
        data = fe.read()
    if len(data) > 4_000_000:
        data = data[:3_000_000] + b'\n...\n' + data[-1_000_000:]
    text = data.decode('utf8', 'replace')
    viols, cov = [], None
    if os.path.exists(out):
        for ln in open(out, errors='replace'):
            try:
                j = json.loads(ln)
            except ValueError:
                continue
            if 'violation' in j:
                viols.append((j['violation']['key'], j['violation']['detail']))
            elif j.get('done'):
                cov = j
    san = parse_sanitizers(text)
    last = ''
    if os.path.exists(out + '.last'):
        last = open(out + '.last', 'rb').read().split(b'\0')[0].decode('utf8', 'replace')
    for k, d in san:
        viols.append((k, f'during: {last[:1500]}\n{d}'))
    hashes = set()
    if os.path.exists(out + '.hash'):
        import array
        a = array.array('Q')
        b = open(out + '.hash', 'rb').read()
        a.frombytes(b[:len(b) // 8 * 8])
        hashes = set(a)
    return dict(cmd=cmd, rc=rc, hung=hung, viols=viols, cov=cov, last=last, err=text, hashes=hashes,
                wall=time.time() - t0, san=bool(san))


def crash_key(r):
    m = re.search(r'(?:FATAL|F) .*? ([\w./]+\.(?:cpp|h)):\d+.*?(Check failed:.*|[^\n]*)', r['err'])
    if m:
        msg = re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(2))[:100]
        return f'abort:{os.path.basename(m.group(1))}:{msg}'
    m = re.search(r"terminate called after throwing an instance of '([^']+)'(?:\s*what\(\):\s*([^\n]*))?", r['err'])
    if m:
        return f'uncaught:{m.group(1)}:{re.sub(chr(92)+"d+", "N", m.group(2) or "")[:80]}'
    return f'crash:rc={r["rc"]}'


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln or ln.startswith('#') or ln.startswith('fixed:'):
                continue
            j = json.loads(ln)
            if j['property'] == pid:
                res.append(j)
    return res


def check(pid):
    from checks import CHECKS
    c = CHECKS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    outdir = os.path.join(WORK, 'run', pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    need = {}
    runs = [dict(r) for r in c['runs'] if tier == 'thorough' or not r.get('thorough_only')]
    for r in runs:
        need.setdefault(r['variant'], set()).add(r['exe'])
        r.setdefault('args', [])
        if tier == 'thorough' and 'thorough_shards' in r:
            r['shards'] = r['thorough_shards']
        r.setdefault('shards', 8)
    for v, t in need.items():
        if not build(v, sorted(t)):
            log(f'ERROR: build of {v} failed')
            return 2
    jobs = []
    for ri, r in enumerate(runs):
        for s in range(r['shards']):
            jobs.append((ri, r, s))
    results = []
    par = c.get('parallel', 8)

    def go(j):
        ri, r, s = j
        to = r.get('timeout', 150) * (6 if tier == 'thorough' else 1)
        res = run_one(r, s, seed, tier, outdir, f'{ri}-{s}', to)
        return ri, r, s, res
    with ThreadPoolExecutor(par) as ex:
        results = list(ex.map(go, jobs))
    viols, errors = [], []
    reruns = 0
    final = []
    for ri, r, s, res in results:
        if res['rc'] == -9 and not res['hung'] and not res['viols']:
            # ended from outside (out of memory): says nothing about the code; try once more, alone
            log(f'note: {r["exe"]} shard {s} was killed; running it again')
            res = run_one(r, s, seed, tier, outdir, f'{ri}-{s}-again', r.get('timeout', 150) * (6 if tier == 'thorough' else 1))
            if res['rc'] == -9 and not res['hung'] and not res['viols']:
                final.append((ri, r, s, res))
                continue
        if (res['hung'] or res['rc'] != 0 or res['cov'] is None) and not res['viols']:
            # re-run once before believing a hang or a crash without a report
            if reruns < 3:
                reruns += 1
                to = r.get('timeout', 150) * (6 if tier == 'thorough' else 1)
                res2 = run_one(r, s, seed, tier, outdir, f'{ri}-{s}-again', to)
                if res2['hung'] and res['hung']:
                    res2['viols'].append((f'hang:{r["exe"]}:{" ".join(r["args"])}', 'no answer twice; last case: ' + res2['last']))
                elif res2['rc'] == 0 and res2['cov'] is not None:
                    log(f'note: {r["exe"]} shard {s}: first attempt rc={res["rc"]} hung={res["hung"]}, second clean')
                    if not res['hung'] and not r.get('flaky_ok'):
                        res2['viols'].append((crash_key(res), 'crashed once of two runs; last case: ' + res['last'] + '\n' + res['err'][-1500:]))
                elif not res2['hung']:
                    res2['viols'].append((crash_key(res2), 'last case: ' + res2['last'] + '\n' + res2['err'][-2500:]))
                res = res2
            elif not res['hung']:
                res['viols'].append((crash_key(res), 'last case: ' + res['last'] + '\n' + res['err'][-2500:]))
        final.append((ri, r, s, res))
    evals, events, samples, hashes = 0, {}, [], set()
    for ri, r, s, res in final:
        for k, d in res['viols']:
            viols.append((k, d, res['cmd']))
        cov = res['cov']
        if cov:
            evals += cov['evaluations']
            for k, v in cov['events'].items():
                events[k] = events.get(k, 0) + v
            for x in cov['samples']:
                if len(samples) < 12 and x not in samples:
                    samples.append(x)
        elif not res['viols']:
            errors.append(f'{r["exe"]} {r["args"]} shard {s}: rc={res["rc"]} no coverage record')
        hashes |= res['hashes']
    known = load_known(pid)
    bad, kf = {}, {}
    for k, d, cmd in viols:
        hit = next((x for x in known if fnmatch.fnmatchcase(k, x['key'])), None)
        if hit:
            kf.setdefault(hit['key'], (hit, d))
        else:
            bad.setdefault(k, []).append((d, cmd))
    min_ev = c.get('min_events', {})
    if tier in ('quick', 'thorough') and not bad:
        for k, v in min_ev.items():
            if (evals if k == 'evaluations' else events.get(k, 0)) < v:
                errors.append(f'too few observations: {k}={events.get(k, 0)} < {v}')
    for k, (hit, d) in kf.items():
        print(f'KNOWN-FINDING: property={pid} {hit["what"]}')
    rdir = os.path.join(WORK, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for n, (k, lst) in enumerate(sorted(bad.items())):
        d, cmd = lst[0]
        rp = os.path.join(rdir, f'{pid}-{n}.json')
        with open(rp, 'w') as fh:
            json.dump(dict(property=pid, key=k, detail=d, occurrences=len(lst), cmd=cmd, seed=seed, tier=tier,
                           env=SAN_ENV), fh, indent=1)
        print(f'VIOLATION property={pid} replay={rp}')
        log(f'  key: {k}\n  {d[:1500]}\n')
        if n >= 9:
            break
    ev = dict(property=pid, tier=tier, seed=seed, level=c['level'],
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=c['rule'], samples=samples,
                            monitored_events=events, processes=len(final),
                            harnesses=sorted({f"{r['exe']} {' '.join(r['args'])} [{r['variant']}]" for _, r, _, _ in final})),
              assumptions=c.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(bad))
    if kf:
        ev['coverage']['known_findings_seen'] = [h['what'] for h, _ in kf.values()]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    log(f'[{pid}] {tier} seed={seed} evaluations={evals} distinct={len(hashes)} violations={len(bad)} known={len(kf)} wall={time.time()-t0:.0f}s')
    if bad:
        return 1
    if errors:
        for e in errors[:10]:
            log('ERROR:', e)
        return 2
    return 0


def setup(variants):
    from checks import CHECKS
    need = {}
    for c in CHECKS.values():
        for r in c['runs']:
            need.setdefault(r['variant'], set()).add(r['exe'])
    for v, t in sorted(need.items()):
        if variants and v not in variants:
            continue
        if not build(v, sorted(t)):
            return 1
    return 0


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'setup':
        sys.exit(setup(sys.argv[2:]))
    if cmd == 'build':
        sys.exit(0 if build(sys.argv[2], sys.argv[3:]) else 1)
    if cmd == 'check':
        sys.exit(check(sys.argv[2]))
    sys.exit(2)
