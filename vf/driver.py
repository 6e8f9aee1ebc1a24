import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time, traceback
import vc, units
from vc import ROOT, REPO, Lost

WORK = os.path.join(ROOT, 'work')
ENV = dict(os.environ, PATH='/root/.cargo/bin:/usr/local/bin:' + os.environ.get('PATH', ''), CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
SEARCH = os.path.join(WORK, 'target/release/search')
CLI = os.path.join(WORK, 'target/release/mofmt-cli')


class Lock:
    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_extract():
    with Lock():
        src = os.path.join(ROOT, 'extract/src')
        if os.path.exists(vc.EXTRACT) and os.path.getmtime(vc.EXTRACT) > max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src)):
            return
        p = subprocess.run(['cargo', 'build', '--offline', '--release'], cwd=os.path.join(ROOT, 'extract'), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(ROOT, 'extract/target')),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise RuntimeError('extractor does not build:\n' + p.stdout[-3000:])


def src_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'src'), os.path.join(ROOT, 'search/src'), os.path.join(ROOT, 'spec')):
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    h.update(open(os.path.join(REPO, 'Cargo.toml'), 'rb').read())
    return h.hexdigest()


def build_search():
    """-> None, or the compiler's output when the search crate does not build"""
    with Lock():
        stamp = os.path.join(WORK, 'search.stamp')
        h = src_hash()
        if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(SEARCH):
            return None
        fp = os.path.join(WORK, 'target/release/.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('mofmt-') or d.startswith('search-'):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        p = subprocess.run(['cargo', 'build', '--offline', '--release'], cwd=os.path.join(ROOT, 'search'),
                           env=dict(ENV, CARGO_TARGET_DIR=os.path.join(WORK, 'target'), RUSTFLAGS='--cfg mofmt_verif'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            if os.path.exists(stamp):
                os.remove(stamp)
            return p.stdout[-3000:]
        open(stamp, 'w').write(h)
        return None


# ------------------------------------------------------------- one unit

SHAPES = json.load(open(os.path.join(ROOT, 'contracts/shapes.json')))


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.given_up = {}       # qual -> reason (assumed contract, bounded stand-in)
        self.failures = []
        self.undecided = []
        self.verified = 0
        self.errors = 0
        self.wall = 0.0
        self.smt_ms = 0
        self.functions = []
        self.clauses = 0
        self.trusted = []
        self.unreachable = None
        self.probes = 0
        self.cmd = ''


def verify_unit(name, tier, deadline=None):
    deadline = deadline or time.time() + 1200
    u = units.UNITS[name]
    R = UnitResult(name)
    wd = os.path.join(WORK, 'verus', '%s-%d' % (name, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    t0 = time.time()
    try:
        items = u.get('transform', lambda x: x)(vc.extract(u['files'], units.keep()))
        contracts = u['contracts']()
    except Lost as e:
        R.unreachable = str(e)
        return R
    fns = {it['qual']: it for it in items if it['kind'] == 'fn'}
    for q, it in fns.items():
        if it['unsupported'] and u['verify'](q):
            R.given_up[q] = 'unsupported construct: ' + ', '.join(map(str, it['unsupported']))[:200]
    nocontract = set(q for q in fns if u['verify'](q) and q not in contracts)
    dropped = set()
    res = None
    for attempt in range(8):
        g = vc.Gen()
        g.name = name + '.rs'
        path = os.path.join(wd, g.name)
        try:
            units.generate(g, name, u, items, contracts, R.given_up, dropped)
        except vc.LostFn as e:
            if e.qual in R.given_up:
                dropped.add(e.qual)
            R.given_up[e.qual] = str(e)
            continue
        except Lost as e:
            R.unreachable = str(e)
            return R
        open(path, 'w').write(g.text())
        left = deadline - time.time()
        if left < 15:
            R.unreachable = 'no time left to verify it'
            return R
        res = vc.run_verus(path, ['--time'] + u.get('args', []), timeout=min(u.get('timeout', 420), left))
        R.cmd = ' '.join(res['cmd'])
        if res['timeout']:
            R.unreachable = 'verifier did not end in time'
            return R
        comp, fail, unk = vc.classify(res, g)
        js = res['json'] or {}
        vr = js.get('verification-results', {})
        if vr.get('encountered-vir-error') and not comp:
            comp, fail = fail, []
        if not comp and (res['json'] is None or (not vr.get('success', vr.get('errors') == 0 and vr.get('verified', 0) > 0) and not fail and not unk)):
            R.unreachable = 'no result from the verifier: ' + (res.get('stderr') or '')[-300:]
            return R
        if not comp:
            break
        culprits = {}
        for e in comp:
            for m in (e['primary'] + e['metas']):
                if m and m.get('fn') in fns:
                    culprits.setdefault(m['fn'], e['message'][:200])
                    break
        new = {q: r for q, r in culprits.items() if q not in R.given_up}
        again = [q for q in culprits if q in R.given_up and q not in dropped]
        if new:
            R.given_up.update({q: 'outside the verifier\'s reach: ' + r for q, r in new.items()})
        elif again:
            dropped.update(again)
        else:
            R.unreachable = 'the joined file does not compile: ' + comp[0]['message'][:300]
            return R
    else:
        R.unreachable = 'the joined file does not compile'
        return R
    R.verified, R.errors = vr.get('verified', 0), vr.get('errors', 0)
    R.smt_ms = js.get('times-ms', {}).get('smt', {}).get('total', 0) if isinstance(js.get('times-ms', {}).get('smt'), dict) else 0
    weak = (nocontract | dropped)
    R.functions = sorted(q for q in fns if u['verify'](q) and q in contracts and q not in R.given_up)
    R.clauses = sum(len(contracts[q].requires) + len(contracts[q].ensures) + sum(len(l['invariant']) for l in contracts[q].loops.values())
                    for q in R.functions)
    R.missing = sorted(q for q in contracts if q not in fns and u['verify'](q))
    R.trusted = vc.trusted_scan(g.text())
    for e in unk:
        R.undecided.append(e['message'] + ' ' + ', '.join(sorted({m['fn'] for m in e['metas'] if m and 'fn' in m})))
    for e in fail:
        clause = [m for m in e['metas'] if m and 'clause' in m]
        bodies = [m for m in e['metas'] if m and m.get('fn')]
        inbody = [m['fn'] for m in bodies if m.get('kind') in ('body', 'ghost', 'sig')] or [m['fn'] for m in bodies]
        tags = set()
        if clause:
            for m in clause:
                tags |= set(m['tags'])
        elif any(m.get('kind') == 'ghost' for m in bodies) or not bodies:
            for m in bodies:
                tags |= set(m['tags'])
            if not bodies:
                tags = {'*'}
        else:
            tags = set(u['safety'])
        fn = inbody[0] if inbody else '?'
        # an obligation that rests on a function for which there is no contract is not decided
        callees = {re.split(r'::|\.', c)[-1] for c in fns[fn]['calls']} if fn in fns else set()
        dep = [q for q in weak if q.split('::')[-1] in callees]
        if dep:
            R.undecided.append('%s: rests on %s, which has no contract' % (fn, ', '.join(dep)))
            R.given_up.setdefault(fn, 'calls %s, which has no contract' % ', '.join(dep))
            continue
        # loop contracts were written for the loops of the function; other loops need other ones
        if fn in fns and fns[fn]['kinds'] != SHAPES.get(fn, []):
            R.undecided.append('%s: its loops have another form than the loop contracts were written for' % fn)
            R.given_up.setdefault(fn, 'its loops have another form than the loop contracts were written for')
            continue
        src = [m for m in bodies if m.get('file')]
        R.failures.append({'function': fn, 'message': e['message'], 'tags': sorted(tags),
                           'clause': clause[0]['clause'] if clause else '',
                           'clause_of': clause[0]['fn'] if clause else '',
                           'at': '%s:%d' % (src[0]['file'], src[0]['line']) if src else '', 'output': e['rendered'][:3000]})
    R.functions = [q for q in R.functions if q not in R.given_up]
    # vacuity: every precondition must be satisfiable and the axioms consistent
    if not fail and u.get('probe', True):
        g2 = vc.Gen()
        g2.name = name + '_probe.rs'
        n = units.generate_probes(g2, name, u, items, contracts, R.given_up, dropped)
        if n:
            p2 = os.path.join(wd, g2.name)
            open(p2, 'w').write(g2.text())
            r2 = vc.run_verus(p2, ['--verify-module', 'probes', '--multiple-errors', '0'], timeout=200)
            js2 = (r2['json'] or {}).get('verification-results', {})
            R.probes = n
            if r2['json'] and not js2.get('encountered-vir-error') and js2.get('verified', 0) > 0:
                R.undecided.append('vacuous: %d of %d reachability probes are provably unreachable' % (js2['verified'], n))
                R.vacuous = True
    R.wall = time.time() - t0
    shutil.rmtree(wd, ignore_errors=True)
    return R


# ------------------------------------------------------------- search

def search(prop, seed, ms, threads=8):
    """-> dict with evaluations, distinct, samples, failure, note"""
    if prop in ('C15', 'C16'):
        import cli
        return cli.search(prop, seed, ms, CLI)
    d = os.path.join(WORK, 'cur', '%s-%d' % (prop, os.getpid()))
    os.makedirs(d, exist_ok=True)
    try:
        p = subprocess.run([SEARCH, 'run', prop, str(seed), str(ms), str(threads), d], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=ms / 1000 + 90)
        if p.returncode == 0:
            try:
                return json.loads(p.stdout)
            except ValueError:
                return {'evaluations': 0, 'distinct': 0, 'samples': [], 'failure': None, 'note': 'no readable result'}
        # the process died (stack overflow, abort): find the case
        for w in range(threads):
            f = os.path.join(d, 'cur%d' % w)
            if not os.path.exists(f):
                continue
            entry, text = open(f).read().split('\n', 1)
            tf = os.path.join(d, 'case')
            open(tf, 'w').write(text)
            q = subprocess.run([SEARCH, 'replay', prop, entry, tf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
            if q.returncode != 0:
                return {'evaluations': 1, 'distinct': 1, 'samples': [], 'failure': {'entry': entry, 'text': text, 'why': 'the process ends abnormally (%d) %s' % (q.returncode, q.stdout.strip())}}
        return {'evaluations': 0, 'distinct': 0, 'samples': [], 'failure': None, 'note': 'search process died with %d' % p.returncode}
    except subprocess.TimeoutExpired:
        return {'evaluations': 0, 'distinct': 0, 'samples': [], 'failure': None, 'note': 'search timed out'}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known(prop):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


def main(argv):
    if argv[0] == '--setup':
        build_extract()
        r = build_search()
        print(r or 'built')
        return 0
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    P = units.PROPS[prop]
    # the verifier must work; otherwise there is nothing to decide with
    build_extract()
    ms = P.get('ms', 15000) if tier == 'quick' else P.get('thorough_ms', 240000)
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build_search)
        results = []
        for n in P['units']:
            try:
                results.append(verify_unit(n, tier, t0 + (600 if tier == 'quick' else 3000)))
            except Exception as e:
                R = UnitResult(n)
                R.unreachable = 'driver: ' + traceback.format_exc()[-800:]
                results.append(R)
        nobuild = fb.result()
    fails = [dict(f, unit=R.name) for R in results for f in R.failures if prop in f['tags'] or '*' in f['tags']]
    if nobuild is None:
        s = search(prop, seed, ms)
        if not s['failure'] and fails:
            s2 = search(prop, seed + 1000, P.get('ms_fail', 60000))
            s['evaluations'] += s2['evaluations']
            s['distinct'] += s2['distinct']
            s['failure'] = s2['failure']
    else:
        s = {'evaluations': 0, 'distinct': 0, 'samples': [], 'failure': None, 'note': 'the search crate does not build: ' + nobuild[-600:]}
    bounded = {}
    for R in results:
        for q, r in R.given_up.items():
            bounded[R.name + '/' + q] = r
        if R.unreachable:
            bounded[R.name] = R.unreachable
    obligations = sum(R.verified + R.errors for R in results)
    discharged = sum(R.verified for R in results)
    trusted = sorted({t for R in results for t in R.trusted})
    # what was not proved on this run is not counted as proved
    level = units.level(prop) if not bounded and not any(R.undecided for R in results) else 'exploration'
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': '; '.join(R.cmd for R in results if R.cmd),
        'trusted_base': trusted or ['none'],
        'back_end': 'Verus 0.2026.09.13 / Z3',
        'functions_under_contract': {R.name: R.functions for R in results},
        'contract_clauses': sum(R.clauses for R in results),
        'reachability_probes': sum(R.probes for R in results),
        'solver_ms': sum(R.smt_ms for R in results),
        'verifier_wall_s': round(sum(R.wall for R in results), 1),
        'failed_obligations': fails,
        'undecided': [x for R in results for x in R.undecided],
        'bounded_not_proved': bounded,
        'evaluations': s['evaluations'], 'distinct_nontrivial': s['distinct'],
        'rule': P.get('rule', units.RULE), 'samples': s['samples'][:4],
        'search_note': s.get('note', ''),
        'explanation': P['explanation'],
    }
    violations = 0
    code = 0
    rdir = os.path.join(WORK, 'replay')
    os.makedirs(rdir, exist_ok=True)
    if s['failure']:
        f = s['failure']
        sig = f['why']
        if any(k and k in (f.get('sig') or f['why']) for k in known(prop)):
            print('KNOWN-FINDING: property=%s %s' % (prop, sig))
        else:
            rp = os.path.join(rdir, prop + '.txt')
            with open(rp, 'w') as o:
                o.write('property: %s\nentry rule: %s\nwhat fails: %s\nreplay: %s\n' % (
                    prop, f.get('entry', ''), f['why'], f.get('replay', '%s replay %s %s %s.input' % (SEARCH, prop, f.get('entry') or '-', rp))))
                for x in fails:
                    o.write('failed obligation: %s: %s %s\n' % (x['function'], x['message'], x['clause']))
                o.write('--- input\n' + f.get('text', ''))
            open(rp + '.input', 'w').write(f.get('text', ''))
            print('%s: %s' % (prop, f['why']))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            violations, code = 1, 1
    elif fails:
        rp = os.path.join(rdir, prop + '.txt')
        with open(rp, 'w') as o:
            o.write('property: %s\nno failing input found in %d tries\n' % (prop, s['evaluations']))
            for x in fails:
                o.write('\nfailed obligation: in %s (%s): %s\n  clause: %s\n%s\n' % (x['function'], x['at'], x['message'], x['clause'], x['output']))
        for x in fails[:5]:
            print('%s: %s (%s): %s: %s' % (prop, x['function'], x['at'], x['message'], x['clause'][:160].replace('\n', ' ')))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        violations, code = 1, 1
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': units.ASSUMPTIONS + P.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': violations}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    if code == 0:
        print('%s: held; %d of %d obligations discharged, %d functions under contract, %d bounded, %d inputs tried, %.0f s' % (
            prop, discharged, obligations, sum(len(R.functions) for R in results), len(bounded), s['evaluations'], time.time() - t0))
        for k, r in list(bounded.items())[:10]:
            print('  bounded: %s: %s' % (k, r[:200]))
    return code
