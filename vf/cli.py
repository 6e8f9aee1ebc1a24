"""Runs the real command line program on random directory trees and checks
what it did to the files against C15 and C16."""
import json, os, random, shutil, subprocess, sys, tempfile, threading, time

NOBODY = 65534


def make_pool(search, seed, n):
    p = subprocess.run([search, 'pool', str(seed), str(n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
    return json.loads(p.stdout.decode('utf-8'))


class Scenario:
    """files: {relative path: content (bytes) | None for a directory}, modes, links, args"""

    def __init__(self):
        self.files, self.modes, self.links, self.args = {}, {}, {}, []

    def dump(self):
        return json.dumps({'files': {k: (None if v is None else v.decode('latin-1')) for k, v in self.files.items()},
                           'modes': self.modes, 'links': self.links, 'args': self.args}, indent=1)

    @staticmethod
    def load(t):
        d = json.loads(t)
        s = Scenario()
        s.files = {k: (None if v is None else v.encode('latin-1')) for k, v in d['files'].items()}
        s.modes, s.links, s.args = d['modes'], d['links'], d['args']
        return s

    def copy(self):
        return Scenario.load(self.dump())


NAMES = ['a', 'b', 'package', 'A.B', 'x y', 'Ünit', 'model', 'z1', 'mo', '-m', 'end', 'c', '.h', '.#a', '~b', 'c~', 'Test', 'mo.', 'a.mo', 'x.y.z', 'package']
EXTS = ['.mo'] * 7 + ['.txt', '.MO', '', '.mo.bak', '.mof', '.m', '.mos', '.orig']


def content(rng, pool):
    r = rng.random()
    if r < 0.08:
        return rng.choice([b'\xff\xfe', b'model \x80 end', b'', b'\n', b'package A\nend A;\n', b'package A\nend A;',
                           b'package A "caf\xe9"\nend A;\n', b'// caf\xe9\npackage A\n\nend A;\n', b'\xef\xbb\xbfpackage A\n\nend A;\n', b' ', b'// only\n', b'// only', b'\r\n',
                           b'package A\n\nend A;\n\n', b'package A\r\n\r\nend A;\r\n', b'package A\n\nend A;\n', b'package A\n\nend A;\n\0', b'\xff\xfep\0a\0'])
    return rng.choice(pool)[0].encode('utf-8')


def make(rng, pool):
    s = Scenario()
    dirs = ['']
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9])):
        d = rng.choice(dirs)
        n = rng.choice(['d', 'e', 'sub', 'lib.mo', 'f.g', 'Ä', '.git', '.d', 'target', 'x y', '-d', 'Resources', 'mo', 'test'])
        p = d + n + '/'
        if p not in dirs:
            dirs.append(p)
            s.files[p] = None
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9])):
        p = rng.choice(dirs) + rng.choice(NAMES) + rng.choice(EXTS)
        if rng.random() < 0.03:
            p = rng.choice(dirs) + '.mo'
        if p not in s.files and p + '/' not in s.files:
            s.files[p] = content(rng, pool)
            r = rng.random()
            if r < 0.02:
                s.modes[p] = 0
            elif r < 0.04:
                s.modes[p] = 0o444
    fs = [p for p, v in s.files.items() if v is not None]
    if rng.random() < 0.05 and fs:
        n = rng.choice(dirs) + 'link' + rng.choice(['.mo', '.txt'])
        s.links[n] = rng.choice(fs)
    if rng.random() < 0.06 and len(dirs) > 1:
        t, d = rng.choice(dirs[1:]), rng.choice(dirs)
        if not d.startswith(t):     # no loops
            s.links[d + rng.choice(['link', 'link.mo', '.link'])] = t[:-1]
    args = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
        r = rng.random()
        if r < 0.45 and len(dirs) > 1:
            a = rng.choice(dirs[1:])
            if rng.random() < 0.7:
                a = a[:-1]
        elif r < 0.55:
            a = '.'
        elif r < 0.62:
            a = rng.choice(dirs) + rng.choice(['missing.mo', 'missing', 'no/such.mo'])
        else:
            a = rng.choice(fs) if fs else 'q.mo'
        if rng.random() < 0.15:
            a = './' + a
        args.append(a)
    if rng.random() < 0.1:
        args.append(rng.choice(args))
    r = rng.random()
    if r < 0.4:
        args.insert(0, '--check')
    elif r < 0.46:
        args.insert(0, rng.choice(['-h', '--help', '-v', '--version', '--chek', '-x', '-', '--']))
    elif r < 0.47:
        args = rng.choice([[], ['--check']])
    s.args = args
    return s


def is_mo(p):
    b = os.path.basename(p)
    return b.endswith('.mo') and b != '.mo'


def usage(args):
    """(check, paths) or None when the arguments select nothing"""
    if not args:
        return None
    if args[0] == '--check':
        return (True, args[1:]) if len(args) > 1 else None
    if args[0].startswith('-'):
        return None
    return (False, args)


class Runner:
    def __init__(self, cli, search, seed):
        self.base = tempfile.mkdtemp(prefix='mofmt-cli-', dir='/tmp')
        os.chmod(self.base, 0o755)
        self.cli = os.path.join(self.base, 'mofmt')
        shutil.copy(cli, self.cli)
        os.chmod(self.cli, 0o755)
        self.user = {}
        try:
            subprocess.run(['/bin/true'], user=NOBODY, group=NOBODY, extra_groups=[], check=True)
            self.user = dict(user=NOBODY, group=NOBODY, extra_groups=[])
        except Exception:
            pass
        self.fmt = {}
        self.search = search

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def setup(self, s, root):
        os.makedirs(root)
        for p in sorted(s.files):
            if s.files[p] is None:
                os.makedirs(os.path.join(root, p), exist_ok=True)
        for p, v in s.files.items():
            if v is not None:
                f = os.path.join(root, p)
                if not os.path.isdir(os.path.dirname(f)):
                    continue
                with open(f, 'wb') as o:
                    o.write(v)
        for p, t in s.links.items():
            f = os.path.join(root, p)
            if os.path.isdir(os.path.dirname(f)) and not os.path.lexists(f):
                os.symlink(os.path.relpath(os.path.join(root, t), os.path.dirname(f)), f)
        for d, ds, fs in os.walk(root):
            for n in ds + fs:
                f = os.path.join(d, n)
                if self.user:
                    os.chown(f, NOBODY, NOBODY, follow_symlinks=False)
                if n in fs and not os.path.islink(f):
                    m = s.modes.get(os.path.relpath(f, root))
                    if m is not None:
                        os.chmod(f, m)
                    os.utime(f, (1000000000, 1000000000))
        if self.user:
            os.chown(root, NOBODY, NOBODY)

    def snapshot(self, root):
        out = {}
        for d, ds, fs in os.walk(root):
            for n in ds:
                out[os.path.relpath(os.path.join(d, n), root) + '/'] = None
            for n in fs:
                f = os.path.join(d, n)
                if os.path.islink(f):
                    out[os.path.relpath(f, root)] = ('link', os.readlink(f))
                else:
                    out[os.path.relpath(f, root)] = (open(f, 'rb').read(), os.stat(f).st_mtime)
        return out

    def formatted(self, b):
        """formatted text of a file (with its line end), or None when it has errors"""
        if b not in self.fmt:
            try:
                t = b.decode('utf-8')
            except UnicodeDecodeError:
                self.fmt[b] = None
                return None
            d = tempfile.mkdtemp(dir=self.base)
            open(os.path.join(d, 't'), 'wb').write(b)
            p = subprocess.run([self.search, 'fmt', os.path.join(d, 't')], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            shutil.rmtree(d)
            self.fmt[b] = p.stdout if p.returncode == 0 else None
        return self.fmt[b]

    def run(self, prop, s):
        """None, or what fails"""
        root = tempfile.mkdtemp(prefix='t', dir=self.base)
        os.rmdir(root)
        try:
            self.setup(s, root)
            before = self.snapshot(root)
            u = usage(s.args)
            sel = []      # groups of selected paths, one per argument
            for a in (u[1] if u else []):
                f = os.path.join(root, a)
                if os.path.isdir(f):
                    grp = []
                    for d, ds, fs in os.walk(f, followlinks=True):
                        rel = os.path.relpath(d, f)
                        for n in fs:
                            p = os.path.join(a, n) if rel == '.' else os.path.join(a, rel, n)
                            if is_mo(p) and not os.path.isdir(os.path.join(root, p)):
                                grp.append(p)
                    sel.append(sorted(grp))
                else:
                    sel.append([a])
            try:
                p = subprocess.run([self.cli] + s.args, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=20, **self.user)
            except subprocess.TimeoutExpired:
                return 'the program does not end within 20 s'
            after = self.snapshot(root)
            return judge(prop, self, root, s, u, sel, before, after, p)
        finally:
            subprocess.run(['chmod', '-R', 'u+rwX', root], stderr=subprocess.DEVNULL)
            shutil.rmtree(root, ignore_errors=True)


def judge(prop, R, root, s, u, sel, before, after, p):
    real = lambda q: os.path.relpath(os.path.realpath(os.path.join(root, q)), os.path.realpath(root))
    check = bool(u and u[0])
    flat = [q for g in sel for q in g]
    # files whose state cannot be read off the scenario: the run may stop early there
    hard = False
    good, bad, steps = {}, False, {}
    for q in flat:
        r = real(q)
        b = before.get(r)
        m = s.modes.get(r, 0o644)
        if not is_mo(q) or b is None or b[0] == 'link' or m == 0:
            bad = True
            continue
        f = R.formatted(b[0])
        if f is None:
            bad = True
            continue
        # a file that is selected again is read again: formatting is not idempotent (see C17)
        good[r] = f if r not in good or check else R.formatted(good[r])
        steps.setdefault(r, []).append(good[r])
        if m == 0o444 and not check:
            hard = bad = True
    if not R.user and s.modes:
        return None
    # ---- C15: only selected, valid files are written, and only with their formatted text
    if prop == 'C15':
        for q in sorted(set(before) | set(after)):
            x, y = before.get(q), after.get(q)
            if q not in after:
                return '%s has disappeared' % q
            if q not in before:
                return '%s was created' % q
            if x == y:
                continue
            if u is None:
                return '%s was written although the arguments select no file' % q
            if check:
                return '%s was written in check mode' % q
            if q not in good:
                return '%s was written although it is not a selected file without errors' % q
            if y[0] not in steps[q]:
                return '%s was written with something else than its formatted text' % q
        if u is None:
            return None
        if check and any(before[q][0] != good[q] for q in good):
            bad = True
        if (p.returncode == 0) != (not bad):
            return 'the exit code is %d although %s' % (p.returncode, 'a selected file has an error or is not formatted' if bad else 'no selected file has an error')
        if not check and not hard:
            for q in good:
                if after[q][0] != good[q]:
                    return '%s has no errors and was selected, but is not formatted now' % q
        return None
    # ---- C16: which files are processed
    if u is None:
        ch = [q for q in after if after[q] != before.get(q)]
        return '%s was processed although the arguments select no file' % ch[0] if ch else None
    ch = [q for q in after if after[q] is not None and after[q] != before.get(q)]
    for q in ch:
        if q not in [real(x) for x in flat]:
            return '%s was processed but is not selected' % q
    if hard:
        return None
    if not check:
        for q in good:
            if after[q][0] == before[q][0] and before[q][0] != good[q]:
                return '%s was not processed' % q
    if check:
        out = p.stdout.decode('utf-8', 'replace').split('\n')
        names = sorted(set(flat), key=len, reverse=True)
        seen = []
        for l in out:
            for n in names:
                if l.startswith(n + ': ') or (l.startswith(n + ':') and l[len(n) + 1:len(n) + 2].isdigit()):
                    seen.append((n, l.startswith(n + ': ')))
                    break
            else:
                if ': check ' in l:
                    return 'a file that is not selected was checked: %s' % l
        for n in set(flat):
            if is_mo(n) and real(n) in good:
                k, c = flat.count(n), sum(1 for x, y in seen if x == n and y)
                if c != k:
                    return '%s was checked %d times instead of %d' % (n, c, k)
        # order of the arguments
        ok = [n for n, y in seen if y and is_mo(n) and real(n) in good]
        pos = 0
        for g in sel:
            want = sorted(n for n in g if is_mo(n) and real(n) in good)
            if sorted(ok[pos:pos + len(want)]) != want:
                return 'the arguments were not processed in the order given: %s' % ok
            pos += len(want)
    err = p.stderr.decode('utf-8', 'replace')
    for g in sel:
        if len(g) == 1 and not is_mo(g[0]) and (p.returncode == 0 or g[0] not in err):
            return '%s is not a Modelica file but was not rejected' % g[0]
    return None


def shrink(R, prop, s, why):
    t0 = time.time()
    again = True
    while again and time.time() - t0 < 15:
        again = False
        for kind in ('args', 'files', 'links', 'modes'):
            for k in (list(range(len(s.args))) if kind == 'args' else list(getattr(s, kind))):
                c = s.copy()
                if kind == 'args':
                    if k >= len(c.args):
                        continue
                    del c.args[k]
                else:
                    if k not in getattr(c, kind):
                        continue
                    del getattr(c, kind)[k]
                w = R.run(prop, c)
                if w:
                    s, why, again = c, w, True
    return s, why


def search(prop, seed, ms, cli):
    srch = os.path.join(os.path.dirname(cli), 'search')
    R = Runner(cli, srch, seed)
    res = {'evaluations': 0, 'distinct': 0, 'samples': [], 'failure': None,
           'rule': 'the program run on random directory trees and arguments; non-trivial: at least one file is selected'}
    try:
        try:
            pool = make_pool(srch, seed, 400)
        except Exception as e:
            res['note'] = 'no pool of sources: %s' % e
            return res
        for t, f in pool:
            R.fmt[t.encode('utf-8')] = None if f is None else f.encode('utf-8') + b'\n'
        stop, lock = threading.Event(), threading.Lock()
        end = time.time() + ms / 1000
        found, keys = [], set()

        def work(k):
            rng = random.Random(seed * 1000 + k)
            while not stop.is_set() and time.time() < end:
                s = make(rng, pool)
                w = R.run(prop, s)
                with lock:
                    res['evaluations'] += 1
                    if usage(s.args):
                        keys.add(hash(s.dump()))
                    if len(res['samples']) < 3 and len(s.dump()) < 600:
                        res['samples'].append(json.loads(s.dump()))
                    if w:
                        found.append((s, w))
                        stop.set()
        ts = [threading.Thread(target=work, args=(k,)) for k in range(8)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        res['distinct'] = len(keys)
        if found:
            s, w = shrink(R, prop, *found[0])
            res['failure'] = {'entry': 'command line', 'text': s.dump(), 'why': w,
                              'replay': 'python3 %s replay %s FILE.input (the tree and the arguments are in the file)' % (os.path.abspath(__file__), prop)}
        return res
    finally:
        R.close()


if __name__ == '__main__':
    # cli.py replay PROP FILE
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    rel = os.path.join(here, 'work/target/release')
    R = Runner(os.path.join(rel, 'mofmt-cli'), os.path.join(rel, 'search'), 1)
    try:
        w = R.run(sys.argv[2], Scenario.load(open(sys.argv[3]).read()))
        print(w or 'holds')
        sys.exit(1 if w else 0)
    finally:
        R.close()
