"""Joins the functions extracted from /repo with their contracts and runs Verus."""
import json, os, re, subprocess, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MOFMT_REPO', '/repo')
EXTRACT = os.environ.get('MOFMT_EXTRACT') or os.path.join(ROOT, 'extract/target/release/extract')
VERUS = os.environ.get('VERUS', 'verus')


class Lost(Exception):
    """A contract no longer fits the code it is written for (no verdict)."""


class LostFn(Lost):
    def __init__(self, qual, msg):
        Lost.__init__(self, msg)
        self.qual = qual


# ------------------------------------------------------------- contracts

class Clause:
    def __init__(self, kind, text, tags):
        self.kind, self.text, self.tags = kind, text, tags


class Contract:
    def __init__(self, qual):
        self.qual, self.ret, self.tags, self.attrs = qual, 'r', [], []
        self.requires, self.ensures, self.decreases, self.entry, self.exit = [], [], [], [], []
        self.loops = {}
        self.external = False
        self.nloops = None
        self.hints = []
        self.params = None

    def loop(self, k):
        return self.loops.setdefault(k, {'invariant': [], 'decreases': [], 'ensures': [], 'entry': [],
                                         'exit': [], 'invariant_except_break': [], 'before': [], 'after': []})


KEY = re.compile(r'^(requires|ensures|decreases|entry|attr|loop|invariant_except_break|invariant|lensures|'
                 r'hint_after|hint_before|ldecreases|lentry|lexit|lbefore|lafter|external|loops)\b(\[[A-Z0-9, *]*\])? *:? *(.*)$')


def parse_contracts(text):
    """text -> {qual: Contract}"""
    out, cur, loop, buf = {}, None, None, None

    def flush():
        nonlocal buf
        if buf is None or cur is None:
            buf = None
            return
        kind, tags, body = buf
        body = body.rstrip()
        buf = None
        c = Clause(kind, body, tags)
        if kind in ('requires', 'ensures', 'decreases', 'entry'):
            getattr(cur, kind).append(c)
        elif kind in ('hint_after', 'hint_before'):
            # proof text at the statements that match a pattern (no effect when none does)
            pat, txt = body.split('=>>', 1)
            cur.hints.append((kind, pat.strip(), txt.strip()))
        elif kind == 'attr':
            cur.attrs.append(body)
        elif kind == 'external':
            cur.external = True
        elif kind == 'loops':
            cur.nloops = int(body)
        else:
            k = {'lensures': 'ensures', 'ldecreases': 'decreases', 'lentry': 'entry', 'lexit': 'exit',
                 'lbefore': 'before', 'lafter': 'after'}.get(kind, kind)
            cur.loop(loop)[k].append(c)

    for line in text.split('\n'):
        if line.startswith('//'):
            continue
        if line.startswith('@fn '):
            flush()
            parts = line.split()
            nm = parts[1]
            pars = None
            if '(' in nm:
                nm, pars = nm[:-1].split('(')
                pars = [p for p in pars.split(',') if p]
            cur = Contract(nm)
            cur.params = pars
            for p in parts[2:]:
                k, v = p.split('=')
                if k == 'ret':
                    cur.ret = v
                if k == 'tags':
                    cur.tags = v.split(',')
            out[cur.qual] = cur
            loop = None
            continue
        m = KEY.match(line)
        if m:
            flush()
            if m.group(1) == 'loop':
                loop = int(m.group(3).rstrip(':'))
                continue
            tags = [t.strip() for t in m.group(2)[1:-1].split(',')] if m.group(2) else None
            buf = (m.group(1), tags, m.group(3))
        elif buf is not None:
            buf = (buf[0], buf[1], buf[2] + '\n' + line)
    flush()
    return out


# ------------------------------------------------------------- generation

PRE_TAG = re.compile(r'//\s*\[(C[0-9C,]+)\]\s*$')


class Gen:
    def __init__(self):
        self.lines = []   # (text, meta)
        self.const_hook = None   # text of a constant -> lemma text
        self.entry_hook = None   # item -> further proof text at the start of its body

    def add(self, text, meta=None):
        for l in text.split('\n'):
            m = meta
            if m is None:
                # a clause of a specified wrapper, with the properties it decides
                t = PRE_TAG.search(l)
                if t:
                    m = {'fn': 'prelude', 'kind': 'requires', 'clause': l[:t.start()].strip(), 'tags': t.group(1).split(',')}
            self.lines.append((l, m))

    def text(self):
        return '\n'.join(l for l, _ in self.lines) + '\n'


LOOP = re.compile(r'\{\s*__loop\s*!\s*\(\s*(\d+)\s*\)\s*;')


def subst(text, env):
    ren = env.get('%rename')
    if ren:
        text = re.sub(r'(?<![\w$.])(' + '|'.join(map(re.escape, ren)) + r')\b(?!\s*:(?!:))', lambda m: ren[m.group(1)], text)

    def f(m):
        if m.group(1) not in env:
            raise Lost('no variable for $' + m.group(1))
        return env[m.group(1)]
    return re.sub(r'\$([A-Za-z]\w*)', f, text)


def loop_env(pre):
    """Names used by the loop whose body starts right after `pre`."""
    env = {}
    m = re.search(r'while\s+let\s+Some\s*\(\s*((?:(?!while).)*?)\)\s*=\s*(?!self\b)(\w+)\s*\.\s*next\s*\(\s*\)\s*$', pre, re.S)
    if m:
        env['x'] = re.sub(r'\s+', ' ', m.group(1).strip())
        env['it'] = m.group(2)
        env['%at'] = m.start()
        env['all'] = '__all_' + m.group(2)
    m = re.search(r'while\s+(\w+)\s*<\s*(\w+)\s*$', pre)
    if m:
        env['i'], env['n'] = m.group(1), m.group(2)
    return env


BR = re.compile(r'[{}()\[\]]|"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.[^\']*)\'', re.S)


def close_brace(body, at):
    """offset of the brace that closes the one at `at`"""
    d = 0
    for m in BR.finditer(body, at):
        t = m.group(0)
        if t in '{([':
            d += 1
        elif t in '})]':
            d -= 1
            if d == 0:
                return m.start()
    raise Lost('unbalanced text')


def stmt_start(body, at):
    """offset of the `while`/`loop` keyword of the loop whose body starts at `at`"""
    ms = [m.start() for m in re.finditer(r'\b(?:while|loop)\b', body[:at])]
    if not ms:
        raise Lost('loop header not found')
    return ms[-1]


def has_break(body, at):
    d = 0
    for m in re.finditer(r'[{}]|\bbreak\b|"(?:[^"\\\\]|\\\\.)*"', body[at:]):
        t = m.group(0)
        if t == '{':
            d += 1
        elif t == '}':
            d -= 1
            if d == 0:
                return False
        elif t == 'break':
            return True
    return False


def emit_clauses(g, kw, clauses, c, env, where):
    if not clauses:
        return
    g.add('    ' + kw)
    for i, cl in enumerate(clauses):
        g.add('        ' + subst(cl.text, env).strip().replace('\n', '\n        ') + ',',
              {'fn': c.qual, 'kind': kw, 'where': where, 'index': i, 'clause': cl.text,
               'tags': cl.tags if cl.tags is not None else c.tags})


def emit_fn(g, it, c, external=False, indent='', name=None):
    try:
        emit_fn0(g, it, c, external, indent, name)
    except LostFn:
        raise
    except Lost as e:
        raise LostFn(it['qual'], '%s: %s' % (it['qual'], e))


def emit_fn0(g, it, c, external=False, indent='', name=None):
    """Emit one extracted function with its contract `c` (may be None)."""
    import copy
    c = copy.deepcopy(c) if c else Contract(it['qual'])
    auto = True
    if it['loops'] and c.nloops is not None and it['loops'] != c.nloops and not external:
        raise LostFn(it['qual'], '%s: %d loops instead of %d' % (it['qual'], it['loops'], c.nloops))
    if it['loops'] and not external and not c.external:
        g.add('#[verifier::loop_isolation(false)]')
        g.add('#[verifier::allow_complex_invariants]')
    for a in c.attrs:
        g.add(a)
    if external or c.external:
        g.add('#[verifier::external_body]')
    ret = it['ret']
    sig = 'pub fn %s%s(%s)' % (name or {'main': 'cli_main'}.get(it['name'], it['name']), it['generics'] or '', ', '.join(p['text'] for p in it['params']))
    if ret and ret.strip() == '!':
        sig += ' -> !'
    elif ret:
        sig += ' -> (%s: %s)' % (c.ret, ret)
    g.add(sig, {'fn': it['qual'], 'kind': 'sig', 'tags': c.tags})
    env = {'p%d' % i: p['name'] for i, p in enumerate(it['params'])}
    if c.params is not None:
        if len(c.params) != len(it['params']):
            raise LostFn(it['qual'], '%s: %d parameters instead of %d' % (it['qual'], len(it['params']), len(c.params)))
        ren = {a: p['name'] for a, p in zip(c.params, it['params']) if a != p['name']}
        if ren:
            env['%rename'] = ren
    ent = ''.join(subst(e.text, env) + '\n' for e in c.entry)
    if g.entry_hook:
        ent = g.entry_hook(it) + ent
    emit_clauses(g, 'requires', c.requires, c, env, 'fn')
    emit_clauses(g, 'ensures', c.ensures, c, env, 'fn')
    if c.decreases and not external:
        emit_clauses(g, 'decreases', c.decreases, c, env, 'fn')
    if external or c.external:
        g.add('{ unimplemented!() }')
        return
    body, mp = it['body'], it['map']
    # split the body at the loops
    blines = body.split('\n')
    meta = {'fn': it['qual'], 'kind': 'body', 'tags': c.tags}

    def src(i):
        return dict(meta, file=it['file'], line=mp[i] if i < len(mp) else 0)
    # character offset -> line number
    offs, o = [], 0
    for l in blines:
        offs.append(o)
        o += len(l) + 1
    import bisect

    def emit_text(a, b):
        if a >= b:
            return
        pos = a
        while pos < b:
            ln = bisect.bisect_right(offs, pos) - 1
            end = min(b, offs[ln] + len(blines[ln]))
            seg = body[pos:end]
            if seg.strip():
                g.add(seg, src(ln))
            pos = max(end + 1, pos + 1)
    pos, first = 0, True
    assert body.lstrip().startswith('{')
    p0 = body.index('{') + 1
    emit_text(0, p0)
    if ent:
        g.add(ent, dict(meta, kind='ghost'))
    pos = p0
    events = []   # (offset, end offset, order, function)
    ghost = dict(meta, kind='ghost')
    for m in LOOP.finditer(body):
        k = int(m.group(1))
        lp = c.loop(k)
        env2 = dict(env, **loop_env(body[:m.start()]))
        end = close_brace(body, m.start())
        if 'it' in env2:
            at = env2['%at']
            events.append((at, at, 0, lambda e=env2: g.add('let ghost %s = %s.all();' % (e['all'], e['it']), ghost)))
            lp['invariant'].insert(0, Clause('invariant', '$it.wf() && $it.all() == $all', None))
            if not has_break(body, m.start()):
                lp['ensures'].insert(0, Clause('ensures', '!$it.more()', None))
            if not lp['decreases']:
                lp['decreases'].append(Clause('decreases', '$it.all().len() - $it.done()', None))
        else:
            at = stmt_start(body, m.start())
        if 'i' in env2 and not lp['decreases']:
            lp['decreases'].append(Clause('decreases', '$n - $i', None))
        for e in lp['before']:
            events.append((at, at, 1, lambda e=e, env2=env2: g.add(subst(e.text, env2), ghost)))

        def spec(lp=lp, env2=env2, k=k):
            emit_clauses(g, 'invariant_except_break', lp['invariant_except_break'], c, env2, 'loop %d' % k)
            emit_clauses(g, 'invariant', lp['invariant'], c, env2, 'loop %d' % k)
            emit_clauses(g, 'ensures', lp['ensures'], c, env2, 'loop %d' % k)
            emit_clauses(g, 'decreases', lp['decreases'], c, env2, 'loop %d' % k)
            g.add('{')
            for e in lp['entry']:
                g.add(subst(e.text, env2), ghost)
        events.append((m.start(), m.end(), 2, spec))
        for e in lp['exit']:
            events.append((end, end, 0, lambda e=e, env2=env2: g.add('; ' + subst(e.text, env2), ghost)))
        if body[end + 1:].lstrip().startswith('{'):
            # two blocks in a row confuse the verifier's parser
            events.append((end + 1, end + 1, 0, lambda: g.add(';', ghost)))
        for e in lp['after']:
            events.append((end + 1, end + 1, 0, lambda e=e, env2=env2: g.add(subst(e.text, env2), ghost)))
    for kind, pat, txt in c.hints:
        for m in re.finditer(subst(pat.replace('$', '@@'), env).replace('@@', '$'), body):
            at = m.end() if kind == 'hint_after' else m.start()
            events.append((at, at, 1, lambda t=txt: g.add(subst(t, env), ghost)))
    for a, b, _, f in sorted(events, key=lambda x: (x[0], x[2])):
        emit_text(pos, a)
        f()
        pos = b
    emit_text(pos, len(body))


RENAME = {'contains': 'v_contains', 'iter': 'v_iter', 'into_iter': 'v_into_iter', 'join': 'v_join'}


def emit_items(g, items, contracts, verify, external, skip=(), shards=None):
    """Emit types, constants and functions. `verify`/`external`: predicates on qual."""
    for it in items:
        if it['kind'] in ('struct', 'enum'):
            g.add('#[verifier::ext_equal]' if False else '', None)
            g.add(it['text'])
        elif it['kind'] in ('const', 'type'):
            g.add(re.sub(r'&\s*str', "&'static str", it['text']))
            if g.const_hook:
                g.add(g.const_hook(it['text']))
    impls = {}
    for it in items:
        if it['kind'] != 'fn':
            continue
        for cst in it['consts']:
            g.add(re.sub(r'&\s*str', "&'static str", cst))
            if g.const_hook:
                g.add(g.const_hook(cst))
        impls.setdefault((it['owner'], it['impl']), []).append(it)
    if shards and (None, None) not in impls and not any(o is None for o, _ in impls):
        shards = None
    if shards:
        heavy, n = shards
        free = [it for (o, _), fns in impls.items() if not o for it in fns if it['qual'] not in skip]
        names = [it['qual'] for it in free]
        groups = [[it for it in free if it['qual'] == h] for h in heavy if h in names]
        rest = [it for it in free if it['qual'] not in heavy]
        groups += [rest[k::n] for k in range(n)]
        for k, fns in enumerate(x for x in groups if x):
            g.add('pub use shard%d::*;' % k)
            g.add('pub mod shard%d { use super::*;' % k)
            for it in fns:
                q = it['qual']
                if verify(q):
                    emit_fn(g, it, contracts.get(q), False)
                elif external(q):
                    emit_fn(g, it, contracts.get(q), True)
            g.add('}')
    for (owner, impl), fns in impls.items():
        if shards and not owner:
            continue
        if owner:
            g.add(impl + ' {')
        for it in fns:
            q = it['qual']
            if q in skip:
                continue
            if verify(q):
                emit_fn(g, it, contracts.get(q), False, name=RENAME.get(it['name']) if owner else None)
            elif external(q):
                emit_fn(g, it, contracts.get(q), True, name=RENAME.get(it['name']) if owner else None)
        if owner:
            g.add('}')


def emit_probes(g, items, contracts, want):
    """One function per contract: same precondition, body `assert(false)`, which must fail."""
    n = 0
    for it in items:
        if it['kind'] != 'fn' or not want(it['qual']) or it['qual'] not in contracts:
            continue
        c = contracts[it['qual']]
        if not c.requires:
            continue
        if it['owner'] and it['params'] and it['params'][0]['name'] == 'self':
            continue
        g.add('pub fn probe_%d%s(%s)' % (n, it['generics'] or '', ', '.join(p['text'] for p in it['params'])))
        env = {}
        if c.params is not None and len(c.params) == len(it['params']):
            ren = {a: p['name'] for a, p in zip(c.params, it['params']) if a != p['name']}
            if ren:
                env['%rename'] = ren
        emit_clauses(g, 'requires', c.requires, c, env, 'fn')
        g.add('{ assert(false); }')
        n += 1
    g.add('pub fn probe_axioms() { assert(false); }')
    return n + 1


TRUST = re.compile(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*((?:pub )?(?:proof |broadcast proof |exec )?(?:fn|struct)\s+\w+)|'
                   r'((?:pub )?uninterp spec fn \w+)|(assume_specification[^\[]*\[[^\]]*\])|(\bassume\s*\([^)]*\)|\badmit\s*\(\))|'
                   r'((?:pub )?broadcast axiom fn \w+|(?:pub )?axiom fn \w+)')


def trusted_scan(text):
    out = set()
    for m in TRUST.finditer(text):
        out.add(re.sub(r'\s+', ' ', next(x for x in m.groups() if x)).replace('pub ', ''))
    return sorted(out)


_cache = {}


KNOWN = {'main.rs', 'lib.rs', 'parser.rs', 'formatter.rs', 'parser/tokens.rs', 'parser/syntax.rs', 'parser/events.rs', 'parser/lexing.rs',
         'parser/parsing.rs', 'parser/tree.rs', 'formatter/markers.rs', 'formatter/formatting.rs', 'formatter/printing.rs'}


def extract(files, keep=()):
    """The functions of the files; the ones not in `keep` are joined to their callers where they can be."""
    src = os.path.join(REPO, 'src')
    files = list(files)
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), src)
            if f.endswith('.rs') and rel not in KNOWN and 'verif' not in rel:
                files.append(rel)
    key = tuple(files)
    if key not in _cache:
        out = subprocess.run([EXTRACT] + (['--keep', ','.join(sorted(keep))] if keep else []) +
                             [os.path.join(src, f) for f in files], stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True, timeout=60)
        if out.returncode != 0:
            raise Lost('extraction failed: ' + out.stderr[-500:])
        _cache[key] = json.loads(out.stdout)
    return _cache[key]


# ------------------------------------------------------------- verification

def run_verus(path, extra=(), timeout=600):
    t = time.time()
    cmd = [VERUS, '--output-json', '--error-format=json', '--multiple-errors', '6', '--num-threads', '8'] + list(extra) + [path]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {'cmd': cmd, 'wall': time.time() - t, 'timeout': True, 'diags': [], 'json': None}
    diags = []
    for l in p.stderr.split('\n'):
        if l.startswith('{'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        js = json.loads(p.stdout)
    except ValueError:
        js = None
    return {'cmd': cmd, 'wall': time.time() - t, 'timeout': False, 'diags': diags, 'json': js, 'rc': p.returncode,
            'stderr': p.stderr[-4000:] if js is None and not diags else ''}


VERIF_MSG = re.compile(r'not satisfied|assertion failed|possible (arithmetic|division|bit)|possible .*(overflow|underflow)|'
                       r'out of bounds|unreachable|recommendation|might not be allowed|failed|could not prove|cannot show|'
                       r'decreases|termination|may be aborted|constructed value may fail')
RLIMIT = re.compile(r'[Rr]esource limit|rlimit|timed? ?out|canceled|incomplete quantif')


def classify(res, g):
    """-> (compile_errors, failures, unknown) ; each a list of dicts."""
    comp, fail, unk = [], [], []
    for d in res['diags']:
        if d.get('level') != 'error':
            continue
        msg = d['message']
        if msg.startswith('aborting due to') or msg.startswith('could not compile'):
            continue
        spans = []
        for s in d['spans']:
            spans.append(s)
        metas = []
        for s in spans:
            while s.get('expansion') and not s.get('is_local', True):
                s = s['expansion']['span']
            ln = s['line_start']
            if os.path.basename(s['file_name']) == g.name and 0 < ln <= len(g.lines):
                metas.append((s, g.lines[ln - 1][1], ln))
        e = {'message': msg, 'spans': [(s['line_start'], s.get('label'), s['is_primary']) for s, _, _ in metas],
             'rendered': d.get('rendered', ''), 'metas': [m for _, m, _ in metas],
             'lines': [l for _, _, l in metas], 'primary': [m for s, m, _ in metas if s['is_primary']]}
        if d.get('code') or not (VERIF_MSG.search(msg) or RLIMIT.search(msg)):
            comp.append(e)
        elif RLIMIT.search(msg):
            unk.append(e)
        else:
            fail.append(e)
    return comp, fail, unk
