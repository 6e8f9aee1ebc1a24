"""Automata of the grammar in spec/grammar.txt, and the specification text made from them.

For every rule two automata over its right-hand side:
  call:  the symbols as written (rules that can be empty are always present);
  tree:  the same, where a rule that can be empty may be left out (parse trees
         keep no empty nodes).
"""
import os
import re
from functools import lru_cache

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class G:
    pass


def read_rules():
    rules = {}
    for l in open(os.path.join(ROOT, 'spec/grammar.txt')):
        l = l.strip()
        if not l or l.startswith('#'):
            continue
        n, r = l.split(':', 1)
        rules[n.strip()] = r.split()
    return rules


def parse_rhs(toks):
    """-> ast: ('seq',[..]) ('alt',[..]) ('opt',x) ('rep',x) ('t',k) ('n',r) ('not',k)"""
    pos = 0

    def alt(stop):
        nonlocal pos
        alts = [seq(stop)]
        while pos < len(toks) and toks[pos] == '|':
            pos += 1
            alts.append(seq(stop))
        return alts[0] if len(alts) == 1 else ('alt', alts)

    def seq(stop):
        nonlocal pos
        out = []
        while pos < len(toks) and toks[pos] not in ('|', stop):
            t = toks[pos]
            pos += 1
            if t in '[{(':
                close = {'[': ']', '{': '}', '(': ')'}[t]
                x = alt(close)
                assert toks[pos] == close, toks
                pos += 1
                out.append({'[': ('opt', x), '{': ('rep', x), '(': x}[t])
            elif t.startswith("!'"):
                out.append(('not', t[2:]))
            elif t.startswith("'"):
                out.append(('t', t[1:]))
            else:
                out.append(('n', t))
        return ('seq', out)
    r = alt(None)
    assert pos == len(toks), toks
    return r


def dfa(ast, optional=lambda r: False):
    """minimal DFA: (number of states, delta {(q,sym): q}, accepting set); start 0"""
    eps, tr, n = {}, {}, [0]

    def new():
        n[0] += 1
        return n[0] - 1

    def build(a):
        k = a[0]
        s = new()
        if k == 'seq':
            c = s
            for x in a[1]:
                i, o = build(x)
                eps.setdefault(c, set()).add(i)
                c = o
            return s, c
        e = new()
        if k == 'alt':
            for x in a[1]:
                i, o = build(x)
                eps.setdefault(s, set()).add(i)
                eps.setdefault(o, set()).add(e)
        elif k in ('opt', 'rep'):
            i, o = build(a[1])
            eps.setdefault(s, set()).update((i, e))
            eps.setdefault(o, set()).add(e)
            if k == 'rep':
                eps.setdefault(o, set()).add(i)
        elif k == 'not':
            eps.setdefault(s, set()).add(e)
        else:
            tr.setdefault(s, {}).setdefault((k, a[1]), set()).add(e)
            if k == 'n' and optional(a[1]):
                eps.setdefault(s, set()).add(e)
        return s, e
    i, o = build(ast)

    def clo(S):
        S, w = set(S), list(S)
        while w:
            for x in eps.get(w.pop(), ()):
                if x not in S:
                    S.add(x)
                    w.append(x)
        return frozenset(S)
    start = clo({i})
    states, delta, work = {start: 0}, {}, [start]
    while work:
        S = work.pop()
        m = {}
        for x in S:
            for sym, T in tr.get(x, {}).items():
                m.setdefault(sym, set()).update(T)
        for sym in sorted(m):
            T = clo(m[sym])
            if T not in states:
                states[T] = len(states)
                work.append(T)
            delta[(states[S], sym)] = states[T]
    acc = {q for S, q in states.items() if o in S}
    # minimize
    cls = {q: (1 if q in acc else 0) for q in states.values()}
    while True:
        sig = {q: (cls[q], tuple(sorted((sym, cls[t]) for (p, sym), t in delta.items() if p == q))) for q in cls}
        ids = {}
        for q in sorted(cls):
            ids.setdefault(sig[q], len(ids))
        ncls = {q: ids[sig[q]] for q in cls}
        if len(set(ncls.values())) == len(set(cls.values())):
            cls = ncls
            break
        cls = ncls
    # renumber breadth first
    num, order = {cls[0]: 0}, [cls[0]]
    d2 = {}
    for (q, sym), t in delta.items():
        d2[(cls[q], sym)] = cls[t]
    for c in order:
        for (q, sym) in sorted(k for k in d2 if k[0] == c):
            t = d2[(q, sym)]
            if t not in num:
                num[t] = len(num)
                order.append(t)
    return len(num), {(num[q], s): num[t] for (q, s), t in d2.items()}, {num[cls[q]] for q in acc}


@lru_cache(None)
def load():
    g = G()
    g.rules = read_rules()
    g.ast = {r: parse_rhs(t) for r, t in g.rules.items()}
    null = set()

    def nb(a):
        k = a[0]
        if k == 'seq':
            return all(nb(x) for x in a[1])
        if k == 'alt':
            return any(nb(x) for x in a[1])
        if k in ('opt', 'rep', 'not'):
            return True
        return k == 'n' and a[1] in null
    while True:
        add = {r for r in g.rules if r not in null and nb(g.ast[r])}
        if not add:
            break
        null |= add
    g.nullable = null
    g.call = {r: dfa(g.ast[r]) for r in g.rules}
    g.tree = {r: dfa(g.ast[r], lambda x: x in null) for r in g.rules}
    # FIRST by state of the call automaton (excluding empty)
    first = {r: set() for r in g.rules}

    def firstq(r, q, seen=()):
        out = set()
        n, d, acc = g.call[r]
        for (p, (k, x)), t in d.items():
            if p != q:
                continue
            if k == 't':
                out.add(x)
            else:
                out |= first[x]
                if x in null and (t not in seen):
                    out |= firstq(r, t, seen + (q,))
        return out
    while True:
        new = {r: firstq(r, 0) for r in g.rules}
        if new == first:
            break
        first = new
    g.first = first
    follow = {r: set() for r in g.rules}
    follow['StoredDefinition'] = {'EOF'}
    ch = True

    def ends(r, q):
        """can state q reach acceptance without tokens"""
        n, d, acc = g.call[r]
        seen, w = {q}, [q]
        while w:
            x = w.pop()
            if x in acc:
                return True
            for (p, (k, y)), t in d.items():
                if p == x and k == 'n' and y in null and t not in seen:
                    seen.add(t)
                    w.append(t)
        return False
    while ch:
        ch = False
        for r in g.rules:
            n, d, acc = g.call[r]
            for (q, (k, x)), t in d.items():
                if k == 'n':
                    f = firstq(r, t)
                    if ends(r, t):
                        f = f | follow[r]
                    if not f <= follow[x]:
                        follow[x] |= f
                        ch = True
    g.follow = follow
    g.firstq = firstq
    g.ends = ends
    return g


def snake(r):
    return re.sub(r'(?<!^)(?=[A-Z])', '_', r).lower().replace('component_clause_1', 'component_clause1')


# --------------------------------------------------------------- prediction

def in_set(v, s):
    return '(' + ' || '.join('%s == ModelicaToken::%s' % (v, k) for k in sorted(s)) + ')' if s else 'false'


class Hint(Exception):
    pass


# Decisions that need more than one token: (rule, symbol) -> extra condition.
# `k0 k1 k2` are the next three tokens.
MT = lambda v, k: '%s == ModelicaToken::%s' % (v, k)
HINTS = {
    ('ClassSpecifier', 'LongClassSpecifier'): '(k0 == ModelicaToken::Extends || k1 != ModelicaToken::Equal)',
    ('ClassSpecifier', 'ShortClassSpecifier'): '(k1 == ModelicaToken::Equal && k2 != ModelicaToken::Der)',
    ('ClassSpecifier', 'DerClassSpecifier'): '(k1 == ModelicaToken::Equal && k2 == ModelicaToken::Der)',
    ('ExternalFunctionCall', 'ComponentReference'): '(k1 != ModelicaToken::LParen)',
    ('ExternalFunctionCall', 'Identifier'): '(k1 == ModelicaToken::LParen)',
    ('ImportClause', 'Identifier'): '(k1 == ModelicaToken::Equal)',
    ('ImportClause', 'Name'): '(k1 != ModelicaToken::Equal)',
    ('Name', 'Dot'): '(k1 == ModelicaToken::Identifier)',
    ('FunctionArguments', 'NamedArguments'): '(k1 == ModelicaToken::Equal)',
    ('FunctionArguments', 'Expression'): '(k1 != ModelicaToken::Equal)',
    ('FunctionArgumentsNonFirst', 'NamedArguments'): '(k1 == ModelicaToken::Equal)',
    ('FunctionArgumentsNonFirst', 'FunctionArgument'): '(k1 != ModelicaToken::Equal)',
    ('FunctionArguments', 'FunctionPartialApplication'): '(k1 != ModelicaToken::Equal)',
    ('Composition', 'EquationSection'): '(k0 == ModelicaToken::Equation || k1 == ModelicaToken::Equation)',
    ('Composition', 'AlgorithmSection'): '(k0 == ModelicaToken::Algorithm || k1 == ModelicaToken::Algorithm)',
}
# an end of the rule is accepted under this condition only
ENDS = {
    'Name': '(k0 != ModelicaToken::Dot || k1 == ModelicaToken::LCurly)',
    'ElementList': 'FOLLOW', 'EquationSection': 'FOLLOW', 'AlgorithmSection': 'FOLLOW', 'Composition': 'FOLLOW',
    'OutputExpressionList': 'FOLLOW', 'StoredDefinition': 'FOLLOW',
}
# negative look-ahead of the grammar, in the loops that have it: rule -> tokens
NOT = {'EquationSection': {'End', 'Initial'}, 'IfEquation': {'End'}, 'ForEquation': {'End'}, 'WhenEquation': {'End'}}
# tokens that a loop of expressions/statements must not start with are in ENDS/FOLLOW


def first_cond(g, z, big=8):
    f = g.first[z]
    if len(f) > big:
        return 'first_%s(k0)' % snake(z)
    return in_set('k0', f)


def pred_text(g, r):
    """body of pred_R(q,k0,k1,k2): the action of an LL parser"""
    n, d, acc = g.call[r]
    out = []
    for q in range(n):
        br = []
        for (p, (k, x)), t in sorted(d.items()):
            if p != q:
                continue
            hint = HINTS.get((r, x))
            if k == 't':
                c = MT('k0', x)
                if hint:
                    c += ' && ' + hint
                br.append((0, c, 'Act::Shift(%d)' % t))
            else:
                if x in g.nullable:
                    c = 'true'
                    br.append((2, c, 'Act::Call(SyntaxKind::%s, %d)' % (x, t)))
                else:
                    c = first_cond(g, x)
                    if hint:
                        c += ' && ' + hint
                    if x == 'Equation' and NOT.get(r):
                        c += ''.join(' && k0 != ModelicaToken::' + z for z in sorted(NOT[r]))
                    br.append((1, c, 'Act::Call(SyntaxKind::%s, %d)' % (x, t)))
        br.sort(key=lambda b: b[0])
        if q in acc:
            e = ENDS.get(r, 'true')
            if e == 'FOLLOW':
                e = in_set('k0', g.follow[r])
            br.append((3, e, 'Act::Accept'))
        s = ''
        for _, c, a in br:
            if c == 'true':
                s += a
                break
            s += 'if %s { %s } else ' % (c, a)
        else:
            s += '{ Act::Fail }'
        if s.endswith('else Act::Accept') or re.search(r'else Act::\w+\([^{}]*\)$', s):
            i = s.rindex('else Act::') + 5
            s = s[:i] + '{ ' + s[i:] + ' }'
        out.append('if q == %d { %s }' % (q, s))
    return ' else '.join(out) + ' else { Act::Fail }'


def rank_check(g):
    """every call that may happen without consuming is well-founded"""
    rank = {}

    def rk(r, q, stack=()):
        if (r, q) in rank:
            return rank[(r, q)]
        assert (r, q) not in stack, 'left recursion at %s' % r
        m = 0
        n, d, acc = g.call[r]
        for (p, (k, x)), t in d.items():
            if p == q and k == 'n':
                m = max(m, rk(x, 0, stack + ((r, q),)) + 1)
                if x in g.nullable:
                    m = max(m, rk(r, t, stack + ((r, q),)) + 1)
        rank[(r, q)] = m
        return m
    for r in g.rules:
        for q in range(g.call[r][0]):
            rk(r, q)
    return rank


def ll_check(g):
    """strong LL: in each state, any two branches are told apart (by the first
    token, or by a hint). -> list of conflicts not covered"""
    bad = []
    for r in g.rules:
        n, d, acc = g.call[r]
        for q in range(n):
            br = []
            for (p, (k, x)), t in d.items():
                if p == q:
                    f = {x} if k == 't' else set(g.first[x])
                    if k == 'n' and x in g.nullable:
                        f |= g.firstq(r, t) | (g.follow[r] if g.ends(r, t) else set())
                    if x == 'Equation':
                        f -= NOT.get(r, set())
                    br.append((x, f))
            if q in acc:
                br.append(('$', set(g.follow[r])))
            for i in range(len(br)):
                for j in range(i):
                    c = br[i][1] & br[j][1]
                    if c:
                        bad.append((r, q, br[j][0], br[i][0], sorted(c)))
    return bad


# --------------------------------------------------------------- text

def sym(s):
    return ('Sym::T(ModelicaToken::%s)' if s[0] == 't' else 'Sym::N(SyntaxKind::%s)') % s[1]


def delta_text(g, r):
    n, d, acc = g.tree[r]
    by = {}
    for (q, s), t in d.items():
        by.setdefault((q, t), []).append(s)
    parts = []
    for (q, t), ss in sorted(by.items()):
        parts.append('if q == %d && (%s) { %d }' % (q, ' || '.join('x == ' + sym(s) for s in sorted(ss)), t))
    return ' else '.join(parts) + ' else { -1 }'


def spec_text(g, predict=True):
    L = []
    a = L.append
    a('pub enum Sym { T(ModelicaToken), N(SyntaxKind) }')
    for r in g.rules:
        a('/// %s: %s' % (r, ' '.join(g.rules[r])))
        a('pub open spec fn delta_%s(q: int, x: Sym) -> int { %s }' % (snake(r), delta_text(g, r)))
    a('#[verifier::opaque] pub open spec fn delta(k: SyntaxKind, q: int, x: Sym) -> int { match k {')
    for r in g.rules:
        a('SyntaxKind::%s => delta_%s(q, x),' % (r, snake(r)))
    a('SyntaxKind::Error => -1, } }')
    a('/// states in which the symbols read so far are a complete right-hand side')
    a('#[verifier::opaque] pub open spec fn fin(k: SyntaxKind, q: int) -> bool { match k {')
    for r in g.rules:
        n, d, acc = g.tree[r]
        a('SyntaxKind::%s => %s,' % (r, ' || '.join('q == %d' % q for q in sorted(acc))))
    a('SyntaxKind::Error => false, } }')
    for r in g.rules:
        n, d, acc = g.tree[r]
        a('pub proof fn rule_%s() ensures forall|q: int, x: Sym| #[trigger] delta(SyntaxKind::%s, q, x) == delta_%s(q, x), '
          'forall|q: int| #[trigger] fin(SyntaxKind::%s, q) == (%s) { reveal(delta); reveal(fin); }'
          % (snake(r), r, snake(r), r, ' || '.join('q == %d' % q for q in sorted(acc))))
    if predict:
        a('pub enum Act { Shift(int), Call(SyntaxKind, int), Accept, Fail }')
        for z in g.rules:
            if len(g.first[z]) > 8:
                a('pub open spec fn first_%s(k0: ModelicaToken) -> bool { %s }' % (snake(z), in_set('k0', g.first[z])))
        for r in g.rules:
            a('pub open spec fn pred_%s(q: int, k0: ModelicaToken, k1: ModelicaToken, k2: ModelicaToken) -> Act { %s }'
              % (snake(r), pred_text(g, r)))
        a('#[verifier::opaque] pub open spec fn pred(k: SyntaxKind, q: int, k0: ModelicaToken, k1: ModelicaToken, k2: ModelicaToken) -> Act { match k {')
        for r in g.rules:
            a('SyntaxKind::%s => pred_%s(q, k0, k1, k2),' % (r, snake(r)))
        a('SyntaxKind::Error => Act::Fail, } }')
        for r in g.rules:
            a('pub proof fn predict_%s() ensures forall|q: int, k0: ModelicaToken, k1: ModelicaToken, k2: ModelicaToken| '
              '#[trigger] pred(SyntaxKind::%s, q, k0, k1, k2) == pred_%s(q, k0, k1, k2) { reveal(pred); }' % (snake(r), r, snake(r)))
        rank = rank_check(g)
        a('#[verifier::opaque] pub open spec fn rank(k: SyntaxKind, q: int) -> nat { match k {')
        for r in g.rules:
            a('SyntaxKind::%s => %s,' % (r, ' else '.join('if q == %d { %d }' % (q, rank[(r, q)]) for q in range(g.call[r][0]))
                                         + ' else { 0 }'))
        a('SyntaxKind::Error => 0, } }')
    return '\n'.join(L)


def states_after(g, r, path):
    """(state of the call automaton, set of states of the tree automaton) after the symbols of `path`"""
    q1, S = 0, {0}
    _, d1, _ = g.call[r]
    _, d2, _ = g.tree[r]
    for t in path.split():
        s = ('t', t[1:]) if t.startswith("'") else ('n', t)
        q1 = d1[(q1, s)]
        T = {d2[(q, s)] for q in S if (q, s) in d2}
        if s[0] == 'n' and s[1] in g.nullable:
            T |= S
        S = T
    return q1, S


if __name__ == '__main__':
    g = load()
    print(len(g.rules), 'rules; nullable', sorted(g.nullable))
    rank_check(g)
    for c in ll_check(g):
        print('conflict', c)
    for r in g.rules:
        print(r, 'call', g.call[r][0], 'tree', g.tree[r][0])
