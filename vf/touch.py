"""Tokens the style leaves together: tables of the tokens that begin and end each construct, and, rule by rule, the lemma
that two neighbours without a gap are written with characters that do not join."""
import grammar
from grammar import snake
import format_gen


def first_sets(g):
    first = {r: set() for r in g.rules}
    while True:
        ch = False
        for r in g.rules:
            n, d, acc = g.tree[r]
            new = set()
            for (q, (k, x)), t in d.items():
                if q == 0:
                    new |= {x} if k == 't' else first[x]
            if not new <= first[r]:
                first[r] |= new
                ch = True
        if not ch:
            return first


def spec_text(g):
    L = []
    a = L.append
    for name, sets in (('begins', first_sets(g)), ('finishes', format_gen.last_sets(g))):
        a('#[verifier::opaque] pub open spec fn %s(k: SyntaxKind, x: ModelicaToken) -> bool { match k {' % name)
        for r in g.rules:
            a('SyntaxKind::%s => %s,' % (r, grammar.in_set('x', sets[r])))
        a('_ => false } }')
    a("""
pub open spec fn sym_begins(s: Sym, x: ModelicaToken) -> bool { match s { Sym::T(k) => x == k, Sym::N(k) => begins(k, x) } }
pub open spec fn sym_finishes(s: Sym, x: ModelicaToken) -> bool { match s { Sym::T(k) => x == k, Sym::N(k) => finishes(k, x) } }
""")
    for r in g.rules:
        f = snake(r)
        a('proof fn begin_%s(q: int, s: Sym, x: ModelicaToken) requires q >= 0, q == delta(SyntaxKind::%s, 0, s), sym_begins(s, x) ensures begins(SyntaxKind::%s, x) { rule_%s(); reveal(begins); }' % (f, r, r, f))
        a('proof fn finish_%s(q: int, s: Sym, x: ModelicaToken) requires fin(SyntaxKind::%s, delta(SyntaxKind::%s, q, s)), sym_finishes(s, x) ensures finishes(SyntaxKind::%s, x) { rule_%s(); reveal(finishes); }' % (f, r, r, r, f))
        a('proof fn touch_%s(t: Tree, k: int, p: int, m: bool, q: int, x: ModelicaToken, y: ModelicaToken) requires t.kind == SyntaxKind::%s, gap(t, k, p, m) is No, '
          'delta(t.kind, q, sym(t, k - 1)) >= 0, delta(t.kind, delta(t.kind, q, sym(t, k - 1)), sym(t, k)) >= 0, sym_finishes(sym(t, k - 1), x), sym_begins(sym(t, k), y) '
          'ensures may_touch(x, y) { rule_%s(); style_%s(); reveal(begins); reveal(finishes); }' % (f, r, f, f))
    a('proof fn lemma_begin(k: SyntaxKind, q: int, s: Sym, x: ModelicaToken) requires q >= 0, q == delta(k, 0, s), sym_begins(s, x) ensures begins(k, x) { match k {')
    for r in g.rules:
        a('SyntaxKind::%s => { begin_%s(q, s, x); }' % (r, snake(r)))
    a('SyntaxKind::Error => { reveal(delta); } } }')
    a('proof fn lemma_finish(k: SyntaxKind, q: int, s: Sym, x: ModelicaToken) requires fin(k, delta(k, q, s)), sym_finishes(s, x) ensures finishes(k, x) { match k {')
    for r in g.rules:
        a('SyntaxKind::%s => { finish_%s(q, s, x); }' % (r, snake(r)))
    a('SyntaxKind::Error => { reveal(fin); } } }')
    a('proof fn lemma_touch_rule(t: Tree, k: int, p: int, m: bool, q: int, x: ModelicaToken, y: ModelicaToken) requires gap(t, k, p, m) is No, '
      'delta(t.kind, q, sym(t, k - 1)) >= 0, delta(t.kind, delta(t.kind, q, sym(t, k - 1)), sym(t, k)) >= 0, sym_finishes(sym(t, k - 1), x), sym_begins(sym(t, k), y) '
      'ensures may_touch(x, y) { match t.kind {')
    for r in g.rules:
        a('SyntaxKind::%s => { touch_%s(t, k, p, m, q, x, y); }' % (r, snake(r)))
    a('SyntaxKind::Error => { reveal(delta); } } }')
    return '\n'.join(L)
