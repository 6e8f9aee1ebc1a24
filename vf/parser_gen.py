"""Contracts of the parser procedures, one per grammar rule."""
import grammar
import vc
from grammar import snake

# own look-ups of a procedure before its first token / after its last one
# (bounds used to show that a valid source never exhausts the parser's lifes)
HEAD = {'Element': 11, 'TypePrefix': 7, 'Composition': 5, 'ClassPrefixes': 4, 'ClassSpecifier': 5, 'ElementRedeclaration': 6,
        'ElementModificationOrReplaceable': 4, 'StoredDefinition': 5, 'ExternalFunctionCall': 3, 'FunctionArguments': 4,
        'FunctionArgumentsNonFirst': 3, 'OutputExpressionList': 4, 'ImportClause': 3}
HEAD_DEFAULT = 2
TAIL = {'Name': 7, 'ComponentReference': 6, 'TypePrefix': 7, 'ClassPrefixes': 4, 'Composition': 6, 'FunctionArguments': 3,
        'ShortClassSpecifier': 4, 'ExtendsClause': 3, 'ImportClause': 4, 'Expression': 1, 'Element': 3, 'TypeSpecifier': 1,
        'ModificationExpression': 1, 'Statement': 2, 'Subscript': 1, 'FunctionArgument': 1, 'NamedArgument': 1, 'ConditionAttribute': 1}
TAIL_DEFAULT = 3
SELF_TAIL = {'Expression', 'FunctionArgumentsNonFirst', 'NamedArguments', 'ArrayArgumentsNonFirst'}

# calls that can happen without any token being consumed or a life lost
DEFAULT_CALLS = {
    'ClassDefinition': 'ClassPrefixes ClassSpecifier', 'LongClassSpecifier': 'DescriptionString Composition', 'Composition': 'ElementList',
    'ShortClassSpecifier': 'BasePrefix TypeSpecifier Description', 'DerClassSpecifier': 'TypeSpecifier Description',
    'EnumList': 'EnumerationLiteral', 'EnumerationLiteral': 'Description', 'ExternalFunctionCall': 'ComponentReference ExpressionList',
    'Element': 'ComponentClause', 'ComponentClause': 'TypePrefix TypeSpecifier ComponentList', 'ComponentList': 'ComponentDeclaration',
    'ComponentDeclaration': 'Declaration Description', 'ImportClause': 'Name Description', 'ExtendsClause': 'TypeSpecifier',
    'ConstrainingClause': 'TypeSpecifier', 'ClassOrInheritanceModification': 'ArgumentOrInheritanceModificationList',
    'ArgumentOrInheritanceModificationList': 'Argument', 'Argument': 'ElementModificationOrReplaceable',
    'ElementModificationOrReplaceable': 'ElementModification', 'ElementModification': 'Name DescriptionString',
    'ConditionAttribute': 'Expression', 'Modification': 'ClassModification', 'ModificationExpression': 'Expression', 'ClassModification': 'ArgumentList',
    'ArgumentList': 'Argument', 'ElementRedeclaration': 'ComponentClause1', 'ComponentClause1': 'TypePrefix TypeSpecifier ComponentDeclaration1',
    'ComponentDeclaration1': 'Declaration Description', 'ElementReplaceable': 'ComponentClause1', 'ShortClassDefinition': 'ClassPrefixes ShortClassSpecifier',
    'Equation': 'SimpleExpression Description', 'Statement': 'ComponentReference FunctionCallArgs Description', 'IfEquation': 'Expression',
    'IfStatement': 'Expression', 'ForEquation': 'ForIndices', 'ForStatement': 'ForIndices', 'ForIndices': 'ForIndex', 'WhileStatement': 'Expression',
    'WhenEquation': 'Expression', 'WhenStatement': 'Expression', 'ConnectEquation': 'ComponentReference', 'Expression': 'SimpleExpression',
    'SimpleExpression': 'LogicalExpression', 'LogicalExpression': 'LogicalTerm', 'LogicalTerm': 'LogicalFactor', 'LogicalFactor': 'Relation',
    'Relation': 'ArithmeticExpression', 'ArithmeticExpression': 'Term', 'Term': 'Factor', 'Factor': 'Primary', 'Primary': 'ComponentReference',
    'TypeSpecifier': 'Name', 'ResultReference': 'ComponentReference', 'FunctionCallArgs': 'FunctionArguments', 'FunctionArguments': 'Expression',
    'FunctionArgumentsNonFirst': 'FunctionArgument', 'ArrayArguments': 'Expression', 'ArrayArgumentsNonFirst': 'Expression',
    'NamedArguments': 'NamedArgument', 'NamedArgument': 'FunctionArgument', 'FunctionArgument': 'Expression',
    'FunctionPartialApplication': 'TypeSpecifier', 'OutputExpressionList': 'Expression', 'ExpressionList': 'Expression',
    'ArraySubscripts': 'Subscript', 'Subscript': 'Expression', 'Description': 'DescriptionString', 'AnnotationClause': 'ClassModification',
}
T = lambda *k: '(' + ' || '.join('$P.tk(0) == ModelicaToken::' + x for x in k) + ')'
IF = "'If Expression 'Then"
WHEN = "'When Expression 'Then"
# loop heads: the symbols read on a shortest path to them [, condition on the next token]
LOOPS = {
    'StoredDefinition': [[("'Within 'Semicolon", None), ('', '$P.pos == $O.pos && $P.tk(0) != ModelicaToken::Within')]],
    'DerClassSpecifier': [[("'Identifier 'Equal 'Der 'LParen TypeSpecifier 'Comma 'Identifier", None)]],
    'EnumList': [[('EnumerationLiteral', None)]],
    'Composition': [[('ElementList', None)]],
    'ElementList': [[('', None)]],
    'ImportList': [[("'Identifier", None)]],
    'ArgumentOrInheritanceModificationList': [[('Argument', None)]],
    'ComponentList': [[('ComponentDeclaration', None)]],
    'ArgumentList': [[('Argument', None)]],
    'EquationSection': [[("'Equation", None)]],
    'AlgorithmSection': [[("'Algorithm", None)]],
    'IfEquation': [[(IF, None)], [(IF, None)], [(IF, T('ElseIf', 'Else', 'End'))], [(IF + " 'Else", None)]],
    'IfStatement': [[(IF, None)], [(IF, None)], [(IF, T('ElseIf', 'Else', 'End'))], [(IF + " 'Else", None)]],
    'ForEquation': [[("'For ForIndices 'Loop", None)]], 'ForStatement': [[("'For ForIndices 'Loop", None)]],
    'WhileStatement': [[("'While Expression 'Loop", None)]],
    'ForIndices': [[('ForIndex', None)]],
    'WhenEquation': [[(WHEN, None)], [(WHEN, None)], [(WHEN, T('ElseWhen', 'End'))]],
    'WhenStatement': [[(WHEN, None)], [(WHEN, None)], [(WHEN, T('ElseWhen', 'End'))]],
    'Expression': [[("'If Expression 'Then Expression", None)]],
    'LogicalExpression': [[('LogicalTerm', None)]], 'LogicalTerm': [[('LogicalFactor', None)]],
    'ArithmeticExpression': [[('Term', None)]], 'Term': [[('Factor', None)]],
    'Primary': [[("'LBracket ExpressionList", None)]],
    'Name': [[("'Identifier", None)]],
    'ComponentReference': [[("'Identifier", '$P.tk(0) != ModelicaToken::LBracket'), ("'Identifier ArraySubscripts", None)]],
    'OutputExpressionList': [[('', T('RParen', 'Comma')), ('Expression', None)]],
    'ExpressionList': [[('Expression', None)]],
    'ArraySubscripts': [[("'LBracket Subscript", None)]],
    'DescriptionString': [[("'String", None)]],
}
# loops inside loops: inner -> outer
NESTED = {r: {1: 2} for r in ('IfEquation', 'IfStatement', 'WhenEquation', 'WhenStatement')}
BIG = {'Composition': 100, 'Element': 300, 'IfEquation': 100, 'IfStatement': 100, 'WhenEquation': 100, 'WhenStatement': 100}
HEAVY = ['element', 'composition', 'if_equation', 'if_statement', 'when_equation', 'when_statement']
NEEDS_TOKEN = {'RelationalOperator', 'AddOperator', 'MulOperator'}


def costs(g):
    head, tail = {}, {}

    def h(r):
        if r in head:
            return head[r]
        n, d, acc = g.call[r]
        memo = {}

        def hq(q):
            if q in memo:
                return memo[q]
            m = 0
            for (p, (k, x)), t in d.items():
                if p == q and k == 'n':
                    m = max(m, h(x) + (hq(t) if x in g.nullable else 0))
            memo[q] = m
            return m
        head[r] = HEAD.get(r, HEAD_DEFAULT) + hq(0)
        return head[r]
    for r in g.rules:
        h(r)
    # head cost of the nullable rules that may follow the last token, to the end
    def trail(r, q, seen=()):
        n, d, acc = g.call[r]
        return max([0] + [head[x] + trail(r, t, seen + (q,)) for (p, (k, x)), t in d.items()
                          if p == q and k == 'n' and x in g.nullable and t not in seen and g.ends(r, t)])

    def t(r):
        if r in tail:
            return tail[r]
        n, d, acc = g.call[r]
        w = TAIL.get(r, TAIL_DEFAULT)
        m = w
        for (p, (k, x)), q in d.items():
            if not g.ends(r, q):
                continue
            c = trail(r, q) + w
            if k == 'n' and x != r:
                c += t(x)
            m = max(m, c)
        tail[r] = m
        return m
    for r in g.rules:
        t(r)
    return head, tail


def ranks():
    rank = {}

    def f(r):
        if r not in rank:
            rank[r] = 1 + max([0] + [f(z) for z in DEFAULT_CALLS.get(r, '').split()])
        return rank[r]
    g = grammar.load()
    for r in g.rules:
        f(r)
    return rank


def contracts():
    g = grammar.load()
    head, tail = costs(g)
    rank = ranks()
    out = []
    w = out.append
    for r in g.rules:
        f = snake(r)
        K = 'SyntaxKind::' + r
        w('@fn %s(p) tags=C04,C05,C06' % f)
        w('requires[C05,C06]: old(p).inv()' + (', old(p).pos < old(p).tokens@.len()' if r in NEEDS_TOKEN else ''))
        if r in NEEDS_TOKEN:
            # the caller has already looked at the operator
            w('requires[C04]: old(p).errors@.len() == 0 ==> first_op_%s(old(p).tk(0))' % f)
        w('ensures[C04,C05,C06]: final(p).inv(), final(p).grew(old(p))')
        w('ensures[C05,C06]: closing(final(p).tokens@, final(p).events@, old(p).stk(), old(p).events@.len() as int, %s)' % K)
        w('ensures[C05]: final(p).stk() == grown(old(p).stk(), %s, final(p).pos > old(p).pos)' % K)
        w('ensures[C04]: old(p).can(%s, 0) is Some && old(p).lifes >= %d ==> final(p).errors == old(p).errors && '
          'Some(final(p).pos as int) == old(p).can(%s, 0) && %s'
          % (K, head[r], K, moved('final(p)', r not in g.nullable, 100 - tail[r], head[r])))
        if r not in g.nullable:
            w('ensures[C05]: final(p).errors@.len() == 0 ==> final(p).pos > old(p).pos')
        w('attr: #[verifier::rlimit(%d)]' % BIG.get(r, 40))
        for k, pat, txt in hints(g, r, head):
            w('%s: %s =>> %s' % (k, pat, txt))
        w('decreases: old(p).tokens@.len() - old(p).pos, old(p).lifes, %dint' % rank[r])
        w('entry: broadcast use {lemma_run, lemma_run0, lemma_rec}; proof { rule_%s(); predict_%s(); }' % (f, f))
        for i, alts in enumerate(LOOPS.get(r, [])):
            w('loop %d' % i)
            w('invariant: p.inv(), p.grew(old(p)), p.within(old(p)), (p.kids().len() == 0) == (p.pos == old(p).pos)')
            sts = set()
            for path, _ in alts:
                sts |= grammar.states_after(g, r, path)[1]
            w('invariant[C04,C05]: p.errors@.len() == 0 ==> (%s)' % ' || '.join('run(%s, p.kids()) == %d' % (K, q) for q in sorted(sts)))
            conds = []
            for path, c in alts:
                q1, _ = grammar.states_after(g, r, path)
                e = 'p.can(%s, %d) == old(p).can(%s, 0)' % (K, q1, K)
                if c:
                    e += ' && (%s)' % c.replace('$P', 'p').replace('$O', 'old(p)')
                conds.append('(%s)' % e)
            w('invariant[C04]: old(p).can(%s, 0) is Some && old(p).lifes >= %d ==> p.errors == old(p).errors && (%s) && '
              '%s'
              % (K, head[r], ' || '.join(conds), moved('p', r not in g.nullable and r not in ('StoredDefinition',), loop_bound(alts, tail) if r != 'Composition' else 98 - head['ElementList'], loop_cost(g, r, head))))
            outer = NESTED.get(r, {}).get(i)
            if outer is not None:
                w('invariant: p.pos >= pos%d, p.pos == pos%d ==> p.lifes <= lifes%d' % (outer, outer, outer))
            if i in NESTED.get(r, {}).values():
                w('lentry: let ghost pos%d = p.pos; let ghost lifes%d = p.lifes;' % (i, i))
            w('ldecreases: p.tokens@.len() - p.pos, p.lifes')
        w('')
    return '\n'.join(out)


def moved(p, nonempty, bound, cost):
    if nonempty:
        return '%s.pos > old(p).pos && %s.lifes >= %d' % (p, p, bound)
    return '(if %s.pos > old(p).pos { %s.lifes >= %d } else { %s.lifes >= old(p).lifes - %d })' % (p, p, bound, p, cost)


def joined(g, r, alts, head, nonempty, bound, cost):
    """proof text: where the procedure is after one of the paths `alts`"""
    K = 'SyntaxKind::' + r
    sts, conds = set(), []
    for path, c in alts:
        q1, S = grammar.states_after(g, r, path)
        sts |= S
        e = 'p.can(%s, %d) == old(p).can(%s, 0)' % (K, q1, K)
        if c:
            e += ' && (%s)' % c.replace('$P', 'p')
        conds.append('(%s)' % e)
    return ('proof { assert(p.errors@.len() == 0 ==> (%s)); assert(old(p).can(%s, 0) is Some && old(p).lifes >= %d ==> p.errors == old(p).errors && (%s) && %s); }'
            % (' || '.join('run(%s, p.kids()) == %d' % (K, q) for q in sorted(sts)), K, head[r], ' || '.join(conds),
               moved('p', nonempty, bound, cost)))


def hints(g, r, head):
    out = []
    if r == 'ShortClassSpecifier':
        out.append(('hint_before', r'description \( p \) ;', joined(g, r, [
            ("'Identifier 'Equal BasePrefix TypeSpecifier ArraySubscripts ClassModification", None),
            ("'Identifier 'Equal BasePrefix TypeSpecifier ArraySubscripts", "$P.tk(0) != ModelicaToken::LParen"),
            ("'Identifier 'Equal BasePrefix TypeSpecifier", "$P.tk(0) != ModelicaToken::LParen && $P.tk(0) != ModelicaToken::LBracket")], head, True, 80, 0)))
    if r == 'Statement':
        out.append(('hint_before', r'description \( p \) ;', joined(g, r, [("'Return", None)], head, True, 50, 0)))
    return out


def loop_bound(alts, tail):
    b = 100
    for path, c in alts:
        z = (path.split() or ["'"])[-1]
        b = min(b, 98 if z.startswith("'") else 99 - tail[z])
    if len(alts) == 1 and alts[0][1]:
        b -= 10
    return b


def loop_cost(g, r, head):
    """look-ups before the loop when no token was consumed"""
    return {'StoredDefinition': 2, 'Composition': head['ElementList'] + 1, 'ElementList': 0, 'OutputExpressionList': 2}.get(r, 0)


OPS = {'relational_operator': 'Les Leq Gre Geq Eq Neq', 'add_operator': 'Plus Minus DotPlus DotMinus', 'mul_operator': 'Star Slash DotStar DotSlash'}


def prelude():
    s = 'pub open spec fn is_operator(k: SyntaxKind) -> bool { k == SyntaxKind::RelationalOperator || k == SyntaxKind::AddOperator || k == SyntaxKind::MulOperator }\n'
    for f, ks in OPS.items():
        s += 'pub open spec fn first_op_%s(k: ModelicaToken) -> bool { %s }\n' % (f, grammar.in_set('k', ks.split()))
    return s


if __name__ == '__main__':
    g = grammar.load()
    head, tail = costs(g)
    print('max head', max(head.values()), max(head, key=head.get), 'max tail', max(tail.values()), max(tail, key=tail.get))
    print({r: (head[r], tail[r]) for r in g.rules})
