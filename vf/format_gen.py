"""The layout of the code style, rule by rule, and the contracts of the formatting functions made from it.

STYLE: what stands between two neighbouring children of a node (default: nothing).
   Kind: previous symbols > next symbols = gap [@ indentation level]
'X is a token, X a rule, * any. The first line that fits decides.
"""
import grammar
from grammar import snake

STYLE = """
StoredDefinition: 'Within > * = Space
StoredDefinition: 'Final > ClassDefinition = Space
StoredDefinition: 'Semicolon > 'Final ClassDefinition = Legal @ L
ClassDefinition: * > * = Space
ClassPrefixes: * > * = Space
LongClassSpecifier: 'Extends 'End > 'Identifier = Space
LongClassSpecifier: * > DescriptionString = Brk @ L + 1
LongClassSpecifier: * > Composition = Req @ L + comp_deeper(kidt(t, k))
LongClassSpecifier: * > 'End = Req @ L
ShortClassSpecifier: * > 'Equal = Space
ShortClassSpecifier: 'Equal BasePrefix > * = Space
ShortClassSpecifier: 'LParen > EnumList = wrap0(paren(t, ModelicaToken::LParen, ModelicaToken::RParen) || has_kind(kidt(t, k), SyntaxKind::Description))
ShortClassSpecifier: * > Description = Brk
DerClassSpecifier: * > 'Equal = Space
DerClassSpecifier: 'Equal > * = Space
DerClassSpecifier: 'LParen > TypeSpecifier = wrap0(paren(t, ModelicaToken::LParen, ModelicaToken::RParen))
DerClassSpecifier: 'Comma > 'Identifier = wrap(paren(t, ModelicaToken::LParen, ModelicaToken::RParen))
DerClassSpecifier: * > Description = Brk
EnumList: 'Comma > * = wrap(m || multi(t))
EnumerationLiteral: * > Description = Brk
Composition: * > ElementList = Req @ L + 1
Composition: * > EquationSection AlgorithmSection 'Public 'Protected 'External = Req @ L
Composition: * > LanguageSpecification = Space
Composition: * > ExternalFunctionCall = Req @ L + 1
Composition: 'External LanguageSpecification ExternalFunctionCall > AnnotationClause = Brk
Composition: * > AnnotationClause = Req @ L + 1
ExternalFunctionCall: * > 'Equal = Space
ExternalFunctionCall: 'Equal > * = Space
ExternalFunctionCall: 'LParen > ExpressionList = wrap0(paren(t, ModelicaToken::LParen, ModelicaToken::RParen))
ElementList: 'Semicolon > Element = Legal @ L
Element: * > ConstrainingClause Description = Brk
Element: 'Redeclare 'Final 'Inner 'Outer 'Replaceable > * = Space
ImportClause: * > 'Equal = Space
ImportClause: 'Import 'Equal > * = Space
ImportClause: 'LCurly > ImportList = wrap0(paren(t, ModelicaToken::LCurly, ModelicaToken::RCurly))
ImportClause: * > Description = Brk
ImportList: 'Comma > * = wrap(m || multi(t))
ExtendsClause: 'Extends > * = Space
ExtendsClause: * > AnnotationClause = Brk
ConstrainingClause: 'Constrainedby > * = Space
ClassOrInheritanceModification: 'LParen > ArgumentOrInheritanceModificationList = wrap0(multi(t) && t.children@.len() > 2)
ArgumentOrInheritanceModificationList: 'Comma > * = wrap(m || multi(t))
InheritanceModification: 'Break > * = Space
ComponentClause: TypePrefix > TypeSpecifier = Space
ComponentClause: * > ComponentList = wrap(multi(kidt(t, k)) && kidt(t, k).children@.len() > 1)
TypePrefix: * > * = Space
ComponentList: 'Comma > * = wrap(multi(t) && t.children@.len() > 1)
ComponentDeclaration: * > ConditionAttribute = Space
ComponentDeclaration: * > Description = Brk
ConditionAttribute: 'If > * = Space
Declaration: * > Modification = mod_gap(kidt(t, k))
Modification: * > 'Equal = Space
Modification: 'Equal 'Assign > ModificationExpression = wrap(long_if(kidt(t, k)))
ClassModification: 'LParen > ArgumentList = wrap0(multi(t) || has_kind(t, SyntaxKind::DescriptionString) || has_kind(t, SyntaxKind::Description))
ArgumentList: 'Comma > * = wrap(m || multi(t))
ElementModificationOrReplaceable: 'Each 'Final > * = Space
ElementModification: * > Modification = mod_gap(kidt(t, k))
ElementModification: * > DescriptionString = Brk
ElementRedeclaration: 'Redeclare 'Each 'Final > * = Space
ElementReplaceable: 'Replaceable > * = Space
ElementReplaceable: * > ConstrainingClause = Brk
ComponentClause1: TypePrefix > TypeSpecifier = Space
ComponentClause1: * > ComponentDeclaration1 = Space
ComponentDeclaration1: * > Description = Brk
ShortClassDefinition: * > ShortClassSpecifier = Space
EquationSection: 'Initial > * = Space
EquationSection: 'Equation > Equation = Req @ L + 1
EquationSection: * > Equation = Legal @ L + 1
AlgorithmSection: 'Initial > * = Space
AlgorithmSection: 'Algorithm > Statement = Req @ L + 1
AlgorithmSection: * > Statement = Legal @ L + 1
Equation: * > 'Equal = Space
Equation: 'Equal > Expression = wrap(long_if(kidt(t, k)))
Equation: * > Description = Brk
Statement: * > 'Assign = Space
Statement: 'Assign > ComponentReference = Space
Statement: 'Assign > Expression = wrap(long_if(kidt(t, k)))
Statement: 'LParen > OutputExpressionList = oel_gap(kidt(t, k))
Statement: OutputExpressionList > 'RParen = oel_end(kidt(t, k - 1))
Statement: * > Description = Brk
%(blocks)s
ForIndices: 'Comma > * = Space
ForIndex: * > 'In = Space
ForIndex: 'In > * = Space
ConnectEquation: 'LParen > * = wrap0(multi(t))
ConnectEquation: 'Comma > * = wrap(multi(t))
Expression: 'If 'ElseIf > Expression = Space
Expression: Expression > 'Then = Space
Expression: 'Then 'Else > Expression = wrap(multi(t))
Expression: Expression > 'ElseIf 'Else = wrap(multi(t))
SimpleExpression: * > * = Space
LogicalExpression: * > 'Or = wrap(at_break(t, k, p))
LogicalExpression: 'Or > * = Space
LogicalTerm: * > 'And = wrap(at_break(t, k, p))
LogicalTerm: 'And > * = Space
LogicalFactor: 'Not > * = Space
Relation: * > RelationalOperator = wrap(at_break(t, k, p))
Relation: RelationalOperator > * = Space
ArithmeticExpression: Term > AddOperator = wrap(at_break(t, k, p))
ArithmeticExpression: AddOperator > Term = if k == 1 { Gap::No } else { Gap::Space }
Term: * > MulOperator = wrap(at_break(t, k, p))
Term: MulOperator > * = Space
Factor: * > 'Flex 'DotFlex = wrap(at_break(t, k, p))
Factor: 'Flex 'DotFlex > * = Space
Primary: 'LCurly 'LBracket > * = wrap0(multi(t))
Primary: 'Semicolon > * = wrap(multi(t))
Primary: 'LParen > OutputExpressionList = oel_gap(kidt(t, k))
Primary: OutputExpressionList > 'RParen = oel_end(kidt(t, k - 1))
ResultReference: 'Comma > * = Space
FunctionCallArgs: 'LParen > FunctionArguments = wrap0(multi(t))
FunctionArguments: 'Comma > * = wrap(m)
FunctionArguments: * > 'For = wrap(m)
FunctionArguments: 'For > * = Space
FunctionArgumentsNonFirst: 'Comma > * = wrap(m)
ArrayArguments: 'Comma > * = wrap(m)
ArrayArguments: * > 'For = wrap(m)
ArrayArguments: 'For > * = Space
ArrayArgumentsNonFirst: 'Comma > * = wrap(m)
NamedArguments: 'Comma > * = wrap(m)
NamedArgument: * > 'Equal = Space
NamedArgument: 'Equal > FunctionArgument = wrap(long_if(kidt(t, k)))
FunctionPartialApplication: 'Function > * = Space
FunctionPartialApplication: 'LParen > NamedArguments = wrap0(paren(t, ModelicaToken::LParen, ModelicaToken::RParen))
OutputExpressionList: 'Comma > * = Space
ExpressionList: 'Comma > * = wrap(m || multi(t))
ArraySubscripts: 'LBracket > * = wrap0(multi(t))
ArraySubscripts: 'Comma > * = wrap(multi(t))
Description: * > AnnotationClause = Brk
DescriptionString: * > 'Plus = wrap(multi(t))
DescriptionString: 'Plus > * = Space
AnnotationClause: 'Annotation > * = Space
"""
BLOCKS = ''
for _k, _x in (('IfEquation', 'Equation'), ('IfStatement', 'Statement'), ('ForEquation', 'Equation'), ('ForStatement', 'Statement'),
               ('WhileStatement', 'Statement'), ('WhenEquation', 'Equation'), ('WhenStatement', 'Statement')):
    BLOCKS += """
{k}: 'If 'ElseIf 'When 'ElseWhen 'While 'For > Expression ForIndices = Space
{k}: Expression ForIndices > 'Then 'Loop = Space
{k}: * > {x} = Legal @ L + 1
{k}: * > 'Else 'ElseIf 'ElseWhen 'End = Legal @ L
{k}: 'End > * = Space""".format(k=_k, x=_x)
STYLE = STYLE % {'blocks': BLOCKS}

BLOCK = set('StoredDefinition ClassDefinition ClassSpecifier LongClassSpecifier Composition ElementList Element EquationSection '
            'AlgorithmSection Equation Statement IfEquation IfStatement ForEquation ForStatement WhileStatement WhenEquation WhenStatement'.split())
# level of the blocks below, where it is not that of the node
DEEPER = {('Composition', 'ElementList'), ('EquationSection', 'Equation'), ('AlgorithmSection', 'Statement'), ('IfEquation', 'Equation'),
          ('IfStatement', 'Statement'), ('ForEquation', 'Equation'), ('ForStatement', 'Statement'), ('WhileStatement', 'Statement'),
          ('WhenEquation', 'Equation'), ('WhenStatement', 'Statement')}
# functions that are told whether the construct around them is broken into lines, and by whom
PAREN = 'paren(t, ModelicaToken::LParen, ModelicaToken::RParen)'
MULTI = {
    ('ShortClassSpecifier', 'EnumList'): PAREN + ' || has_kind(kidt(t, k), SyntaxKind::Description)',
    ('ExternalFunctionCall', 'ExpressionList'): PAREN,
    ('ImportClause', 'ImportList'): 'paren(t, ModelicaToken::LCurly, ModelicaToken::RCurly)',
    ('ClassOrInheritanceModification', 'ArgumentOrInheritanceModificationList'): 'multi(t) && t.children@.len() > 2',
    ('ClassModification', 'ArgumentList'): 'multi(t) || has_kind(t, SyntaxKind::DescriptionString) || has_kind(t, SyntaxKind::Description)',
    ('Primary', 'ArrayArguments'): 'multi(t)', ('Primary', 'ExpressionList'): 'multi(t) && t.children@.len() == 3',
    ('FunctionCallArgs', 'FunctionArguments'): 'multi(t)',
    ('FunctionArguments', 'FunctionArgumentsNonFirst'): 'm', ('FunctionArguments', 'NamedArguments'): 'm',
    ('FunctionArgumentsNonFirst', 'FunctionArgumentsNonFirst'): 'm', ('FunctionArgumentsNonFirst', 'NamedArguments'): 'm',
    ('ArrayArguments', 'ArrayArgumentsNonFirst'): 'm', ('ArrayArgumentsNonFirst', 'ArrayArgumentsNonFirst'): 'm',
    ('NamedArguments', 'NamedArguments'): 'm', ('FunctionPartialApplication', 'NamedArguments'): PAREN,
}
HAS_M = {x for _, x in MULTI}
# constructs that stand at the place where their own separator belongs
SPECIAL = {'Composition', 'ComponentList', 'Modification', 'OutputExpressionList'}
WRAPPED = set('LogicalExpression LogicalTerm LogicalFactor Relation ArithmeticExpression Term Factor Primary SimpleExpression OutputExpressionList Expression'.split())


def parse_style(g):
    out = {r: [] for r in g.rules}
    for l in STYLE.split('\n'):
        if not l.strip():
            continue
        k, rest = l.split(':', 1)
        ys, rest = rest.split('>', 1)
        xs, rest = rest.split('=', 1)
        gap, _, lv = rest.partition(' @ ')
        gap = gap.strip()
        if gap in ('No', 'Space', 'Brk', 'Legal', 'Req'):
            gap = 'Gap::' + gap
        out[k].append((ys.split(), xs.split(), gap, lv.strip()))
    return out


def sym(s):
    return 'Sym::T(ModelicaToken::%s)' % s[1:] if s[0] == "'" else 'Sym::N(SyntaxKind::%s)' % s


def among(v, ss):
    if ss == ['*']:
        return 'true'
    return '(' + ' || '.join('%s == %s' % (v, sym(s)) for s in ss) + ')'


def kids(g, r):
    n, d, acc = g.tree[r]
    return {x for (q, (k, x)), t in d.items() if k == 'n'}


def known(g, r):
    """symbols of the rule"""
    n, d, acc = g.tree[r]
    return {("'" if k == 't' else '') + x for (q, (k, x)), t in d.items()}


def last_sets(g):
    last = {r: set() for r in g.rules}
    while True:
        ch = False
        for r in g.rules:
            n, d, acc = g.tree[r]
            new = set()
            for (q, (k, x)), t in d.items():
                if t in acc:
                    new |= {x} if k == 't' else last[x]
            if not new <= last[r]:
                last[r] |= new
                ch = True
        if not ch:
            return last


LAST_FOR = ['ElementList', 'EquationSection', 'AlgorithmSection', 'LanguageSpecification', 'ExternalFunctionCall', 'ClassPrefixes',
            'DescriptionString', 'ClassModification', 'Expression', 'Composition']


def spec_text(g):
    st = parse_style(g)
    L = []
    a = L.append
    for r in g.rules:
        rules, syms = st[r], known(g, r)
        def pick(col, default):
            s = ''
            for ys, xs, gap, lv in rules:
                ys2 = ys if ys == ['*'] else [y for y in ys if y in syms]
                xs2 = xs if xs == ['*'] else [x for x in xs if x in syms]
                if not ys2 or not xs2:
                    continue
                v = gap if col == 0 else ('Some((%s) as int)' % lv if lv else 'None')
                c = ' && '.join(z for z in (among('y', ys2), among('x', xs2)) if z != 'true')
                if not c:
                    return s + '{ ' + v + ' }' if s else v
                s += 'if %s { %s } else ' % (c, v)
            return s + '{ %s }' % default if s else default
        h = 'let y = sym(t, k - 1); let x = sym(t, k); '
        a('pub open spec fn gap_%s(t: Tree, k: int, p: int, m: bool) -> Gap { %s%s }' % (snake(r), h, pick(0, 'Gap::No')))
        a('pub open spec fn lvl_%s(t: Tree, k: int, L: int) -> Option<int> { %s%s }' % (snake(r), h, pick(1, 'None')))
        s = ''
        for x in sorted(kids(g, r)):
            if (r, x) in MULTI:
                s += 'if x == %s { %s } else ' % (sym(x), MULTI[(r, x)])
        a('pub open spec fn kid_m_%s(t: Tree, k: int, m: bool) -> bool { %s%s }' % (snake(r), 'let x = sym(t, k); ' if s else '', s + '{ false }' if s else 'false'))
        s = ''
        for x in sorted(kids(g, r)):
            if x in BLOCK:
                s += 'if x == %s { L%s } else ' % (sym(x), ' + 1' if (r, x) in DEEPER else '')
        a('pub open spec fn kid_lv_%s(t: Tree, k: int, L: int) -> int { %s%s }' % (snake(r), 'let x = sym(t, k); ' if s else '', s + '{ 0 }' if s else '0'))
    for name, pars, args, ret in (('gap', 'k: int, p: int, m: bool', 'k, p, m', 'Gap'), ('lvl', 'k: int, L: int', 'k, L', 'Option<int>'),
                                  ('kid_m', 'k: int, m: bool', 'k, m', 'bool'), ('kid_lv', 'k: int, L: int', 'k, L', 'int')):
        a('#[verifier::opaque] pub open spec fn %s(t: Tree, %s) -> %s { match t.kind {' % (name, pars, ret))
        for r in g.rules:
            a('SyntaxKind::%s => %s_%s(t, %s),' % (r, name, snake(r), args))
        a('SyntaxKind::Error => %s, } }' % {'Gap': 'Gap::No', 'bool': 'false', 'int': '0', 'Option<int>': 'None'}[ret])
    for r in g.rules:
        f = snake(r)
        a('pub proof fn style_%s() ensures forall|t: Tree, k: int, p: int, m: bool| t.kind == SyntaxKind::%s ==> #[trigger] gap(t, k, p, m) == gap_%s(t, k, p, m), '
          'forall|t: Tree, k: int, L: int| t.kind == SyntaxKind::%s ==> #[trigger] lvl(t, k, L) == lvl_%s(t, k, L), '
          'forall|t: Tree, k: int, m: bool| t.kind == SyntaxKind::%s ==> #[trigger] kid_m(t, k, m) == kid_m_%s(t, k, m), '
          'forall|t: Tree, k: int, L: int| t.kind == SyntaxKind::%s ==> #[trigger] kid_lv(t, k, L) == kid_lv_%s(t, k, L) '
          '{ reveal(gap); reveal(lvl); reveal(kid_m); reveal(kid_lv); }' % (f, r, f, r, f, r, f, r, f))
    # last leaves
    last = last_sets(g)
    need, w = set(), list(LAST_FOR)
    while w:
        r = w.pop()
        if r in need:
            continue
        need.add(r)
        n, d, acc = g.tree[r]
        w += [x for (q, (k, x)), t in d.items() if t in acc and k == 'n']
    a('/// the kinds of token that end a construct')
    a('#[verifier::opaque] pub open spec fn last_in(k: SyntaxKind, x: ModelicaToken) -> bool { match k {')
    for r in g.rules:
        if r in need:
            a('SyntaxKind::%s => %s,' % (r, grammar.in_set('x', last[r])))
    a('_ => true } }')
    a('pub proof fn lemma_last(t: Tree, s: Seq<Token>, p: int) requires shape(t, s, p), t.children@.len() > 0 ensures last_in(t.kind, last_leaf(t).kind) decreases t {')
    a('reveal(shape); reveal(last_in); reveal(state); reveal(last_leaf); let n = t.children@.len() as int; assert(state(t, n) == delta(t.kind, state(t, n - 1), sym(t, n - 1)));')
    a('match t.children@[n - 1] { Child::Token(_) => {}, Child::Tree(c) => { lemma_last(c, s, p + off(t, n - 1)); } }')
    a('match t.kind {')
    for r in g.rules:
        if r in need:
            a('SyntaxKind::%s => { rule_%s(); }' % (r, snake(r)))
    a('_ => {} } }')
    return '\n'.join(L)


# --------------------------------------------------------------- contracts

# after these children the separator before the next one is already there
READY = {
    'StoredDefinition': "'Within 'Final", 'ClassDefinition': "'Encapsulated", 'LongClassSpecifier': "'End 'Extends",
    'ShortClassSpecifier': "'Equal BasePrefix", 'DerClassSpecifier': "'Equal", 'EnumList': "'Comma", 'ExternalFunctionCall': "'Equal 'LParen",
    'Element': "'Redeclare 'Final 'Inner 'Outer 'Replaceable", 'ImportClause': "'Import 'Equal 'LCurly", 'ExtendsClause': "'Extends",
    'ConstrainingClause': "'Constrainedby", 'ClassOrInheritanceModification': "'LParen", 'ArgumentOrInheritanceModificationList': "'Comma",
    'InheritanceModification': "'Break", 'ComponentClause': 'TypePrefix', 'ConditionAttribute': "'If", 'ClassModification': "'LParen",
    'ArgumentList': "'Comma", 'ElementModificationOrReplaceable': "'Each 'Final", 'ElementRedeclaration': "'Redeclare 'Each 'Final",
    'ElementReplaceable': "'Replaceable", 'EquationSection': "'Initial", 'AlgorithmSection': "'Initial", 'Statement': 'OutputExpressionList',
    'IfEquation': 'Expression', 'IfStatement': 'Expression', 'ForEquation': 'ForIndices', 'ForStatement': 'ForIndices', 'WhileStatement': 'Expression',
    'WhenEquation': 'Expression', 'WhenStatement': 'Expression', 'ForIndices': "'Comma", 'ForIndex': "'In", 'Expression': 'Expression',
    'SimpleExpression': "'Colon", 'LogicalExpression': "'Or", 'LogicalTerm': "'And", 'LogicalFactor': "'Not", 'Relation': 'RelationalOperator',
    'ArithmeticExpression': 'AddOperator', 'Term': 'MulOperator', 'Factor': "'Flex 'DotFlex", 'Primary': "'Semicolon 'LCurly 'LBracket OutputExpressionList",
    'ResultReference': "'Comma", 'FunctionCallArgs': "'LParen", 'FunctionArguments': "'For", 'ArrayArguments': "'For", 'FunctionPartialApplication': "'LParen",
    'OutputExpressionList': "'Comma", 'ExpressionList': "'Comma", 'ArraySubscripts': "'LBracket 'Comma", 'DescriptionString': "'Plus", 'AnnotationClause': "'Annotation",
}
LAST_USED = {'Composition', 'OutputExpressionList', 'ClassDefinition', 'ClassSpecifier', 'LongClassSpecifier', 'ElementList'}
DEEP = set('ExternalFunctionCall ClassOrInheritanceModification ClassModification EquationSection AlgorithmSection ConnectEquation '
           'FunctionCallArgs ArraySubscripts DescriptionString'.split())
SCAN = {'ShortClassSpecifier': 'Paren', 'DerClassSpecifier': 'Paren', 'ExternalFunctionCall': 'Paren', 'ImportClause': 'Curly', 'FunctionPartialApplication': 'Paren'}
ENUMERATED = {'ClassPrefixes', 'ImportList', 'TypePrefix', 'ConnectEquation', 'ArithmeticExpression', 'Description'}
OWN_FLAG = {'EnumList', 'ImportList', 'ArgumentOrInheritanceModificationList', 'ArgumentList', 'ExpressionList'}
# tokens that must not stand before the construct
NOT_BEFORE = {'Equation': ['End', 'Assign'], 'Statement': ['End', 'Assign'], 'IfEquation': ['End'], 'IfStatement': ['End'], 'ForEquation': ['End'],
              'ForStatement': ['End'], 'WhileStatement': ['End'], 'WhenEquation': ['End'], 'WhenStatement': ['End'],
              'ElementList': ['Semicolon'], 'Composition': ['Semicolon', 'External'], 'DerClassSpecifier': ['Comma'], 'ClassSpecifier': ['Comma']}
READY_PARTS = [('C10', 'order_ok'), ('C12', 'horiz_ok'), ('C13,C18', 'vert_ok'), ('C11', 'level_ok'), ('C09', 'join_ok')]
GOOD = [('C08', 'good8'), ('C09', 'good9'), ('C10', 'good10'), ('C11', 'good11'), ('C12', 'good12'), ('C13,C18', 'good13')]
ALLTAGS = 'C07,C08,C09,C10,C11,C12,C13,C18'
SEPTAGS = 'C07,C09,C10,C11,C12,C13,C18'


def inside(g, r, opens, closes):
    n, d, acc = g.tree[r]
    S = {t for (q, s), t in d.items() if s in opens}
    w = list(S)
    while w:
        q = w.pop()
        for (p, s), t in d.items():
            if p == q and s not in closes and t not in S:
                S.add(t)
                w.append(t)
    return S


def before_states(g, r, s):
    n, d, acc = g.tree[r]
    S = {q for (q, x), t in d.items() if x == s}
    while True:
        T = S | {q for (q, x), t in d.items() if t in S}
        if T == S:
            return S
        S = T


def in_states(k, S):
    return '(' + ' || '.join('state(gt, %s) == %d' % (k, q) for q in sorted(S)) + ')' if S else 'false'


def contracts(g):
    out = []
    w = out.append
    for r in g.rules:
        f = snake(r)
        K = 'SyntaxKind::' + r
        par = ['f', 'tree'] + (['is_multiline'] if r in HAS_M else ['wrapped', 'in_oel'] if r == 'Expression' else ['wrapped'] if r in WRAPPED else [])
        mm = 'is_multiline' if r in HAS_M else 'false'
        LL = 'old(f).lv()' if r in BLOCK else '0'
        w('@fn %s(%s) tags=%s' % (f, ','.join(par), ALLTAGS))
        w('requires: old(f).inv(), tree.kind == %s, shape(tree, source(), old(f).at()), wants(tree, old(f).at(), %s, %s)' % (K, LL, mm))
        if r != 'StoredDefinition':
            w('requires: tree.children@.len() > 0')
        for tg, p in GOOD:
            w('requires[%s]: old(f).%s()' % (tg, p))
        if r == 'StoredDefinition':
            w('requires: old(f).at() == 0, old(f).markers@.len() == 0, want_first(tree), size(tree) == source().len()')
        elif r in SPECIAL:
            w('requires[%s]: fresh(old(f).w())' % SEPTAGS)
            gap = {'Composition': 'wanted(old(f).at()) == (Want { gap: Gap::Req, lv: Some((old(f).lv() + comp_deeper(tree)) as int) })',
                   'ComponentList': 'wanted(old(f).at()) == (Want { gap: wrap(multi(tree) && tree.children@.len() > 1), lv: None })',
                   'Modification': 'wanted(old(f).at()) == (Want { gap: mod_gap(tree), lv: None })',
                   'OutputExpressionList': 'wanted(old(f).at()) == (Want { gap: oel_gap(tree), lv: None }), old(f).prev_tok == ModelicaToken::LParen'}[r]
            w('requires: %s, old(f).at() > 0' % gap)
        else:
            for tg, p in READY_PARTS:
                w('requires[%s]: %s(old(f).w())' % (tg, p))
        for k in NOT_BEFORE.get(r, []):
            w('requires: old(f).prev_tok != ModelicaToken::%s' % k)
        if r == 'Expression':
            w('requires: in_oel || !wrapped')
        w('ensures: final(f).inv(), final(f).at() == old(f).at() + size(tree)')
        if r == 'StoredDefinition':
            w('ensures: final(f).at() == 0 ==> final(f).markers@.len() == 0')
        if r == 'OutputExpressionList':
            w('ensures[%s]: if ends_comma(tree) { spaced(final(f).w()) } else { fresh(final(f).w()) }' % SEPTAGS)
        else:
            w('ensures[%s]: fresh(final(f).w())' % SEPTAGS)
        if r == 'Expression':
            w('ensures[C11]: final(f).lv() == old(f).lv() + if in_oel && r && !wrapped { 1int } else { 0int }, wrapped ==> r')
        elif r in WRAPPED:
            w('ensures[C11]: final(f).lv() == old(f).lv() + if r && !wrapped { 1int } else { 0int }, wrapped ==> r')
        else:
            w('ensures[C11]: final(f).lv() == old(f).lv()')
        for tg, p in GOOD:
            w('ensures[%s]: final(f).%s()' % (tg, p))
        w('attr: #[verifier::rlimit(60)]')
        w('decreases: tree')
        e = 'let ghost gt = tree; let ghost gp = f.at(); let ghost gl = f.lv(); let ghost gL = %s; let ghost gm = %s;' % (
            'f.lv()' if r in BLOCK else '0int', mm)
        if r in WRAPPED:
            e += ' let ghost gw = wrapped;'
        w('entry: broadcast use lemma_weave; %s proof { rule_%s(); style_%s(); lemma_node(gt, gp);%s }' % (e, f, f, ' reveal(last_in);' if r in LAST_USED else ''))
        main = 0
        lv = ['gl']
        if r in SCAN:
            b = SCAN[r]
            o, c = 'ModelicaToken::L' + b, 'ModelicaToken::R' + b
            w('loop 0')
            w('invariant: $all == refs(gt.children@), is_multiline == scan(gt, %s, %s, $it.done()).1 && scan(gt, %s, %s, $it.done()).0 == token.start.line' % (o, c, o, c))
            ll = 'lentry: proof { lemma_kid(gt, gp, gL, gm, $it.done() - 1); assert(*$x == gt.children@[$it.done() - 1]); }'
            w(ll)
            w('loop 1')
            w('invariant: $all == refs(gt.children@), is_multiline == scan(gt, %s, %s, $it.done()).1, (scan(gt, %s, %s, $it.done()).0 < 0) || !$it.more()' % (o, c, o, c))
            w(ll)
            main = 2
        # the level at the head of the loop
        if r in DEEP:
            lv.append('1')
        if r == 'DerClassSpecifier':
            lv.append('if %s { 1int } else { 0int }' % in_states('$it.done()', inside(g, r, [('t', 'LParen')], [('t', 'RParen')])))
        if r == 'ImportClause':
            lv.append('if is_multiline && %s { 1int } else { 0int }' % in_states('$it.done()', inside(g, r, [('t', 'LCurly')], [('t', 'RCurly')])))
        if r == 'Primary':
            lv.append('if %s { 1int } else { 0int }' % in_states('$it.done()', inside(g, r, [('t', 'LCurly'), ('t', 'LBracket')], [('t', 'RCurly'), ('t', 'RBracket')])))
        if r == 'ComponentList':
            lv.append('if multi(gt) && gt.children@.len() > 1 { 1int } else { 0int }')
        if r == 'Expression':
            lv.append('if conditional { 1int } else { 0int }')
        if r in WRAPPED:
            lv.append('if wrapped && !gw { 1int } else { 0int }')
        w('loop %d' % main)
        w('invariant: $all == %s, f.inv(), f.at() == gp + off(gt, $it.done())' % ('enumerated(gt.children@)' if r in ENUMERATED else 'gt.children@'))
        ys = READY.get(r, '').split()
        y = among('sym(gt, $it.done() - 1)', ys) if ys else 'false'
        first = '$it.done() > 0'
        pend = '$it.more() && (%s)' % ' || '.join(
            ([] if r in SPECIAL or r == 'StoredDefinition' else ['$it.done() == 0']) + (['($it.done() > 0 && %s)' % y] if ys else []) + (['false'] if not ys else []))
        if r == 'OutputExpressionList':
            w('invariant[%s]: if $it.done() > 0 && %s { spaced(f.w()) } else { fresh(f.w()) }' % (SEPTAGS, y))
        else:
            for tg, p in READY_PARTS:
                w('invariant[%s]: (%s) ==> %s(f.w())' % (tg, pend, p))
            w('invariant[%s]: !(%s) ==> fresh(f.w())' % (SEPTAGS, pend))
        w('invariant[C11]: f.lv() == %s' % ' + '.join('(%s)' % x for x in lv))
        for tg, p in GOOD:
            w('invariant[%s]: f.%s()' % (tg, p))
        if r in WRAPPED:
            w('invariant: gw ==> wrapped')
        if r in OWN_FLAG:
            w('invariant: is_multiline == (gm || multi(gt))')
        if r == 'ShortClassSpecifier':
            w('invariant: %s ==> is_multiline == %s' % (in_states('$it.done()', before_states(g, r, ('n', 'EnumList'))), PAREN.replace('t,', 'gt,', 1)))
        if r == 'Expression':
            w('invariant: conditional == ($it.done() > 0 && (sym(gt, $it.done() - 1) == Sym::T(ModelicaToken::Then) || sym(gt, $it.done() - 1) == Sym::T(ModelicaToken::Else)))')
            w('invariant: %s ==> wrapped == gw' % in_states('$it.done()', set(range(g.tree[r][0])) - {t for (q, s), t in g.tree[r][1].items() if s == ('n', 'SimpleExpression')}))
        if r == 'ConnectEquation':
            w('invariant: state(gt, $it.done()) == $it.done()')
        if r == 'Composition':
            w('invariant: $it.done() == 0 ==> prev_rule == SyntaxKind::Error, $it.done() > 0 ==> '
              'match sym(gt, $it.done() - 1) { Sym::N(x) => prev_rule == x, Sym::T(x) => x == ModelicaToken::Semicolon || x == ModelicaToken::External '
              '|| !(prev_rule == SyntaxKind::LanguageSpecification || prev_rule == SyntaxKind::ExternalFunctionCall) }')
        for k in NOT_BEFORE.get(r, []):
            w('invariant: $it.done() == 0 ==> f.prev_tok != ModelicaToken::%s' % k)
        if r == 'OutputExpressionList':
            w('invariant: $it.done() == 0 ==> f.prev_tok == ModelicaToken::LParen')
        if r == 'StoredDefinition':
            w('invariant: $it.done() == 0 ==> f.markers@.len() == 0')
            w('lentry: proof { lemma_kid(gt, gp, gL, gm, $it.done() - 1); lemma_token(gp + off(gt, $it.done() - 1)); }')
        w('lentry: let ghost gk = $it.done() - 1; proof { lemma_kid(gt, gp, gL, gm, gk); if gk > 0 { lemma_kid(gt, gp, gL, gm, gk - 1); } '
          'if gk + 1 < gt.children@.len() { lemma_kid(gt, gp, gL, gm, gk + 1); } if gk + 2 < gt.children@.len() { lemma_kid(gt, gp, gL, gm, gk + 2); } }')
        w('lafter: proof { lemma_node(gt, gp); if gt.children@.len() > 0 { lemma_kid(gt, gp, gL, gm, gt.children@.len() - 1); } }')
        w('')
    return '\n'.join(out)
