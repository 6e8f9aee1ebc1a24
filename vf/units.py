"""The verification units, and which property is decided by which."""
import os
import re
import vc
import grammar
import parser_gen
import format_gen
import touch
from vc import ROOT, Lost

C = os.path.join(ROOT, 'contracts')


def rd(n):
    return open(os.path.join(C, n)).read()


def vcs(*names):
    def f():
        out = {}
        for n in names:
            out.update(vc.parse_contracts(rd(n)))
        return out
    return f


ALL = lambda q: True
NONE = lambda q: False

UNITS = {
    'printing': dict(files=['formatter/markers.rs', 'formatter/printing.rs'], prelude=lambda: rd('printing.rs'),
                     contracts=vcs('printing.vc'), verify=ALL, external=NONE, safety=['C14', 'C07']),
}

UNITS['lexer'] = dict(files=['parser/tokens.rs', 'parser/lexing.rs'], prelude=lambda: rd('common.rs') + rd('lexer.rs') + rd('read.rs') + rd('relex.rs'), contracts=vcs('lexer.vc'),
                      verify=ALL, external=NONE, safety=['C01', 'C02', 'C03', 'C06'])



TOKSET = re.compile(r'const\s+(\w+)\s*:\s*\[\s*ModelicaToken\s*;[^\]]*\]\s*=\s*\[([^\]]*)\]')


def tokset_lemma(text):
    """membership in a constant array of tokens, spelled out (proved from the constant)"""
    m = TOKSET.search(text)
    if not m:
        return ''
    ks = [k.replace(' ', '').strip() for k in m.group(2).replace('\n', ' ').split(',') if k.strip()]
    return ('pub broadcast proof fn lemma_in_%s(k: ModelicaToken) ensures #[trigger] any_of(%s@, k) == (%s) { reveal(any_of); %s }'
            % (m.group(1), m.group(1), ' || '.join('k == ' + k for k in ks) or 'false',
               ' '.join('assert(%s@[%d] == %s);' % (m.group(1), i, k) for i, k in enumerate(ks))))


def tokset_entry(it):
    if it['kind'] != 'fn' or 'check_any' not in it['body']:
        return ''
    names = set(re.findall(r'check_any\s*\(\s*&\s*([A-Z_]+)\s*\)', it['body']))
    lit = re.search(r'check_any\s*\((?!\s*&\s*[A-Z_]+\s*\))', it['body'])
    out = ''.join('broadcast use lemma_in_%s; ' % n for n in sorted(names) if n in known_sets)
    return out + ('proof { reveal(any_of); }\n' if lit or names - known_sets else '\n')


known_sets = set()


def const_hook(text):
    t = tokset_lemma(text)
    if t:
        known_sets.add(TOKSET.search(text).group(1))
    return t


def parser_contracts():
    out = vc.parse_contracts(rd('parser.vc'))
    out.update(vc.parse_contracts(parser_gen.contracts()))
    return out


UNITS['parser'] = dict(files=['parser/tokens.rs', 'parser/syntax.rs', 'parser/events.rs', 'parser/parsing.rs'],
                       prelude=lambda: rd('common.rs') + grammar.spec_text(grammar.load()) + parser_gen.prelude() + rd('events.rs') + rd('parser.rs'),
                       contracts=parser_contracts, verify=ALL, external=NONE, safety=['C06'], timeout=600, const_hook=const_hook, entry_hook=tokset_entry,
                       shards=(parser_gen.HEAVY, 8))

UNITS['tree'] = dict(files=['parser/tokens.rs', 'parser/syntax.rs', 'parser/events.rs', 'parser/tree.rs'],
                     prelude=lambda: rd('common.rs') + grammar.spec_text(grammar.load(), predict=False) + rd('tree.rs') + rd('events.rs') + rd('build.rs'),
                     contracts=vcs('tree.vc'), verify=ALL, external=NONE, safety=['C05', 'C07'])

def format_contracts():
    out = vc.parse_contracts(rd('tree.vc'))
    out.update(vc.parse_contracts(rd('format.vc')))
    out.update(vc.parse_contracts(format_gen.contracts(grammar.load())))
    return out


UNITS['format'] = dict(files=['parser/tokens.rs', 'parser/syntax.rs', 'parser/tree.rs', 'formatter/markers.rs', 'formatter/formatting.rs'],
                       prelude=lambda: rd('common.rs') + grammar.spec_text(grammar.load(), predict=False) + rd('tree.rs') + format_gen.spec_text(grammar.load()) + rd('format.rs'),
                       contracts=format_contracts, verify=lambda q: not q.startswith('Tree::') and q != 'build_tree', external=lambda q: q.startswith('Tree::'),
                       safety=['C07'], timeout=700, shards=([], 8))

UNITS['cli'] = dict(files=['parser/syntax.rs', 'main.rs'], prelude=lambda: rd('cli.rs'), contracts=vcs('cli.vc'), verify=ALL, external=NONE, safety=['C15', 'C16'])

# the stages together: `parse` and `pretty_print` over the contracts of the other units
STAGES = {'lex', 'events', 'build_tree', 'format', 'print'}
WHOLE = {'parse', 'pretty_print'}


def whole_items(items):
    out = []
    for it in items:
        if it['kind'] == 'fn':
            if it['owner'] or it['name'] not in STAGES | WHOLE:
                continue
            if it['name'] in STAGES:
                it = dict(it, body='{\nunimplemented!()\n}', map=[it['line']] * 3, loops=0, consts=[], unsupported=[])
        elif it['kind'] in ('const', 'type'):
            continue
        out.append(it)
    return out


def whole_contracts():
    out = {}
    for n in ('lexer', 'parser', 'tree', 'format', 'printing'):
        out.update({q: c for q, c in UNITS[n]['contracts']().items() if q in STAGES})
    for q in STAGES:
        c = out[q]
        c.entry, c.attrs, c.loops, c.hints, c.nloops, c.decreases = [], [], {}, [], None, []
    # a function without state: its result is determined by its arguments
    out['build_tree'].ensures.append(vc.Clause('ensures', 'r == built(tokens@, events@)', out['build_tree'].tags))
    out.update(vc.parse_contracts(rd('whole.vc')))
    return out


_keep = set()


def keep():
    """all functions with a contract in some unit"""
    if not _keep:
        for u in UNITS.values():
            _keep.update(u['contracts']())
    return _keep


def mod(name, text):
    return 'pub mod %s { use super::*;\n%s\n}\npub use %s::*;\n' % (name, text, name)


def whole_prelude():
    g = grammar.load()
    return (mod('p_common', rd('common.rs')) + mod('p_grammar', grammar.spec_text(g)) + mod('p_lexer', rd('lexer.rs') + rd('read.rs') + rd('relex.rs')) + mod('p_events', parser_gen.prelude() + rd('events.rs') + rd('parser.rs') + rd('tree.rs') + rd('build.rs'))
            + mod('p_format', format_gen.spec_text(g) + rd('format.rs')) + mod('p_print', rd('printing.rs')) + rd('whole.rs') + touch.spec_text(g) + rd('touch.rs') + rd('reread.rs'))


UNITS['whole'] = dict(files=['parser/tokens.rs', 'parser/syntax.rs', 'parser/events.rs', 'parser/lexing.rs', 'parser/parsing.rs', 'parser/tree.rs', 'formatter/markers.rs',
                             'formatter/formatting.rs', 'formatter/printing.rs', 'parser.rs', 'lib.rs'],
                      transform=whole_items, prelude=whole_prelude, contracts=whole_contracts, verify=lambda q: q in WHOLE, external=lambda q: q in STAGES,
                      safety=['C06', 'C07'], args=['--verify-root'])

CLI_RULE = 'the program run on random directory trees and arguments (scratch directory, unprivileged user); non-trivial: the arguments select a file; distinct by tree and arguments'
CLI_ASSUME = ['directories are finite trees and are not rearranged by others during the run', 'the text of messages is not modelled',
              'parse and pretty_print are functions of the text (their own contracts are C04 to C14)', 'reading and writing a file act on that file only']

PROPS = {
    'C01': dict(units=['lexer', 'whole'], explanation='the lexer against a recursive specification of the elements of a text: spans, texts and numbering'),
    'C02': dict(units=['lexer', 'whole'], explanation='the lexer against a recursive specification of the elements of a text: classes and longest match'),
    'C03': dict(units=['lexer', 'parser', 'whole'], explanation='the lexer: positions of tokens, comments and error messages; the parser: every message is located at a token'),
    'C04': dict(units=['parser', 'whole'], explanation='every parser procedure against a predictive recognizer of its rule: a token sequence the recognizer accepts is parsed without an error (and the look-ahead budget never runs out)'),
    'C05': dict(units=['parser', 'tree', 'whole'], explanation='every parser procedure: the events it emits describe one node of its kind whose children spell a right-hand side of the rule'),
    'C06': dict(units=['lexer', 'parser', 'whole'], explanation='no function of the lexer and the parser panics, overflows or runs forever, on any input'),
    'C07': dict(units=['tree', 'format', 'printing', 'whole'], explanation='no function of the formatter, the tree or the printer panics, overflows or runs forever on a derivation, whatever its layout and comments'),
    'C08': dict(units=['tree', 'format', 'whole'], explanation='every formatting function: the word markers it pushes are the tokens of its construct, in order, and comments; end to end: lexing the printed text gives back the tokens of the source (theorem_reread)'),
    'C09': dict(units=['format', 'whole'], explanation='every formatting function: a line comment is followed by a break, and what stands without a gap may (touch table); end to end: the printed text, read by the specification that lex is proved against, is exactly the tokens of the source and the written comments, without an error (theorem_reread)'),
    'C10': dict(units=['format', 'whole'], explanation='every formatting function: comments are written in order, and none is passed where the layout has a break, at the beginning or at the end'),
    'C11': dict(units=['format', 'whole'], explanation='every formatting function: the indentation level is restored, never negative, and each block element starts at the level its construct asks for'),
    'C12': dict(units=['format', 'whole'], explanation='every formatting function against the style table: space or nothing between neighbours'),
    'C13': dict(units=['tree', 'format', 'whole'], explanation='every formatting function against the style table: breaks and blank lines, and nowhere else'),
    'C18': dict(units=['tree', 'format', 'whole'], explanation='every formatting function against the style table: wrapping decisions of each construct'),
    'C15': dict(units=['cli'], rule=CLI_RULE, assumptions=CLI_ASSUME, explanation='the command line driver over specified file operations: a file is only written right after it was read and accepted, with its formatted text; exit code'),
    'C16': dict(units=['cli'], rule=CLI_RULE, assumptions=CLI_ASSUME, explanation='the command line driver over specified file operations: the files read are exactly the selected Modelica files, in order'),
    'C14': dict(units=['printing', 'whole'], explanation='print() against a recursive specification of the rendering of a marker list'),
}
RULE = ('random sentences of the grammar with random layout and comments (mutated for the parser and lexer properties); '
        'non-trivial: the property\'s hypothesis holds for the input and it is not empty; distinct by text')
NOTE = ('every obligation of the contracts listed in the evidence is discharged by Verus for all inputs on each run; '
        'trusted: the extraction rewrites, the std contracts listed in the evidence (trusted_base), stack depth')
NOT_APPLICABLE = {
    'C17': 'idempotence relates two runs of the whole pipeline (lexer, parser, tree, formatter, printer) on different inputs; '
           'it is not a postcondition of one function, and the layout of the first output would have to be carried through the parser as ghost state; '
           'besides, the code does not have it: `model a Real x "d", y; end a;` is formatted differently a second time (recorded in known-findings.txt)',
}
ASSUMPTIONS = [
    'machine integers are 64 bit; the verifier checks their overflow',
    'the extraction (DESIGN.md) preserves the meaning of the functions',
    'std functions behave as the contracts in contracts/base.rs state',
    'recursion depth fits the stack, allocation succeeds',
]


def level(prop):
    return 'proof'


def generate(g, name, u, items, contracts, given_up, dropped):
    g.add(rd('base.rs'))
    g.const_hook, g.entry_hook = u.get('const_hook'), u.get('entry_hook')
    cs = {q: c for q, c in contracts.items() if q not in dropped}
    vc.emit_items(g, items, cs, lambda q: u['verify'](q) and q not in given_up,
                  lambda q: u['external'](q) or q in given_up, shards=u.get('shards'))
    g.add(u['prelude']())
    g.add('}\nfn main() {}')


def generate_probes(g, name, u, items, contracts, given_up, dropped):
    g.add(rd('base.rs'))
    cs = {q: c for q, c in contracts.items() if q not in dropped}
    vc.emit_items(g, items, cs, NONE, lambda q: u['verify'](q) or u['external'](q))
    g.add(u['prelude']())
    g.add('pub mod probes { use super::*;')
    n = vc.emit_probes(g, items, cs, lambda q: u['verify'](q) and q not in given_up)
    g.add('}\n}\nfn main() {}')
    return n
