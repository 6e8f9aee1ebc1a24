import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
LX='src/parser/lexing.rs';PA='src/parser/parsing.rs';TR='src/parser/tree.rs';FM='src/formatter/formatting.rs';PR='src/formatter/printing.rs';CLI='src/main.rs';PP='src/parser.rs';LIB='src/lib.rs'
p('C01','Every source character belongs to exactly one token, comment, gap or error',
 'Reading a source splits it, in order and without gaps or overlaps, into tokens, comments, runs of whitespace, and spans reported as lexical errors: the text of each token and comment is exactly the characters of its span, and nothing else of the source is dropped or copied. Tokens and comments share one numbering that counts up by one in source order, so their relative order can always be recovered.',
 ['inputs'],'every Unicode text as a source','Four lexer tests sample a few lines of ASCII; multi-byte characters, adjacent errors and ends of file are not reached.',
 [LX],[('start/current positions and slicing of the source when a token is generated',LX+': generate_token, next, jump'),('running token count',LX+': count')],['tokens and comments returned by parse()'])
p('C02','Tokens are classified by the Modelica lexical rules, longest match first',
 'Every token has the class that the Modelica lexical rules give to its text, and always takes the longest text those rules allow at that point: reserved words are keywords and any other name is an identifier, two-character operators win over one-character ones, numerals take their fraction and exponent, strings and quoted identifiers end at the first unescaped quote, line comments end before the line end, block comments end at the first closing mark after the opening one. A character that starts no token, and a string, quoted identifier or block comment that is not closed, is reported as an error.',
 ['inputs'],'every Unicode text as a source','Tests look at the classes of a handful of tokens; most keywords, operators and all boundary cases (end of file inside a token, escapes, overlapping comment marks) are never lexed.',
 [LX,'src/parser/tokens.rs'],[('dispatch on the first character and one-character lookahead',LX+': lex_source and the lex_* procedures'),('keyword table',LX+': lex_nondigit')],['token kinds and errors returned by parse()'])
p('C03','Positions of tokens, comments and errors are exact',
 'Each token and comment carries the line, the column (both counted in characters from 1, a line ending at its line feed, or at a carriage return that no line feed follows) and the byte offset of its first character and of the position right after its last one. Every error message has the form `file:line:column: text`, with the position of the start of the offending lexical span, or of the token at which parsing failed (the last token when the source ended too early, 1:1 when it has no tokens).',
 ['inputs'],'every Unicode text as a source, every syntactically wrong token sequence','One test checks five line or column numbers and one error message; the formatter derives all line-wrapping decisions from these numbers.',
 [LX,PA],[('line and column counting',LX+': next'),('error location lookup',PA+': error')],['token positions and errors returned by parse()'])
p('C04','Code is accepted exactly when it follows the Modelica grammar',
 'No error is reported for a source whose tokens form a valid stored definition of the Modelica 3.7 grammar (with the simplifications made in the code: any simple expression may stand as an equation, an equation does not begin with `end` nor, directly in an equation section, with `initial`, and `:=` is accepted in modifications), and at least one error is reported for any other token sequence. This holds regardless of the length of lists or the depth of nesting.',
 ['inputs','programs'],'every finite sequence of tokens, of any length and nesting depth','The tests parse about thirty short fragments and one file; the grammar has about 85 rules with unbounded repetition and nesting, and wrong code is tried twice.',
 [PA],[('one recursive-descent procedure per grammar rule',PA),('one- to three-token lookahead',PA+': check, check_any, nth')],['errors returned by parse()'])
p('C05','The parse tree is a faithful derivation of the source',
 'For a source accepted without errors, the leaves of the syntax tree are all of its tokens, each exactly once and in source order. Every node is labelled with a grammar rule, its children form a valid right-hand side of that rule, and optional parts that are absent leave no empty node below the root.',
 ['inputs','programs'],'every accepted token sequence','Two tests look at the number of children of two small trees; the formatter dispatches on node labels and panics when they are not what the rule allows.',
 [PA,TR,'src/parser/events.rs'],[('enter/advance/exit event protocol',PA+': enter, advance, exit'),('folding of events into nodes',TR+': build_tree')],['tree returned by build_tree(parse(..))'])
p('C06','Reading and parsing end normally on any input text',
 'For any text, valid Modelica or not, empty or truncated at any point, reading and parsing end with a result: a list of tokens, comments and errors, and never with a panic, an out-of-range access or an endless loop. (Nesting is assumed to fit the call stack.)',
 ['inputs'],'every Unicode text as a source','Tests run the parser on a few dozen valid or nearly valid fragments; truncation and garbage at every point of 85 rules is out of their reach.',
 [LX,PA,PP],[('lookahead budget that stops a stuck parser',PA+': nth, eof, lifes'),('error recovery by skipping a token',PA+': advance_with_error')],['return of parse()'])
p('C07','Any accepted source can be formatted',
 'Formatting a source that was accepted without errors always ends and yields text; it never panics, whatever the layout of the source: line breaks and comments between any two tokens, empty lists, sections and files.',
 ['inputs','programs'],'every accepted source, in every layout','One sample file and one expression are formatted in tests; the formatter has about 85 procedures full of unreachable!(), unwrap() and unsigned subtraction.',
 [FM,TR,PR,LIB],[('dispatch on node labels with unreachable!() as default',FM),('line arithmetic for blank lines',FM+': handle_break')],['return of pretty_print()'])
p('C08','Formatting keeps every token, in order and unchanged',
 'The tokens of the formatted text are those of the source: all of them, in the same order, with unchanged text, and nothing is added. Formatting therefore never changes the meaning of the code.',
 ['inputs','programs'],'every accepted source, in every layout','A single input/output pair is compared; a token lost or swapped in a construct or layout that the pair does not contain goes unnoticed.',
 [FM,PR,TR],[('every leaf is passed on once',FM+': handle_token and the per-rule procedures')],['text returned by pretty_print()'])
p('C09','Formatted tokens never run into each other',
 'Between any two neighbouring tokens or comments of the output there is whitespace unless the two can be written together without being read as something else. A line comment is always followed by a line break or by the end of the text, so that reading the output again gives back the same tokens and comments.',
 ['inputs','programs'],'every accepted source, in every layout','Depends on pairs of neighbours across rule boundaries (several hundred), of which the sample contains a fraction.',
 [FM,PR],[('separators inserted by the per-rule procedures',FM),('break after comments',FM+': handle_break')],['text returned by pretty_print(), read again by parse()'])
p('C10','Comments are kept, in order, wherever the layout has a line break',
 'No comment is ever invented, altered, duplicated or moved past a token or another comment. Every comment that stands at a place where the formatted code has a line break, before the first token of the file, or after its last one, appears in the output; only a comment between two tokens that the style keeps on one line may be left out.',
 ['inputs','programs'],'every accepted source with comments between any two tokens','The sample has a few comments in the usual places.',
 [FM],[('comment queue drained by token number',FM+': comments_before, handle_break, handle_token, remaining_comments')],['text returned by pretty_print()'])
p('C11','Indentation is balanced',
 'Formatting of every construct leaves the indentation level exactly as it found it, so the code after any construct is never shifted by it; the level never drops below zero and a file ends at level zero. The opening and closing keywords of a block (class ... end, if ... end if, for ... end for, while ... end while, when ... end when) are at the same level, with the elements, equations or statements of the block one level deeper.',
 ['inputs','programs'],'every accepted source, in every layout, at every nesting depth','Only a few of the wrapped and nested layouts occur in the sample; imbalance shows only in code following a particular wrapped construct.',
 [FM,PR],[('paired Indent and Dedent markers',FM),('wrapped flag passed through expressions',FM+': expression ... primary'),('level counter',PR)],['text returned by pretty_print()'])
p('C12','Horizontal spacing follows the code style everywhere',
 'Two neighbouring tokens on one output line are separated by a single space or by nothing, and which one is a function of the construct only, as the code style states: binary operators, `=` and `:=` have a space on both sides, `not` a space after it, unary signs none, commas and semicolons inside lists a space after and none before (except around discarded outputs and in `within ;`), and no space follows an opening or precedes a closing bracket or surrounds a dot in a name. Keywords are separated from what surrounds them by a single space.',
 ['inputs','programs'],'every accepted source','The sample covers part of the constructs.',
 [FM,'code-style.md'],[('Space markers in the per-rule procedures',FM)],['text returned by pretty_print()'])
p('C13','Mandatory line breaks and blank lines are always there, and no others',
 'Each class definition, element, equation and statement, each description string, annotation and constraining clause in a declaration, and each `end`, `else`, `elseif` and `elsewhen` of a block starts on its own line. The sections of a class (`public`, `protected`, `equation`, `algorithm`, `external`, the class annotation and the final `end`) are preceded, and section contents begin, with exactly one blank line; elsewhere a blank line appears only where the source has one or more between two classes, elements, equations, statements or before a comment, and there are never two blank lines in a row.',
 ['inputs','programs'],'every accepted source, in every layout','Blank lines depend on source line numbers of tokens and comments, so on layouts, of which the sample has one per construct.',
 [FM,'code-style.md'],[('required, legal and illegal blanks',FM+': handle_break')],['text returned by pretty_print()'])
p('C14','Layout decisions are rendered exactly',
 'The output is the concatenation of the text of tokens and comments with single spaces, line ends and blank lines exactly where the layout puts them. After every line end the line begins with two spaces per indentation level, and no other character is ever added.',
 ['inputs'],'every sequence of layout decisions with a non-negative indentation level','Only whole files are compared.',
 [PR,'src/formatter/markers.rs'],[('marker interpreter',PR+': print_marker')],['text returned by pretty_print()'])
p('C15','Files are only ever overwritten with their formatted version',
 'In check mode no file is ever written. Otherwise a file is written only if it is one of the selected Modelica files, could be read, and was parsed without errors, and what is written is its formatted text with one line end added; a file with errors is left untouched. The exit code is zero exactly when no selected file had an error and, in check mode, all of them already equal their formatted version.',
 ['inputs','configurations','fault_sequences'],'every command line, every set of files and their contents, every outcome of reading a file','No test runs the command-line tool at all.',
 [CLI],[('per-file loop with accumulated exit code',CLI+': format_files'),('extension check before reading',CLI+': read_file')],['files on disk, exit code and messages of the mofmt binary'])
p('C16','Exactly the Modelica files under the given paths are processed',
 'For a directory argument, all files with the extension `mo` in it and in its subdirectories at any depth are processed, each once, and no other file. A file argument is processed itself and is rejected with an error if its extension is not `mo`; the arguments are processed in the order given.',
 ['inputs','configurations'],'every directory tree without symbolic links and every list of path arguments','No test runs the command-line tool at all.',
 [CLI],[('recursive directory walk',CLI+': get_files_from_dir, is_modelica')],['files touched and messages of the mofmt binary'])
p('C17','Formatting is idempotent',
 'Formatting a text that is itself the output of formatting gives the same text again. Check mode therefore always passes on files that were just formatted.',
 ['inputs','programs'],'every accepted source, in every layout','One input/output pair; the output is never formatted again.',
 [FM,LX,PA],[('wrapping decisions derived from source lines',FM)],['pretty_print() applied twice'])
p('C18','Wrapping is consistent within a construct',
 'In a call, array, array comprehension, matrix, subscript list, modification, import list or enumeration that spans several lines in the source, every item starts on its own line, and so it does in the constructs around it; in one that stands on a single line of the source (and contains no description) none does. An expression is broken before a binary operator exactly where the source has a line break next to that operator.',
 ['inputs','programs'],'every accepted source, in every layout','Depends on the source lines of all tokens of nested constructs; the sample has a few.',
 [FM,TR],[('multi-line test on the node passed down to its list',FM+': is_multiline parameters'),('span of a node',TR+': start, end, is_multiline')],['text returned by pretty_print()'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['title'],len(x['title']))
