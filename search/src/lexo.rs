//! Independent reading of a source text, straight from the lexical rules.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pos { pub pos: usize, pub line: usize, pub col: usize }
#[derive(Clone, Debug)]
pub struct Item { pub kind: &'static str, pub text: String, pub start: Pos, pub end: Pos, pub idx: usize }
#[derive(Debug, Default)]
pub struct Lexed { pub tokens: Vec<Item>, pub comments: Vec<Item>, pub errors: Vec<(usize, usize)> }

pub const KEYWORDS: &[(&str, &str)] = &[
    ("not", "Not"), ("and", "And"), ("or", "Or"), ("in", "In"), ("for", "For"), ("if", "If"),
    ("else", "Else"), ("elseif", "ElseIf"), ("then", "Then"), ("when", "When"),
    ("elsewhen", "ElseWhen"), ("while", "While"), ("loop", "Loop"), ("break", "Break"),
    ("return", "Return"), ("partial", "Partial"), ("class", "Class"), ("operator", "Operator"),
    ("expandable", "Expandable"), ("model", "Model"), ("function", "Function"),
    ("record", "Record"), ("type", "Type"), ("block", "Block"), ("connector", "Connector"),
    ("package", "Package"), ("pure", "Pure"), ("impure", "Impure"), ("end", "End"),
    ("der", "Der"), ("connect", "Connect"), ("initial", "Initial"), ("equation", "Equation"),
    ("algorithm", "Algorithm"), ("extends", "Extends"), ("import", "Import"),
    ("public", "Public"), ("protected", "Protected"), ("within", "Within"), ("final", "Final"),
    ("encapsulated", "Encapsulated"), ("enumeration", "Enumeration"), ("input", "Input"),
    ("output", "Output"), ("redeclare", "Redeclare"), ("inner", "Inner"), ("outer", "Outer"),
    ("replaceable", "Replaceable"), ("constrainedby", "Constrainedby"), ("flow", "Flow"),
    ("stream", "Stream"), ("discrete", "Discrete"), ("parameter", "Parameter"),
    ("constant", "Constant"), ("each", "Each"), ("annotation", "Annotation"),
    ("external", "External"), ("true", "Bool"), ("false", "Bool"),
];
pub const SYMBOLS: &[(&str, &str)] = &[
    // longest first
    (":=", "Assign"), ("==", "Eq"), ("<>", "Neq"), ("<=", "Leq"), (">=", "Geq"),
    (".+", "DotPlus"), (".-", "DotMinus"), (".*", "DotStar"), ("./", "DotSlash"), (".^", "DotFlex"),
    (",", "Comma"), (".", "Dot"), (";", "Semicolon"), (":", "Colon"), ("(", "LParen"),
    (")", "RParen"), ("{", "LCurly"), ("}", "RCurly"), ("[", "LBracket"), ("]", "RBracket"),
    ("=", "Equal"), ("+", "Plus"), ("-", "Minus"), ("*", "Star"), ("/", "Slash"), ("^", "Flex"),
    (">", "Gre"), ("<", "Les"),
];
fn ws(c: char) -> bool { matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c') }
fn digit(c: char) -> bool { ('0'..='9').contains(&c) }
fn alpha(c: char) -> bool { ('a'..='z').contains(&c) || ('A'..='Z').contains(&c) || c == '_' }

pub fn lex(src: &str) -> Lexed {
    let s: Vec<char> = src.chars().collect();
    let n = s.len();
    let mut at = Vec::with_capacity(n + 1);
    let (mut pos, mut line, mut col) = (0, 1, 1);
    for (k, &c) in s.iter().enumerate() {
        at.push(Pos { pos, line, col });
        pos += c.len_utf8();
        col += 1;
        if c == '\n' || c == '\r' && s.get(k + 1) != Some(&'\n') { line += 1; col = 1 }
    }
    at.push(Pos { pos, line, col });
    let is = |i: usize, c: char| i < n && s[i] == c;
    let mut out = Lexed::default();
    let mut count = 0;
    let mut i = 0;
    while i < n {
        let c = s[i];
        if ws(c) { i += 1; continue }
        let mut kind = "";
        let mut j = i;
        if c == '"' {
            j += 1;
            while j < n && s[j] != '"' { j += if s[j] == '\\' { 2 } else { 1 } }
            if j < n { j += 1; kind = "String" } else { j = n }
        } else if c == '\'' {
            j += 1;
            loop {
                if j >= n { j = n; break }
                if s[j] == '\\' { j += 2; continue }
                if s[j] == '\'' { j += 1; kind = "Identifier"; break }
                if !(alpha(s[j]) || digit(s[j]) || "!#$%&()*+,-./:;<>=?@[]^{}|~ \"".contains(s[j])) { j += 1; break }
                j += 1;
            }
        } else if c == '/' && is(i + 1, '/') {
            while j < n && s[j] != '\n' && s[j] != '\r' { j += 1 }
            kind = "LineComment";
        } else if c == '/' && is(i + 1, '*') {
            j += 2;
            while j < n && !(s[j] == '*' && is(j + 1, '/')) { j += 1 }
            if j < n { j += 2; kind = "BlockComment" } else { j = n }
        } else if digit(c) {
            kind = "UInt";
            while j < n && digit(s[j]) { j += 1 }
            if is(j, '.') { kind = "UReal"; j += 1; while j < n && digit(s[j]) { j += 1 } }
            if is(j, 'e') || is(j, 'E') {
                kind = "UReal"; j += 1;
                if is(j, '+') || is(j, '-') { j += 1 }
                while j < n && digit(s[j]) { j += 1 }
            }
        } else if alpha(c) {
            while j < n && (alpha(s[j]) || digit(s[j])) { j += 1 }
            let w: String = s[i..j].iter().collect();
            kind = KEYWORDS.iter().find(|k| k.0 == w).map_or("Identifier", |k| k.1);
        } else if let Some((t, k)) = SYMBOLS.iter().find(|(t, _)| t.chars().enumerate().all(|(k, c)| is(i + k, c))) {
            j += t.chars().count();
            kind = k;
        } else {
            j += 1;
        }
        if kind.is_empty() {
            out.errors.push((at[i].line, at[i].col));
        } else {
            let it = Item { kind, text: s[i..j].iter().collect(), start: at[i], end: at[j], idx: count };
            count += 1;
            if kind == "LineComment" || kind == "BlockComment" { out.comments.push(it) } else { out.tokens.push(it) }
        }
        i = j;
    }
    out
}
