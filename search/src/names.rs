use mofmt::hooks::ModelicaToken;
use mofmt::SyntaxKind;
macro_rules! kinds { ($($n:ident)*) => {
    pub fn kind(name: &str) -> SyntaxKind { $(if name == stringify!($n) { return SyntaxKind::$n })* panic!("{}", name) }
    pub fn kind_name(k: &SyntaxKind) -> &'static str { $(if *k == SyntaxKind::$n { return stringify!($n) })* "?" }
} }
macro_rules! toks { ($($n:ident)*) => {
    pub fn tok_name(k: ModelicaToken) -> &'static str { $(if k == ModelicaToken::$n { return stringify!($n) })* "?" }
    pub const TOKS: &[&str] = &[$(stringify!($n)),*];
} }
kinds! { StoredDefinition ClassDefinition ClassPrefixes ClassSpecifier LongClassSpecifier ShortClassSpecifier DerClassSpecifier BasePrefix EnumList EnumerationLiteral Composition LanguageSpecification ExternalFunctionCall ElementList Element ImportClause ImportList ExtendsClause ConstrainingClause ClassOrInheritanceModification ArgumentOrInheritanceModificationList InheritanceModification ComponentClause TypePrefix ComponentList ComponentDeclaration ConditionAttribute Declaration Modification ModificationExpression ClassModification ArgumentList Argument ElementModificationOrReplaceable ElementModification ElementRedeclaration ElementReplaceable ComponentClause1 ComponentDeclaration1 ShortClassDefinition EquationSection AlgorithmSection Equation Statement IfEquation IfStatement ForEquation ForStatement ForIndices ForIndex WhileStatement WhenEquation WhenStatement ConnectEquation Expression SimpleExpression LogicalExpression LogicalTerm LogicalFactor Relation RelationalOperator ArithmeticExpression AddOperator Term MulOperator Factor Primary TypeSpecifier Name ComponentReference ResultReference FunctionCallArgs FunctionArguments FunctionArgumentsNonFirst ArrayArguments ArrayArgumentsNonFirst NamedArguments NamedArgument FunctionArgument FunctionPartialApplication OutputExpressionList ExpressionList ArraySubscripts Subscript Description DescriptionString AnnotationClause }
toks! { EOF Comma Dot Semicolon Colon LParen RParen LCurly RCurly LBracket RBracket Equal Assign Plus Minus Star Slash Flex DotPlus DotMinus DotStar DotSlash DotFlex Gre Geq Les Leq Neq Eq Not And Or In For If Else ElseIf Then When ElseWhen While Loop Break Return Partial Class Operator Expandable Model Function Record Type Block Connector Package Pure Impure Initial Equation Algorithm Extends Import Public Protected Within Final Encapsulated Enumeration Input Output Redeclare Inner Outer Replaceable Constrainedby Flow Stream Discrete Parameter Constant Each Annotation External End Der Connect LineComment BlockComment Identifier String UInt UReal Bool }
