#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so the text is readable and diffable)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["result of a parse: AST, tokens, diagnostics, comments, magic comments, decoded input"],hook_needed=None)))
I=["inputs","programs"]
Y="src/parser/parse.y";B="src/builder.rs"
L="src/lexer/"
p("C01","Parsing any bytes terminates normally",
  "For every byte sequence whatsoever (valid or invalid Ruby, valid or invalid UTF-8, truncated at any point) a parse terminates and returns a result; it never panics, overflows or loops. A program that is rejected is rejected through an error diagnostic, never silently with neither a tree nor an error.",
  I,"every byte sequence, with and without token recording",
  "Existing tests parse a few dozen fixed snippets; totality is a statement about all inputs, in particular malformed and truncated ones.",
  [L+"main.rs",L+"parse_string.rs","src/source/buffer.rs",Y,B],[("end-of-input handling","src/source/buffer.rs nextc/pushback"),("error recovery",Y+" error productions"),("unwrap/expect/unreachable sites",B)])
p("C02","Every source range lies inside the decoded input, on character boundaries",
  "Every location in a result (of AST nodes and all their parts, tokens, diagnostics, comments and magic comments) is a range begin <= end <= length of the decoded input; and when the decoded input is valid UTF-8, no such range begins or ends inside a character. This holds for accepted and for rejected programs.",
  I,"every byte sequence and every location the result carries","Tests compare locations of a few fixtures; a consumer slices the source with every range of every input.",
  [L+"main.rs",B,"src/loc_ext.rs"],[("location arithmetic",B+" loc/join/adjust"),("token bounds",L+"main.rs set_yylloc"),("EOF diagnostics",L+"parse_heredoc.rs")])
p("C03","The tree has the structure Ruby's grammar gives the program",
  "For every program composed from the constructs of Ruby 3.1's grammar, parsing yields exactly the tree that the grammar assigns: the right node kinds, with children in their roles, names and values, independent of what is nested where; and no error is reported. Nesting a valid construct inside a valid position changes neither its own subtree nor the enclosing one.",
  ["programs"],"every composition of grammar constructs: any construct in any position that admits it",
  "The existing suite checks a handful of constructs each in one context; the interaction of construct and context is combinatorial.",
  [Y,B],[("semantic actions",Y),("node construction",B)])
p("C04","Every node and node part carries its exact source range",
  "For every valid program, the expression range of each node covers exactly the source text of that construct, and each keyword, operator, delimiter, name and separator range covers exactly that piece of text (and is absent exactly when that piece is absent). For heredocs the body and terminator ranges cover exactly the body and the terminator.",
  ["programs"],"every composition of grammar constructs, every location field of every node",
  "A test pins the ranges of one snippet; tools rewrite source through these ranges for every program.",
  [B,Y,L+"main.rs"],[("range computation",B),("token locations",L+"main.rs")])
p("C05","The token stream is an ordered, lossless partition of the source",
  "When tokens are recorded, consecutive tokens never overlap and appear in source order (a heredoc body being visited right after its opening), and the text between consecutive tokens consists only of blanks, line continuations, comments and newlines the grammar ignores. The text under a token with a fixed spelling is that spelling, the text under a name or number is its value, and the end of a literal lies over the delimiter (or terminator line) that belongs to its opening.",
  I,"every valid program","Tests look at token lists of isolated snippets only.",
  [L+"main.rs","src/token.rs",Y],[("token bounds",L+"main.rs yylex"),("token recording and rewinding",Y+" tokens handling")])
p("C06","Results depend only on the input, not on options or history",
  "Parsing the same bytes twice gives equal results. Whether tokens are recorded and what the buffer is named changes neither tree, diagnostics, comments nor magic comments; disabling recording only leaves the token list empty.",
  ["inputs","histories","configurations"],"every input, every option combination, every sequence of earlier parses",
  "No test compares two runs or two option settings.",
  [Y,"src/parser_options.rs","src/parser_result.rs","src/context.rs","src/static_environment.rs"],[("shared interior state per parser",Y+" Parser::new"),("token pool",L+"main.rs")])
p("C07","Every comment is reported exactly once with its exact range and kind",
  "Each '#' comment and each =begin/=end block that is a comment by Ruby's rules is reported once, in the order it is read, with its kind and the range from its '#' to the end of its line (for a block: from =begin through its =end line), the line terminator included; nothing inside strings, heredoc bodies, or after __END__ is reported.",
  I,"every placement of comment-like text among code, strings, heredocs and block comments","One fixture covers comments; whether '#' starts a comment depends on the lexer state everywhere.",
  [L+"main.rs","src/source/buffer.rs","src/source/comment.rs"],[("comment capture",L+"main.rs"),("embedded documents","src/source/buffer.rs")])
p("C08","Magic comments are recognised exactly",
  "A comment yields a magic comment exactly when it is one by Ruby's rules (encoding, coding, frozen_string_literal, warn_indent, shareable_constant_value; case-insensitive, '-' and '_' interchangeable; plain or Emacs-style with several settings), with its kind and the exact ranges of key and value. Ordinary comments never yield one. (Comments that follow code on their line are left open.)",
  I,"every spelling and layout of settings inside comments, on any line","One fixture with a few comments.",
  [L+"parse_magic_comment.rs","src/source/magic_comment.rs"],[("magic comment scanner",L+"parse_magic_comment.rs")])
p("C09","Declared source encodings go through the decoder exactly once",
  "An encoding declared by an encoding magic comment on the first (or second, after a shebang) line other than UTF-8/ASCII-8BIT/BINARY causes the supplied decoder to be called exactly once with the declared name and the raw bytes, and the rest of the parse and the returned input use its output. Without a decoder, or when it fails, an encoding error is reported; for the built-in encodings, and when no encoding is declared, the bytes are used unchanged and the decoder is not called.",
  ["inputs","configurations","fault_sequences"],"every declaration placement and spelling, every decoder (absent, succeeding, failing), every body",
  "Tests use one custom decoder on one input.",
  ["src/source/decoder.rs","src/source/input.rs",L+"parse_magic_comment.rs","src/source/buffer.rs"],[("encoding switch","src/source/input.rs set_encoding"),("decoder call","src/source/decoder.rs decode_input")])
p("C10","Line/column mapping and diagnostic rendering are exact",
  "For every text, lines partition it exactly at newlines, every position up to the end maps to the line that contains it and the byte column inside that line, a range expands to its first line without the newline, and the text of a range is the exact substring. A rendered diagnostic shows name:line:column, level, message, that line and a marker of the range's width under its start.",
  ["inputs"],"every text and every position/range in it","Tests cover two texts.",
  ["src/source/decoded_input.rs","src/source/source_line.rs","src/loc_ext.rs","src/error/diagnostic.rs"],[("line table","src/source/decoded_input.rs update_bytes"),("rendering","src/error/diagnostic.rs render")])
p("C11","A bare name is a local variable exactly when one is in scope",
  "A bare identifier parses as a local variable read if and only if, at that point of the text, an assignment, parameter, block-local, pattern, rescue or for binding (or a pre-declared local) of that name is visible: def, class, module and singleton-class bodies hide outer locals; blocks, lambdas and for loops see them, and what blocks and lambdas introduce disappears at their end. Otherwise it parses as a method call.",
  ["programs","histories"],"every sequence of scope openings, closings, bindings and references","Tests cover single scopes; scope is a stack discipline over arbitrary nestings.",
  ["src/static_environment.rs",Y,B,L+"parse_ident.rs"],[("scope stack","src/static_environment.rs"),("declaration sites",B+" assignable, argument builders; "+Y)])
p("C12","Context-dependent legality is enforced exactly",
  "Class and module definitions, constant assignment, return, BEGIN/END blocks and setter definitions are rejected (or warned about) exactly in the contexts where Ruby forbids them, whatever surrounds them, and each rejection is the documented diagnostic. A control-flow statement without a value (return, break, next, redo, retry) in a position that needs a value is rejected as a void value. Leaving a nested construct always restores the enclosing context.",
  ["programs"],"every nesting of definition, singleton, block and lambda contexts around each restricted construct","Tests cover one nesting each.",
  ["src/context.rs",Y,B],[("context flags saved and restored","src/context.rs; "+Y+" k_def/k_class actions")])
p("C13","Numbered block parameters are scoped and validated exactly",
  "_1.._9 used in a block or lambda body without ordinary parameters make it a numbered-parameter block whose arity is the greatest number used directly in it; mixing with ordinary parameters, using them in a nested block when an outer or inner block already uses them, or assigning or declaring such a name is rejected. Outside blocks the names are ordinary.",
  ["programs"],"every nesting of blocks/lambdas/definitions and every placement of numbered names","One or two fixtures.",
  ["src/max_numparam_stack.rs",Y,B],[("numparam stack","src/max_numparam_stack.rs"),("numblock construction",B+" block")])
p("C14","Parameter lists keep order, kinds and names, and duplicates are rejected",
  "Every parameter list of a method, block or lambda yields its parameters in source order with the right kind, name and default; a name occurring twice (also through destructuring and block locals) is rejected unless it starts with an underscore, and non-local-variable names are rejected with the matching diagnostic. A default that refers to its own parameter is reported as circular.",
  ["programs"],"every combination of parameter kinds and names in every kind of parameter list","Tests cover a few lists.",
  [Y,B],[("argument builders",B),("duplicate detection",B+" check_duplicate_args")])
p("C15","Argument forwarding is accepted exactly where it was declared",
  "Forwarding all arguments with ..., or an anonymous block with &, is accepted in a call exactly when the immediately enclosing method definition declares it, including inside nested blocks and not inside nested definitions or class bodies; otherwise an error is reported.",
  ["programs"],"every nesting of definitions and blocks between declaration and use","One fixture.",
  [Y,"src/static_environment.rs",B],[("forward declarations","src/static_environment.rs")])
p("C16","Pattern matching trees, bindings and duplicate checks are exact",
  "Every pattern (value, range, alternative, array, find, hash, constant, pin, capture, rest) in case/in, => and in yields the tree of its shape and binds exactly its names as locals; a variable bound twice or a key used twice in one pattern, and pinning a name that is not a local, are rejected.",
  ["programs"],"every composition of pattern forms","A few fixtures.",
  [Y,B,"src/variables_stack.rs"],[("pattern productions",Y),("duplicate tracking","src/variables_stack.rs")])
p("C17","Blocks attach to the call Ruby's rules say",
  "do...end binds to the outermost command call of a command without parentheses, to the loop when it follows a while/until/for header, and to the lambda after ->; braces bind to the nearest call; brackets, parentheses, braces and nested bodies re-enable the inner binding.",
  ["programs"],"every nesting of commands, parentheses, brackets, lambdas, loop headers and blocks","A few fixtures; the decision depends on a stack of contexts.",
  ["src/stack_state.rs",L+"parse_ident.rs",Y],[("cond/cmdarg stacks","src/stack_state.rs"),("do token choice",L+"parse_ident.rs")])
p("C18","String contents decode exactly according to the literal's kind",
  "The value of every string, symbol, character, regexp and shell literal is its source text with escapes decoded precisely as that kind of literal requires (all simple, octal, hex, unicode, control and meta escapes and line continuations in interpolating literals, only the delimiter and backslash in non-interpolating ones, escapes kept in regexps); malformed escapes are reported.",
  ["inputs"],"every sequence of characters and escapes in every kind of literal and delimiter","Tests cover few escapes in one literal kind.",
  [L+"parse_string.rs",L+"parse_qmark.rs",B],[("escape reader",L+"parse_string.rs read_escape/tokadd_escape"),("string scanner",L+"parse_string.rs tokadd_string")])
p("C19","Percent literals and word arrays respect nesting and splitting",
  "A percent literal of every kind ends at its matching closing delimiter, nested pairs of the same bracket kind counted and escaped ones ignored; word and symbol arrays are split exactly at unescaped whitespace, with interpolation gluing parts into one element only in the interpolating forms.",
  ["inputs"],"every kind, delimiter, nesting, whitespace and interpolation sequence","A few fixtures.",
  [L+"parse_percent.rs",L+"parse_string.rs",Y],[("delimiter nesting",L+"parse_string.rs"),("word arrays",Y+" words/qwords rules")])
p("C20","Heredocs deliver exactly the right bodies to the right places",
  "Each heredoc takes as its body exactly the lines following the current line (after the bodies of earlier heredocs) up to its terminator, for plain, indented and squiggly forms and all quoting styles, wherever the opening occurs; the code after the opening continues unchanged. Squiggly heredocs remove exactly the smallest common indentation of their text lines, never touching interpolated parts.",
  ["inputs","programs"],"every number, order and kind of heredocs, every indentation pattern of body lines, every terminator spelling","Tests cover a few bodies.",
  [L+"parse_heredoc.rs",L+"parse_string.rs",B,"src/source/buffer.rs"],[("heredoc state",L+"parse_heredoc.rs"),("dedent",B+" string composition and dedent")])
p("C21","Numeric literals are recognised with exact extent, kind and value",
  "Every digit sequence with prefix, underscores, fraction, exponent and r/i suffixes that Ruby accepts yields one literal of the right kind with its text as value and exact extent (sign included where Ruby includes it); everything Ruby rejects is reported.",
  ["inputs"],"every string over the numeric alphabet","Lexer tests are mostly absent; a few literals.",
  [L+"parse_numeric.rs",B],[("number scanner",L+"parse_numeric.rs"),("numeric builder",B)])
p("C22","Operators bind with Ruby's precedence and associativity",
  "For every expression built from binary, unary, ternary, range, assignment, defined?, not/and/or and modifier operators, the tree is the one given by Ruby's precedence and associativity table, and chains of non-associative operators are rejected.",
  ["programs"],"every operator sequence","Tests fix a few pairs.",
  [Y],[("precedence declarations",Y+" %left/%right/%nonassoc")])
p("C23","Statement boundaries follow Ruby's newline rules",
  "A newline or ';' ends a statement exactly when Ruby says so: not inside brackets, after an operator, comma or dot, after a backslash, or before a leading-dot line (also across comments); LF and CRLF give the same program; everything from a __END__ line or an end-of-file control character on is ignored.",
  ["inputs","programs"],"every placement of newlines, comments, continuations between tokens","A few fixtures.",
  [L+"main.rs","src/source/buffer.rs"],[("newline handling",L+"main.rs"),("line reader","src/source/buffer.rs")])
p("C24","Reserved words act as keywords or names exactly as position demands",
  "Every reserved word is a keyword in expression position and an ordinary name after a dot, after def, in symbols, as hash key or keyword label and in alias/undef; if/unless/while/until/rescue are modifiers exactly after a complete expression. Operators are method names exactly in the positions where Ruby allows them.",
  ["programs"],"every reserved word and operator in every naming position","Tests cover few words.",
  [L+"parse_ident.rs","src/reserved_words/mod.rs","codegen/rust/reserved_words.rs",Y],[("keyword table","codegen/rust/reserved_words.rs"),("state-dependent keyword choice",L+"parse_ident.rs")])
p("C25","Assignment targets are validated and shaped correctly",
  "Plain, operator and multiple assignment accept exactly Ruby's targets and yield the assignment of the matching kind for each (local, instance, class, global variable, constant, attribute, safe-navigation attribute, index, splat, nested group); assigning to self, nil, true, false, __FILE__, __LINE__, __ENCODING__, $&-like and $1-like variables, or numbered parameters is rejected.",
  ["programs"],"every target form in every assignment form","A few fixtures.",
  [B,Y],[("assignable/op_assign/mlhs builders",B)])
p("C26","Malformed structure is always reported and well-formed structure never is",
  "Removing, adding or swapping a structural token (keyword, end, bracket, brace, paren, quote, terminator) of a valid program so that its nesting is broken always yields an error diagnostic, at any depth (up to the 60 levels the lexer keeps track of); a program without error diagnostics leaves no construct open, and its internal bookkeeping is back in its initial state.",
  ["programs"],"every nesting of bracketing constructs, with each damage","Tests check few malformed inputs.",
  [Y,L+"main.rs"],[("grammar",Y),("final-state validation",Y+" do_parse_with_state_validation")])
p("C27","Whitespace-sensitive operators resolve as Ruby does",
  "For an identifier followed by -, +, *, **, &, [, (, ::, /, %, <<, ?, : or { with or without spaces on either side, the choice between operator, unary/splat/block-pass, literal, index, argument list, hash or block follows Ruby's rule, which depends on the spaces and on whether the identifier is a local variable; the corresponding ambiguity warnings appear exactly there.",
  ["programs"],"every operator character x spacing x kind of preceding token","A few fixtures.",
  [L+"main.rs"],[("state and space dependent lexing",L+"main.rs")])
p("C28","Interpolation nests without limit and keeps outer literal state",
  "Interpolated code in any interpolating literal may contain any program, including other literals, braces, heredocs and further interpolation; the outer literal resumes exactly after the closing brace, and #@x, #@@x and #$x interpolate exactly those variables. Non-interpolating literals keep such text verbatim.",
  ["programs"],"every nesting of literal kinds through interpolation","A few fixtures.",
  [L+"parse_string.rs",Y],[("saved string state",Y+" string_content"),("interpolation start",L+"parse_string.rs")])
p("C29","Every diagnostic is exact: level, text, range, and reported once",
  "Each condition the parser diagnoses (malformed numbers, names, escapes and literals, unterminated constructs, illegal targets, duplicate names and keys, misplaced definitions, ambiguous operators and so on) is reported with its level, its message and exactly the range of the offending text, wherever the code stands; nothing is reported twice, a later part of a program does not change the first error of an earlier one, and a valid program gets exactly the warnings its text deserves.",
  ["programs"],"every diagnosed fragment in every nesting of constructs, alone and in sequence","Tests look at single errors of fixed snippets at offset 0; editors underline the reported range in arbitrary files.",
  [L+"main.rs",L+"parse_numeric.rs",L+"parse_gvar.rs",Y,B],[("lexer errors and warnings",L+"main.rs yyerror0/warn/warn_balanced"),("builder errors",B+" error/warn"),("grammar errors",Y+" yyerror1/warn_eol")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
