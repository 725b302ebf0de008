-------------------------------- MODULE Diag --------------------------------
(* C29.  Diagnostics.  A fragment is a sequence of pieces of text; a piece may carry a level and a    *)
(* message: then the whole fragment is an instance of that diagnostic and the piece is the text the   *)
(* diagnostic points at.  The state is a fragment and the constructs around it; wherever the fragment *)
(* stands, the diagnostic is reported once, with that level, that message and exactly that range.     *)
(* Fragments with warnings only are valid programs: nothing else may be reported.  For a rejected     *)
(* fragment the first error is stated, and nothing that was reported may be reported again.           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Set, Wrap, Second, MaxDepth, Keys, MaxKeys
VARIABLES f, ws, g, ks
Out(r) == PrintT(ToJson(r))
X(s) == <<s>>
E(s, m) == <<s, "error", m>>
W(s, m) == <<s, "warning", m>>
FR(cls, ps) == [cls |-> cls, ps |-> ps]
(* classes: e an expression, s a statement, c a statement that cannot stand in a method body, u text that runs to the end of the input *)
Eol(k) == "`" \o k \o "' at the end of line without an expression"
TooBig(n) == "`" \o n \o "' is too big for a number variable, always nil"
Paren == "parentheses after method name is interpreted as an argument list, not a decomposed argument"
Dots == "... at EOL, should be parenthesized?"
Cr == "encountered \\r in middle of line, treated as a mere space"
Cmp(o) == "comparison '" \o o \o "' after comparison"
Use(x) == "invalid character syntax; use " \o x
Pfx(o) == "`" \o o \o "' interpreted as argument prefix"
Amb1(o) == "ambiguous first argument; put parentheses or a space even after `" \o o \o "' operator"
AmbRe == "ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator"
AmbOp(o, i) == "`" \o o \o "' after local variable or literal is interpreted as binary operator even though it seems like " \o i
AmbEh(x) == "`?' just followed by `" \o x \o "' is interpreted as a conditional operator, put a space after `?'"
Warns == <<
  FR("e", <<X("\"a"), W("\\c\n", Use("\\n")), X("b\"")>>), FR("e", <<W("?\\c\n", Use("\\n"))>>), FR("e", <<X("%W[a "), W("\\c\n", Use("\\n")), X("b]")>>), FR("e", <<X("\"a"), W("\\C-\n", Use("\\n")), X("b\"")>>),
  FR("e", <<X("\"a"), W("\\M-\n", Use("\\M-\\n")), X("b\"")>>), FR("e", <<X("\"a"), W("\\M-\\C-\n", Use("\\M-\\n")), X("b\"")>>), FR("e", <<W("?\\M-\\C-\n", Use("\\M-\\n"))>>), FR("e", <<X("%W[a "), W("\\M-\\C-\n", Use("\\M-\\n")), X("b]")>>),
  FR("e", <<X("\"a"), W("\\C-\\M-\n", Use("\\M-\\n")), X("b\"")>>), FR("e", <<X("\"a"), W("\\c\\M-\n", Use("\\M-\\n")), X("b\"")>>), FR("e", <<X("\"a"), W("\\c\t", Use("\\t")), X("b\"")>>), FR("e", <<W("?\\c\t", Use("\\t"))>>),
  FR("e", <<X("%W[a "), W("\\c\t", Use("\\t")), X("b]")>>), FR("e", <<X("\"a"), W("\\C-\t", Use("\\t")), X("b\"")>>), FR("e", <<X("\"a"), W("\\M-\t", Use("\\M-\\t")), X("b\"")>>), FR("e", <<X("\"a"), W("\\M-\\C-\t", Use("\\M-\\t")), X("b\"")>>),
  FR("e", <<W("?\\M-\\C-\t", Use("\\M-\\t"))>>), FR("e", <<X("%W[a "), W("\\M-\\C-\t", Use("\\M-\\t")), X("b]")>>), FR("e", <<X("\"a"), W("\\C-\\M-\t", Use("\\M-\\t")), X("b\"")>>), FR("e", <<X("\"a"), W("\\c\\M-\t", Use("\\M-\\t")), X("b\"")>>),
  FR("e", <<X("\"a"), W("\\cČ", Use("\\f")), X("b\"")>>), FR("e", <<W("?\\cČ", Use("\\f"))>>), FR("e", <<X("%W[a "), W("\\cČ", Use("\\f")), X("b]")>>), FR("e", <<X("\"a"), W("\\C-Č", Use("\\f")), X("b\"")>>),
  FR("e", <<X("\"a"), W("\\M-Č", Use("\\M-\\f")), X("b\"")>>), FR("e", <<X("\"a"), W("\\M-\\C-Č", Use("\\M-\\f")), X("b\"")>>), FR("e", <<W("?\\M-\\C-Č", Use("\\M-\\f"))>>), FR("e", <<X("%W[a "), W("\\M-\\C-Č", Use("\\M-\\f")), X("b]")>>),
  FR("e", <<X("\"a"), W("\\C-\\M-Č", Use("\\M-\\f")), X("b\"")>>), FR("e", <<X("\"a"), W("\\c\\M-Č", Use("\\M-\\f")), X("b\"")>>), FR("e", <<X("\"a"), W("\\cċ", Use("\\v")), X("b\"")>>), FR("e", <<W("?\\cċ", Use("\\v"))>>),
  FR("e", <<X("%W[a "), W("\\cċ", Use("\\v")), X("b]")>>), FR("e", <<X("\"a"), W("\\C-ċ", Use("\\v")), X("b\"")>>), FR("e", <<X("\"a"), W("\\M-ċ", Use("\\M-\\v")), X("b\"")>>), FR("e", <<X("\"a"), W("\\M-\\C-ċ", Use("\\M-\\v")), X("b\"")>>),
  FR("e", <<W("?\\M-\\C-ċ", Use("\\M-\\v"))>>), FR("e", <<X("%W[a "), W("\\M-\\C-ċ", Use("\\M-\\v")), X("b]")>>), FR("e", <<X("\"a"), W("\\C-\\M-ċ", Use("\\M-\\v")), X("b\"")>>), FR("e", <<X("\"a"), W("\\c\\M-ċ", Use("\\M-\\v")), X("b\"")>>),
  FR("e", <<X("\"a"), W("\\c ", Use("\\C-\\s")), X("b\"")>>), FR("e", <<W("?\\c ", Use("\\C-\\s"))>>), FR("e", <<X("%W[a "), W("\\c ", Use("\\C-\\s")), X("b]")>>), FR("e", <<X("\"a"), W("\\C- ", Use("\\C-\\s")), X("b\"")>>),
  FR("e", <<X("\"a"), W("\\M- ", Use("\\M-\\s")), X("b\"")>>), FR("e", <<X("\"a"), W("\\M-\\C- ", Use("\\M-\\C-\\s")), X("b\"")>>), FR("e", <<W("?\\M-\\C- ", Use("\\M-\\C-\\s"))>>), FR("e", <<X("%W[a "), W("\\M-\\C- ", Use("\\M-\\C-\\s")), X("b]")>>),
  FR("e", <<X("\"a"), W("\\C-\\M- ", Use("\\C-\\M-\\s")), X("b\"")>>), FR("e", <<X("\"a"), W("\\c\\M- ", Use("\\C-\\M-\\s")), X("b\"")>>),
  FR("s", <<X("def m "), W("(", Paren), X("p); end")>>), FR("s", <<X("def self.m "), W("(", Paren), X("p, q); end")>>), FR("s", <<X("def m "), W("(", Paren), X(") = 1")>>), FR("s", <<X("def m? "), W("(", Paren), X("); end")>>), FR("s", <<X("def + "), W("(", Paren), X("p); end")>>),
  FR("e", <<W("if", Eol("if")), X("\na then b end")>>), FR("e", <<W("if", Eol("if")), X(" \t\n  a\n  b\nend")>>), FR("e", <<W("if", Eol("if")), X(" # x\na then b else c end")>>), FR("e", <<X("if a then b "), W("elsif", Eol("elsif")), X("\nc then d end")>>),
  FR("e", <<W("if", Eol("if")), X("\na\nb\n"), W("elsif", Eol("elsif")), X("\nc\nd\nend")>>),
  FR("e", <<W("$1073741824", TooBig("1073741824"))>>), FR("e", <<W("$9999999999", TooBig("9999999999"))>>), FR("e", <<W("$18446744073709551616", TooBig("18446744073709551616"))>>), FR("e", <<W("$2000000000", TooBig("2000000000"))>>), FR("e", <<W("$10737418230", TooBig("10737418230"))>>),
  FR("e", <<X("$1073741823")>>), FR("e", <<X("$999999999")>>), FR("e", <<X("$1000000000")>>),
  FR("e", <<X("[1, $2, "), W("$1073741824", TooBig("1073741824")), X(", "), W("$1073741825", TooBig("1073741825")), X("]")>>),
  FR("e", <<X("a < b "), W("<", Cmp("<")), X(" c")>>), FR("e", <<X("a > b "), W("<=", Cmp("<=")), X(" c "), W(">=", Cmp(">=")), X(" d")>>), FR("e", <<X("a >= b "), W(">", Cmp(">")), X(" c")>>),
  FR("e", <<X("a < (b < c)")>>), FR("e", <<X("a == (b < c)")>>), FR("e", <<X("(a < b) < c")>>),
  FR("s", <<X("m "), W("*", Pfx("*")), X("a")>>), FR("s", <<X("m "), W("**", Pfx("**")), X("a")>>), FR("s", <<X("m "), W("&", Pfx("&")), X("a")>>), FR("s", <<X("m "), W("-", Amb1("-")), X("a")>>), FR("s", <<X("m "), W("+", Amb1("+")), X("1")>>), FR("s", <<X("m "), W("-", Amb1("-")), X("1")>>), FR("s", <<X("m "), W("/", AmbRe), X("a/")>>),
  FR("s", <<X("x.m "), W("*", Pfx("*")), X("a, "), X("*b, **c, &d")>>), FR("s", <<X("x::m "), W("-", Amb1("-")), X("a.b "), X("- c")>>),
  FR("s", <<X("m a, *b")>>), FR("s", <<X("m(*a)")>>), FR("s", <<X("m a, -1")>>), FR("e", <<X("m(-1, /a/, &b)")>>), FR("e", <<X("m - a")>>), FR("e", <<X("m-a")>>), FR("e", <<X("z -= 1")>>),
  FR("e", <<X("1 "), W("-", AmbOp("-", "unary operator")), X("1")>>), FR("e", <<X("1 "), W("+", AmbOp("+", "unary operator")), X("1")>>), FR("e", <<X("1 "), W("*", AmbOp("*", "argument prefix")), X("1")>>), FR("e", <<X("1 "), W("**", AmbOp("**", "argument prefix")), X("1")>>), FR("e", <<X("1 "), W("&", AmbOp("&", "argument prefix")), X("1")>>), FR("e", <<X("1 "), W("/", AmbOp("/", "regexp literal")), X("1")>>), FR("e", <<X("1 "), W("%", AmbOp("%", "string literal")), X("1")>>), FR("e", <<X("\"\" "), W("<<", AmbOp("<<", "here document")), X("A")>>),
  FR("e", <<X("1 - 1")>>), FR("e", <<X("1-1")>>), FR("e", <<X("1- 1")>>),
  FR("e", <<X("a "), W("?", AmbEh("bc")), X("bc : d")>>), FR("e", <<X("a ? bc : d")>>), FR("s", <<X("a ?b")>>),
  FR("e", <<X("\""), W("\\M- ", Use("\\M-\\s")), X("\"")>>), FR("e", <<X("\""), W("\\C- ", Use("\\C-\\s")), X("\"")>>), FR("e", <<X("\""), W("\\c ", Use("\\C-\\s")), X("\"")>>), FR("e", <<X("\""), W("\\C-\t", Use("\\t")), X("\"")>>), FR("e", <<X("\""), W("\\M-\\C- ", Use("\\M-\\C-\\s")), X("\"")>>), FR("e", <<X("\""), W("\\C-\\M- ", Use("\\C-\\M-\\s")), X("\"")>>), FR("e", <<X("\""), W("\\M-\t", Use("\\M-\\t")), X("\"")>>)
>>
(* the warnings that depend on what is around them *)
DotsW == << FR("e", <<X("(a...\nb)")>>), FR("e", <<X("[a...\nb]")>>), FR("s", <<X("a"), W("...", Dots), X("\nb")>>), FR("s", <<X("x = a"), W("...", Dots), X(" # y\nb")>>), FR("s", <<X("a..\nb")>>), FR("s", <<X("a...b\nc")>>), FR("s", <<W("...", Dots), X("\nb")>>) >>
Errs == <<
  FR("e", <<X("\"a\\u"), E("g", "invalid Unicode escape"), X("\"")>>), FR("e", <<X("\"\\u12"), E("Ã©", "invalid Unicode escape"), X("\"")>>), FR("e", <<X("\"\\u123"), E("\"", "invalid Unicode escape")>>), FR("e", <<X("\"\\u{"), E("110000", "invalid Unicode codepoint (too large)"), X("}\"")>>),
  FR("e", <<X("\"\\u{61 "), E("110000", "invalid Unicode codepoint (too large)"), X(" 62}\"")>>), FR("e", <<X("\"\\u"), E("d800", "invalid Unicode codepoint"), X("\"")>>), FR("e", <<X("\"x\\u{"), E("dfff", "invalid Unicode codepoint"), X("}\"")>>), FR("e", <<X("\"\\u{12"), E("\"", "unterminated Unicode escape")>>),
  FR("e", <<X("\""), E("\\cÃ©", "Invalid escape character syntax"), X("\"")>>), FR("e", <<X("\""), E("\\M-Ã©", "Invalid escape character syntax"), X("\"")>>), FR("e", <<X("\""), E("\\M-\\M", "Invalid escape character syntax"), X("-a\"")>>), FR("e", <<X("\""), E("\\c\\C-", "Invalid escape character syntax"), X("a\"")>>),
  FR("e", <<X("`a\\u"), E("g", "invalid Unicode escape"), X("`")>>), FR("e", <<X("`\\u12"), E("Ã©", "invalid Unicode escape"), X("`")>>), FR("e", <<X("`\\u123"), E("`", "invalid Unicode escape")>>), FR("e", <<X("`\\u{"), E("110000", "invalid Unicode codepoint (too large)"), X("}`")>>),
  FR("e", <<X("`\\u{61 "), E("110000", "invalid Unicode codepoint (too large)"), X(" 62}`")>>), FR("e", <<X("`\\u"), E("d800", "invalid Unicode codepoint"), X("`")>>), FR("e", <<X("`x\\u{"), E("dfff", "invalid Unicode codepoint"), X("}`")>>), FR("e", <<X("`\\u{12"), E("`", "unterminated Unicode escape")>>),
  FR("e", <<X("`"), E("\\cÃ©", "Invalid escape character syntax"), X("`")>>), FR("e", <<X("`"), E("\\M-Ã©", "Invalid escape character syntax"), X("`")>>), FR("e", <<X("`"), E("\\M-\\M", "Invalid escape character syntax"), X("-a`")>>), FR("e", <<X("`"), E("\\c\\C-", "Invalid escape character syntax"), X("a`")>>),
  FR("e", <<X("/a\\u"), E("g", "invalid Unicode escape"), X("/")>>), FR("e", <<X("/\\u12"), E("Ã©", "invalid Unicode escape"), X("/")>>), FR("e", <<X("/\\u123"), E("/", "invalid Unicode escape")>>), FR("e", <<X("/\\u{"), E("110000", "invalid Unicode codepoint (too large)"), X("}/")>>),
  FR("e", <<X("/\\u{61 "), E("110000", "invalid Unicode codepoint (too large)"), X(" 62}/")>>), FR("e", <<X("/\\u"), E("d800", "invalid Unicode codepoint"), X("/")>>), FR("e", <<X("/x\\u{"), E("dfff", "invalid Unicode codepoint"), X("}/")>>), FR("e", <<X("/\\u{12"), E("/", "unterminated Unicode escape")>>),
  FR("e", <<X("/"), E("\\cÃ©", "Invalid escape character syntax"), X("/")>>), FR("e", <<X("/"), E("\\M-Ã©", "Invalid escape character syntax"), X("/")>>), FR("e", <<X("/"), E("\\M-\\M", "Invalid escape character syntax"), X("-a/")>>), FR("e", <<X("/"), E("\\c\\C-", "Invalid escape character syntax"), X("a/")>>),
  FR("e", <<X(":\"a\\u"), E("g", "invalid Unicode escape"), X("\"")>>), FR("e", <<X(":\"\\u12"), E("Ã©", "invalid Unicode escape"), X("\"")>>), FR("e", <<X(":\"\\u123"), E("\"", "invalid Unicode escape")>>), FR("e", <<X(":\"\\u{"), E("110000", "invalid Unicode codepoint (too large)"), X("}\"")>>),
  FR("e", <<X(":\"\\u{61 "), E("110000", "invalid Unicode codepoint (too large)"), X(" 62}\"")>>), FR("e", <<X(":\"\\u"), E("d800", "invalid Unicode codepoint"), X("\"")>>), FR("e", <<X(":\"x\\u{"), E("dfff", "invalid Unicode codepoint"), X("}\"")>>), FR("e", <<X(":\"\\u{12"), E("\"", "unterminated Unicode escape")>>),
  FR("e", <<X(":\""), E("\\cÃ©", "Invalid escape character syntax"), X("\"")>>), FR("e", <<X(":\""), E("\\M-Ã©", "Invalid escape character syntax"), X("\"")>>), FR("e", <<X(":\""), E("\\M-\\M", "Invalid escape character syntax"), X("-a\"")>>), FR("e", <<X(":\""), E("\\c\\C-", "Invalid escape character syntax"), X("a\"")>>),
  FR("e", <<X("%W[a\\u"), E("g", "invalid Unicode escape"), X("]")>>), FR("e", <<X("%W[\\u12"), E("Ã©", "invalid Unicode escape"), X("]")>>), FR("e", <<X("%W[\\u123"), E("]", "invalid Unicode escape")>>), FR("e", <<X("%W[\\u{"), E("110000", "invalid Unicode codepoint (too large)"), X("}]")>>),
  FR("e", <<X("%W[\\u{61 "), E("110000", "invalid Unicode codepoint (too large)"), X(" 62}]")>>), FR("e", <<X("%W[\\u"), E("d800", "invalid Unicode codepoint"), X("]")>>), FR("e", <<X("%W[x\\u{"), E("dfff", "invalid Unicode codepoint"), X("}]")>>), FR("e", <<X("%W[\\u{12"), E("]", "unterminated Unicode escape")>>),
  FR("e", <<X("%W["), E("\\cÃ©", "Invalid escape character syntax"), X("]")>>), FR("e", <<X("%W["), E("\\M-Ã©", "Invalid escape character syntax"), X("]")>>), FR("e", <<X("%W["), E("\\M-\\M", "Invalid escape character syntax"), X("-a]")>>), FR("e", <<X("%W["), E("\\c\\C-", "Invalid escape character syntax"), X("a]")>>),
  FR("e", <<X("%(a\\u"), E("g", "invalid Unicode escape"), X(")")>>), FR("e", <<X("%(\\u12"), E("Ã©", "invalid Unicode escape"), X(")")>>), FR("e", <<X("%(\\u123"), E(")", "invalid Unicode escape")>>), FR("e", <<X("%(\\u{"), E("110000", "invalid Unicode codepoint (too large)"), X("})")>>),
  FR("e", <<X("%(\\u{61 "), E("110000", "invalid Unicode codepoint (too large)"), X(" 62})")>>), FR("e", <<X("%(\\u"), E("d800", "invalid Unicode codepoint"), X(")")>>), FR("e", <<X("%(x\\u{"), E("dfff", "invalid Unicode codepoint"), X("})")>>), FR("e", <<X("%(\\u{12"), E(")", "unterminated Unicode escape")>>),
  FR("e", <<X("%("), E("\\cÃ©", "Invalid escape character syntax"), X(")")>>), FR("e", <<X("%("), E("\\M-Ã©", "Invalid escape character syntax"), X(")")>>), FR("e", <<X("%("), E("\\M-\\M", "Invalid escape character syntax"), X("-a)")>>), FR("e", <<X("%("), E("\\c\\C-", "Invalid escape character syntax"), X("a)")>>),
  FR("e", <<X("%I[a a\\u"), E("g", "invalid Unicode escape"), X("]")>>), FR("e", <<X("%I[a \\u12"), E("Ã©", "invalid Unicode escape"), X("]")>>), FR("e", <<X("%I[a \\u123"), E("]", "invalid Unicode escape")>>), FR("e", <<X("%I[a \\u{"), E("110000", "invalid Unicode codepoint (too large)"), X("}]")>>),
  FR("e", <<X("%I[a \\u{61 "), E("110000", "invalid Unicode codepoint (too large)"), X(" 62}]")>>), FR("e", <<X("%I[a \\u"), E("d800", "invalid Unicode codepoint"), X("]")>>), FR("e", <<X("%I[a x\\u{"), E("dfff", "invalid Unicode codepoint"), X("}]")>>), FR("e", <<X("%I[a \\u{12"), E("]", "unterminated Unicode escape")>>),
  FR("e", <<X("%I[a "), E("\\cÃ©", "Invalid escape character syntax"), X("]")>>), FR("e", <<X("%I[a "), E("\\M-Ã©", "Invalid escape character syntax"), X("]")>>), FR("e", <<X("%I[a "), E("\\M-\\M", "Invalid escape character syntax"), X("-a]")>>), FR("e", <<X("%I[a "), E("\\c\\C-", "Invalid escape character syntax"), X("a]")>>),
  FR("e", <<X("?\\u{61 "), E("62", "Multiple codepoints at single character literal"), X("}")>>), FR("e", <<E("?\\x", "invalid hex escape")>>), FR("e", <<E("?\\cÃ©", "Invalid escape character syntax")>>), FR("e", <<X("?\\u{"), E("110000", "invalid Unicode codepoint (too large)"), X("}")>>),
  FR("e", <<X("?\\u"), E("g", "invalid Unicode escape")>>), FR("e", <<E("%Ã©", "unknown type of %string")>>), FR("e", <<E("%x", "unknown type of %string"), X("Ã©aÃ©")>>), FR("e", <<E("%w", "unknown type of %string"), X("ã")>>),
  FR("e", <<E("%z", "unknown type of %string"), X("Ã©")>>), FR("e", <<E("ÿ", "invalid multibyte char (UTF-8)")>>), FR("e", <<E("aÿ", "invalid multibyte char (UTF-8)"), X(" + 1")>>), FR("e", <<E("@ÿ", "invalid multibyte char (UTF-8)")>>),
  FR("e", <<E("@@aÿ", "invalid multibyte char (UTF-8)")>>), FR("e", <<E("$ÿ", "invalid multibyte char (UTF-8)")>>), FR("e", <<X(":"), E("aÃ", "invalid multibyte char (UTF-8)")>>), FR("e", <<E("?ÿ", "invalid multibyte char (UTF-8)")>>),
  FR("e", <<X("x."), E("aã", "invalid multibyte char (UTF-8)"), X("")>>),
  FR("e", <<E("0x", "numeric literal without digits")>>), FR("e", <<E("0b", "numeric literal without digits")>>), FR("e", <<E("0d", "numeric literal without digits")>>), FR("e", <<E("0o", "numeric literal without digits")>>), FR("e", <<E("0X", "numeric literal without digits"), X("g")>>), FR("e", <<E("0B", "numeric literal without digits"), X("2")>>), FR("e", <<E("0D", "numeric literal without digits"), X("_1")>>), FR("e", <<E("0O", "numeric literal without digits"), X("z")>>), FR("e", <<E("0o", "numeric literal without digits"), X("_7")>>), FR("e", <<E("0x", "numeric literal without digits"), X("_1")>>),
  FR("e", <<E("08", "Invalid octal digit")>>), FR("e", <<E("018", "Invalid octal digit")>>), FR("e", <<E("0_9", "Invalid octal digit")>>), FR("e", <<E("0o8", "Invalid octal digit")>>), FR("e", <<E("0o178", "Invalid octal digit")>>), FR("e", <<E("07_8", "Invalid octal digit")>>), FR("e", <<E("09", "Invalid octal digit"), X("1")>>),
  FR("e", <<X("1"), E("_", "trailing `_' in number")>>), FR("e", <<X("1"), E("_", "trailing `_' in number"), X(".2")>>), FR("e", <<X("1"), E("_", "trailing `_' in number"), X("e5")>>), FR("e", <<X("1"), E("_", "trailing `_' in number"), X("_2")>>), FR("e", <<X("0x1"), E("_", "trailing `_' in number")>>), FR("e", <<X("0b1"), E("_", "trailing `_' in number")>>), FR("e", <<X("0d1"), E("_", "trailing `_' in number")>>), FR("e", <<X("0o1"), E("_", "trailing `_' in number")>>), FR("e", <<X("01"), E("_", "trailing `_' in number")>>), FR("e", <<X("0"), E("_", "trailing `_' in number")>>), FR("e", <<X("1.5"), E("_", "trailing `_' in number")>>), FR("e", <<X("1.5"), E("_", "trailing `_' in number"), X("e3")>>), FR("e", <<X("1e5"), E("_", "trailing `_' in number")>>), FR("e", <<X("1e"), E("-", "trailing `-' in number")>>), FR("e", <<X("1e"), E("+", "trailing `+' in number"), X(" 2")>>), FR("e", <<X("1"), E("_", "trailing `_' in number"), X("r")>>), FR("e", <<X("1"), E("_", "trailing `_' in number"), X("...2")>>), FR("e", <<X("1"), E("_", "trailing `_' in number"), X(".a")>>),
  FR("e", <<X("1.2"), E(".3", "unexpected fraction part after numeric literal")>>), FR("e", <<X("1e2"), E(".3", "unexpected fraction part after numeric literal")>>), FR("e", <<X("1.2"), E(".3e4", "unexpected fraction part after numeric literal")>>), FR("e", <<E(".5", "no .<digit> floating literal anymore; put 0 before dot")>>), FR("e", <<X("a "), E(".5", "no .<digit> floating literal anymore; put 0 before dot")>>),
  FR("e", <<E("@1", "`@1' is not allowed as an instance variable name")>>), FR("e", <<E("@@2", "`@@2' is not allowed as a class variable name")>>), FR("e", <<E("$-", "`$-' is not allowed as a global variable name"), X(" ")>>), FR("e", <<E("$%", "`$%' is not allowed as a global variable name")>>), FR("e", <<E("@", "`@' without identifiers is not allowed as an instance variable name"), X(" a")>>), FR("e", <<E("@@", "`@@' without identifiers is not allowed as a class variable name"), X(" a")>>), FR("e", <<E("$", "`$' without identifiers is not allowed as a global variable name"), X(" a")>>),
  FR("e", <<X("\""), E("\\x", "invalid hex escape"), X("g\"")>>),
  FR("e", <<X("/a"), E("/z", "unknown regexp options - z")>>), FR("e", <<X("/a"), E("/ijq", "unknown regexp options - jq")>>), FR("e", <<X("%r{a"), E("}zx", "unknown regexp options - z")>>), FR("e", <<X("/a#{b}"), E("/y", "unknown regexp options - y")>>), FR("e", <<X("/a/imxounse")>>), FR("e", <<X("/a/mix.b")>>),
  FR("e", <<E("%a", "unknown type of %string"), X("a")>>), FR("e", <<E("%z", "unknown type of %string"), X("(a)")>>),
  FR("e", <<E("nil", "Can't assign to nil"), X(" = 1")>>), FR("e", <<E("self", "Can't change the value of self"), X(" = 1")>>), FR("e", <<E("true", "Can't assign to true"), X(" = 1")>>), FR("e", <<E("false", "Can't assign to false"), X(" += 1")>>), FR("e", <<E("__FILE__", "Can't assign to __FILE__"), X(" ||= 1")>>), FR("e", <<E("__LINE__", "Can't assign to __LINE__"), X(" = 1")>>), FR("s", <<X("a, "), E("__ENCODING__", "Can't assign to __ENCODING__"), X(" = 1")>>), FR("e", <<E("$1", "Can't set variable $1"), X(" = 1")>>), FR("e", <<E("$&", "Can't set variable $&"), X(" = 1")>>), FR("s", <<X("*"), E("$2", "Can't set variable $2"), X(" = 1")>>), FR("e", <<E("_1", "_1 is reserved for numbered parameter"), X(" = 1")>>), FR("s", <<X("a, (b, *"), E("nil", "Can't assign to nil"), X(") = 1")>>),
  FR("s", <<X("a"), E("&.", "&. inside multiple assignment destination"), X("b, c = 1")>>), FR("s", <<X("a, *b"), E("&.", "&. inside multiple assignment destination"), X("c = 1")>>), FR("s", <<X("a, (b, c"), E("&.", "&. inside multiple assignment destination"), X("d) = 1")>>),
  FR("s", <<X("def m(a, "), E("a", "duplicated argument name"), X("); end")>>), FR("s", <<X("def m(a, b = 1, *"), E("b", "duplicated argument name"), X("); end")>>), FR("s", <<X("def m(a, "), E("a", "duplicated argument name"), X(":); end")>>), FR("s", <<X("def m(a, **"), E("a", "duplicated argument name"), X("); end")>>), FR("s", <<X("def m(a, &"), E("a", "duplicated argument name"), X("); end")>>), FR("e", <<X("m { |a, (b, "), E("a", "duplicated argument name"), X(")| }")>>), FR("e", <<X("m { |a; b, "), E("a", "duplicated argument name"), X("| }")>>), FR("e", <<X("->(a, "), E("a", "duplicated argument name"), X(") { }")>>),
  FR("s", <<X("def m("), E("A", "formal argument cannot be a constant"), X("); end")>>), FR("s", <<X("def m(a, "), E("@a", "formal argument cannot be an instance variable"), X("); end")>>), FR("e", <<X("m { |"), E("$a", "formal argument cannot be a global variable"), X("| }")>>), FR("e", <<X("->("), E("@@a", "formal argument cannot be a class variable"), X(") { }")>>),
  FR("s", <<X("def m(a = "), E("a", "circular argument reference - a"), X("); end")>>), FR("s", <<X("def m(b: "), E("b", "circular argument reference - b"), X("); end")>>), FR("e", <<X("m { |p, q = "), E("q", "circular argument reference - q"), X("| }")>>), FR("e", <<X("->(q = [1, "), E("q", "circular argument reference - q"), X("]) { }")>>),
  FR("s", <<X("def m(*r, "), E("...", "... after rest argument"), X("); end")>>), FR("s", <<X("def m(a, *, "), E("...", "... after rest argument"), X("); end")>>),
  FR("e", <<X("m("), E("&", "no anonymous block parameter"), X(")")>>), FR("e", <<X("m(a, "), E("&", "no anonymous block parameter"), X(")")>>), FR("e", <<X("m("), E("...", "unexpected tBDOT3"), X(")")>>),
  FR("e", <<X("m("), E("&a", "both block arg and actual block given"), X(") { }")>>), FR("e", <<X("m(b, "), E("&a", "both block arg and actual block given"), X(") do end")>>), FR("e", <<X("x.m(b, "), E("&a.c", "both block arg and actual block given"), X(") { }")>>), FR("e", <<X("super("), E("&a", "both block arg and actual block given"), X(") { }")>>), FR("e", <<E("yield", "block given to yield"), X("(&a)")>>), FR("e", <<E("yield", "block given to yield"), X("(1, &a)")>>),
  FR("e", <<X("m { |a| "), E("_1", "ordinary parameter is defined"), X(" }")>>), FR("e", <<X("->(a) { "), E("_2", "ordinary parameter is defined"), X(" }")>>), FR("e", <<X("m { _1; n { "), E("_1", "numbered parameter is already used"), X(" } }")>>), FR("e", <<X("m { _1; "), E("_1", "Can't assign to numbered parameter _1"), X(" = 1 }")>>),
  FR("s", <<X("case a\nin {b: 1, "), E("b:", "duplicated key name"), X(" 2} then 1\nend")>>), FR("s", <<X("case a\nin [b, "), E("b", "duplicated variable name"), X("] then 1\nend")>>), FR("s", <<X("case a\nin ^"), E("nope", "nope: no such local variable"), X(" then 1\nend")>>),
  FR("s", <<X("case a\nin {"), E("\"a#{1}\":", "symbol literal with interpolation is not allowed"), X(" 1} then 1\nend")>>), FR("s", <<X("case a\nin {"), E("\"a#{1}\":", "symbol literal with interpolation is not allowed"), X("} then 1\nend")>>),
  FR("s", <<X("begin; 1; "), E("else", "else without rescue is useless"), X("; 2; end")>>), FR("s", <<X("begin; 1; "), E("else", "else without rescue is useless"), X("; 2; ensure; 3; end")>>),
  FR("s", <<X("def ("), E("1", "can't define singleton method for literals"), X(").m; end")>>), FR("s", <<X("def ("), E("\"a\"", "can't define singleton method for literals"), X(").m; end")>>), FR("s", <<X("def ("), E("[1]", "can't define singleton method for literals"), X(").m; end")>>), FR("s", <<X("def ("), E(":a", "can't define singleton method for literals"), X(").m = 1")>>),
  FR("s", <<X("def "), E("a=", "setter method cannot be defined in an endless method definition"), X("(p) = 1")>>), FR("s", <<X("def self."), E("a=", "setter method cannot be defined in an endless method definition"), X("(p) = 1")>>),
  FR("s", <<X("alias $a "), E("$1", "can't make alias for the number variables")>>),
  FR("c", <<X("def m; "), E("class", "class definition in method body"), X(" A; end; end")>>), FR("c", <<X("def m; "), E("module", "module definition in method body"), X(" A; end; end")>>), FR("c", <<X("def m; x { "), E("class", "class definition in method body"), X(" A; end }; end")>>), FR("c", <<X("class "), E("a", "class/module name must be CONSTANT"), X("; end")>>), FR("c", <<X("module "), E("a", "class/module name must be CONSTANT"), X("; end")>>), FR("c", <<X("class A; "), E("return", "Invalid return in class/module body"), X("; end")>>), FR("c", <<X("module A; b if c; "), E("return", "Invalid return in class/module body"), X(" 1; end")>>),
  FR("s", <<X("def m; "), E("A", "dynamic constant assignment"), X(" = 1; end")>>), FR("s", <<X("def m; "), E("A::B", "dynamic constant assignment"), X(" = 1; end")>>), FR("s", <<X("def m; x, "), E("B", "dynamic constant assignment"), X(" = 1; end")>>), FR("s", <<X("def m; "), E("::C", "dynamic constant assignment"), X(" = 1; end")>>),
  FR("s", <<X("if a; "), E("BEGIN", "BEGIN is permitted only at toplevel"), X(" { }; end")>>), FR("s", <<X("x { "), E("BEGIN", "BEGIN is permitted only at toplevel"), X(" { } }")>>),
  FR("s", <<X("def m; x = "), E("return", "void value expression"), X("; end")>>), FR("s", <<X("while true; x = "), E("break", "void value expression"), X("; end")>>), FR("s", <<X("def m; x = ("), E("return", "void value expression"), X("); end")>>), FR("s", <<X("def m; x = if a then "), E("return", "void value expression"), X(" else return end; end")>>),
  FR("e", <<X("a == b "), E("==", "unexpected tEQ"), X(" c")>>), FR("e", <<X("a <=> b "), E("<=>", "unexpected tCMP"), X(" c")>>), FR("e", <<X("a..b"), E("..", "unexpected tDOT2"), X("c")>>), FR("s", <<X("a.b "), X("1 "), E("2", "unexpected tINTEGER")>>), FR("s", <<X("a b: 1, "), E("=>", "unexpected tASSOC"), X(" 2")>>)
>>
Uns == <<
  FR("u", <<X("\"a"), E("", "unterminated string meets end of file")>>), FR("u", <<X("'a"), E("", "unterminated string meets end of file")>>), FR("u", <<X("`a"), E("", "unterminated string meets end of file")>>), FR("u", <<X("%(a"), E("", "unterminated string meets end of file")>>), FR("u", <<X("%q[a"), E("", "unterminated string meets end of file")>>), FR("u", <<X("%x(a"), E("", "unterminated string meets end of file")>>), FR("u", <<X(":\"a"), E("", "unterminated string meets end of file")>>), FR("u", <<X("%s(a"), E("", "unterminated string meets end of file")>>), FR("u", <<X("\"a#{b}"), E("", "unterminated string meets end of file")>>), FR("u", <<X("\"a\\\""), E("", "unterminated string meets end of file")>>),
  FR("u", <<X("/a"), E("", "unterminated regexp meets end of file")>>), FR("u", <<X("%r{a"), E("", "unterminated regexp meets end of file")>>), FR("u", <<X("/a#{b}\\/"), E("", "unterminated regexp meets end of file")>>), FR("u", <<X("%w[a"), E("", "unterminated list meets end of file")>>), FR("u", <<X("%W[a b"), E("", "unterminated list meets end of file")>>), FR("u", <<X("%i[a b "), E("", "unterminated list meets end of file")>>), FR("u", <<X("%I(a b#{c}"), E("", "unterminated list meets end of file")>>), FR("u", <<X("%w(a (b)"), E("", "unterminated list meets end of file")>>),
  FR("u", <<E("%", "unterminated quoted string meets end of file")>>), FR("u", <<E("%w", "unterminated quoted string meets end of file")>>), FR("u", <<E("%Q", "unterminated quoted string meets end of file")>>),
  FR("u", <<X("<<"), E("A", "can't find string \"A\" anywhere before EOF")>>), FR("u", <<X("<<"), E("A", "can't find string \"A\" anywhere before EOF"), X("\nx\n")>>), FR("u", <<X("<<~"), E("A", "can't find string \"A\" anywhere before EOF"), X("\n  x\n A B\n")>>), FR("u", <<X("<<-"), E("'A'", "can't find string \"A\" anywhere before EOF"), X("\n  x\n")>>), FR("u", <<X("<<"), E("\"A B\"", "can't find string \"A B\" anywhere before EOF"), X(".m\n#{1}\n")>>), FR("u", <<E("<<\"A", "unterminated here document identifier")>>), FR("u", <<E("<<-'A B", "unterminated here document identifier")>>), FR("u", <<E("<<~`A", "unterminated here document identifier")>>),
  FR("u", <<E("?", "incomplete character syntax")>>), FR("U", <<X("1\n"), E("=begin", "embedded document meets end of file"), X("\nx\n")>>), FR("U", <<X("1\n"), E("=begin", "embedded document meets end of file"), X(" y")>>),
  FR("u", <<X("(a"), E("", "unexpected END_OF_INPUT")>>), FR("u", <<X("[a, "), E("", "unexpected END_OF_INPUT")>>), FR("u", <<X("{a: 1"), E("", "unexpected END_OF_INPUT")>>), FR("u", <<X("m { a"), E("", "unexpected END_OF_INPUT")>>), FR("u", <<X("if a"), E("", "unexpected END_OF_INPUT")>>), FR("u", <<X("def m"), E("", "unexpected END_OF_INPUT")>>), FR("u", <<X("m do"), E("", "unexpected END_OF_INPUT")>>), FR("u", <<X("1 +"), E("", "unexpected END_OF_INPUT")>>), FR("u", <<X("a ="), E("", "unexpected END_OF_INPUT")>>), FR("u", <<X("a."), E("", "unexpected END_OF_INPUT")>>), FR("u", <<X("case a"), E("", "unexpected END_OF_INPUT")>>), FR("u", <<X("\"#{a"), E("", "unexpected END_OF_INPUT")>>)
>>
Rows == CASE Set = "warn" -> Warns [] Set = "err" -> Errs [] Set = "un" -> Uns [] Set = "dots" -> DotsW [] OTHER -> <<>>
(* the constructs around a fragment: text before and after, the class of fragment that can stand there, the class of the whole, whether it puts the fragment between brackets *)
Wr(w) == CASE w = "" -> <<"", "", "c", "c", FALSE>>
  [] w = "after" -> <<"w\n", "", "c", "c", FALSE>>
  [] w = "utf" -> <<"# Ã©\n\"ã\"; ", "", "c", "c", FALSE>>
  [] w = "nl" -> <<"\n\n  ", "\n\n", "c", "c", FALSE>>
  [] w = "crlf" -> <<"w\r\n", "\r\n", "c", "c", FALSE>>
  [] w = "semi" -> <<"w; ", "; v", "c", "c", FALSE>>
  [] w = "cmt" -> <<"", " # x", "c", "x", FALSE>>
  [] w = "end" -> <<"", "\n__END__\n@1 \"", "c", "x", FALSE>>
  [] w = "def" -> <<"def w; ", "; end", "s", "s", FALSE>>
  [] w = "class" -> <<"class W; ", "; end", "c", "c", FALSE>>
  [] w = "sclass" -> <<"class << W; ", "; end", "c", "c", FALSE>>
  [] w = "if" -> <<"if w; ", "; end", "c", "e", FALSE>>
  [] w = "else" -> <<"unless w; v; else; ", "; end", "c", "e", FALSE>>
  [] w = "while" -> <<"while w; ", "; end", "c", "e", FALSE>>
  [] w = "when" -> <<"case w; when v; ", "; end", "c", "e", FALSE>>
  [] w = "in" -> <<"case w; in v; ", "; end", "c", "e", FALSE>>
  [] w = "begin" -> <<"begin; ", "; end", "c", "e", FALSE>>
  [] w = "rescue" -> <<"begin; w; rescue W; ", "; end", "c", "e", FALSE>>
  [] w = "ensure" -> <<"begin; w; ensure; ", "; end", "c", "e", FALSE>>
  [] w = "brace" -> <<"w { ", " }", "s", "e", TRUE>>
  [] w = "do" -> <<"w do ", " end", "s", "e", FALSE>>
  [] w = "lambda" -> <<"-> { ", " }", "s", "e", TRUE>>
  [] w = "paren" -> <<"(", ")", "s", "e", TRUE>>
  [] w = "dstr" -> <<"\"w#{", "}\"", "s", "e", FALSE>>
  [] w = "pct" -> <<"%w[a]; %Q(w#{", "}v)", "s", "s", FALSE>>
  [] w = "hd" -> <<"w <<A\n#{", "}\nA\n", "s", "c", FALSE>>
  [] w = "asgn" -> <<"w = ", "", "e", "e", FALSE>>
  [] w = "arg" -> <<"w(", ")", "e", "e", TRUE>>
  [] w = "arr" -> <<"[v, ", "]", "e", "e", TRUE>>
  [] w = "hash" -> <<"{k: ", "}", "e", "e", TRUE>>
  [] w = "idx" -> <<"w[", "]", "e", "e", TRUE>>
  [] w = "plus" -> <<"w + ", "", "e", "e", FALSE>>
  [] w = "and" -> <<"w && ", "", "e", "e", FALSE>>
  [] w = "kwand" -> <<"w and ", "", "e", "s", FALSE>>
  [] w = "cond" -> <<"if ", "\nw; end", "e", "e", FALSE>>
  [] w = "def=" -> <<"def w() = (", ")", "s", "s", TRUE>>
  [] w = "opt" -> <<"def w(u = ", "); end", "e", "s", TRUE>>
Ord(q) == CASE q = "e" -> 1 [] q = "s" -> 2 [] q = "c" -> 3 [] q = "x" -> 4
Unt(cls) == cls \in {"u", "U"}
Base(cls) == IF cls = "u" THEN "e" ELSE IF cls = "U" THEN "s" ELSE cls
Fits(w, cls, unt) == Ord(cls) <= Ord(Wr(w)[3]) /\ (unt => w \notin {"end", "cmt", "hd", "crlf"})
RECURSIVE Marks(_, _)
Marks(ps, o) == IF ps = <<>> THEN <<>> ELSE LET r == Marks(Tail(ps), o + Len(Head(ps)[1])) IN IF Len(Head(ps)) = 3 THEN << <<Head(ps)[2], Head(ps)[3], o, o + Len(Head(ps)[1])>> >> \o r ELSE r
RECURSIVE TextOf(_)
TextOf(ps) == IF ps = <<>> THEN "" ELSE Head(ps)[1] \o TextOf(Tail(ps))
RECURSIVE Pre(_)
Pre(w) == IF w = <<>> THEN "" ELSE Pre(Tail(w)) \o Wr(Head(w))[1]
RECURSIVE Post(_)
Post(w) == IF w = <<>> THEN "" ELSE Wr(Head(w))[2] \o Post(Tail(w))
ClsOf(cls, w) == IF w = <<>> THEN cls ELSE Wr(w[Len(w)])[4]
Bracketed == \E i \in DOMAIN ws : Wr(ws[i])[5]
Show(m) == m[1] \o " " \o m[2] \o "@" \o ToString(m[3]) \o "-" \o ToString(m[4])
Show1(m) == m[2] \o "@" \o ToString(m[3]) \o "-" \o ToString(m[4])
Sel(ms, lv) == SelectSeq(ms, LAMBDA m : m[1] = lv)
Case(src, ms) ==
  LET es == Sel(ms, "error")
  IN IF es = <<>> THEN Out([s |-> src, M |-> [i \in DOMAIN ms |-> Show(ms[i])], once |-> TRUE])
     ELSE Out([s |-> src, E1 |-> Show1(es[1]), ok |-> FALSE, once |-> TRUE])
Emit1 == LET r == Rows[f]
             pre == Pre(ws)
             ms0 == Marks(r.ps, Len(pre))
             ms == IF Set = "dots" /\ Bracketed THEN <<>> ELSE ms0
         IN Case(pre \o TextOf(r.ps) \o (IF Unt(r.cls) THEN "" ELSE Post(ws)), ms)
Emit2 == LET r == Rows[f]  q == Rows[g]
             pre == Pre(ws)
             t1 == TextOf(r.ps)
             ms == Marks(r.ps, Len(pre)) \o Marks(q.ps, Len(pre) + Len(t1) + 2)
         IN Case(pre \o t1 \o ";\n" \o TextOf(q.ps) \o (IF Unt(q.cls) THEN "" ELSE Post(ws)), IF Set = "dots" /\ Bracketed THEN <<>> ELSE ms)
(* duplicate keys: two keys are the same when their kinds and values are; a quoted label is a symbol *)
DupMsg == "key is duplicated and overwritten"
Key(k) == CASE k = "a:" -> <<"", "a", ": 1", "sym a">> [] k = "b:" -> <<"", "b", ": 1", "sym b">> [] k = "qa:" -> <<"", "\"a\"", ": 1", "sym a">> [] k = "sa:" -> <<"", "'a'", ": 1", "sym a">> [] k = ":a" -> <<"", ":a", " => 1", "sym a">> [] k = ":qa" -> <<"", ":\"a\"", " => 1", "sym a">> [] k = ":b" -> <<"", ":b", "=>1", "sym b">>
  [] k = "qs" -> <<"", "\"a\"", " => 1", "str a">> [] k = "'a'" -> <<"", "'a'", " => 1", "str a">> [] k = "qsb" -> <<"", "\"b\"", " => 1", "str b">> [] k = "?a" -> <<"", "?a", " => 1", "str a">> [] k = "%(a)" -> <<"", "%(a)", " => 1", "str a">>
  [] k = "1" -> <<"", "1", " => 1", "int 1">> [] k = "2" -> <<"", "2", " => 1", "int 2">> [] k = "-1" -> <<"", "-1", " => 1", "int -1">> [] k = "1.0" -> <<"", "1.0", " => 1", "flo 1.0">> [] k = "1r" -> <<"", "1r", " => 1", "rat 1r">> [] k = "1i" -> <<"", "1i", " => 1", "com 1i">> [] k = "2.5" -> <<"", "2.5", " => 1", "flo 2.5">>
  [] k = "/a/" -> <<"", "/a/", " => 1", "re a">> [] k = "%r{a}" -> <<"", "%r{a}", " => 1", "re a">> [] k = "/a/i" -> <<"", "/a/i", " => 1", "re a i">> [] k = "/b/" -> <<"", "/b/", " => 1", "re b">>
  [] k = "m" -> <<"", "m", " => 1", "">> [] k = "m()" -> <<"", "m()", " => 1", "">> [] k = "A" -> <<"", "A", " => 1", "">> [] k = "**h" -> <<"", "**h", "", "">> [] k = "nil" -> <<"", "nil", " => 1", "">> [] k = "[1]" -> <<"", "[1]", " => 1", "">> [] k = "{a: 1}" -> <<"", "{a: 1}", " => 1", "">> [] k = "dstr" -> <<"", "\"a#{b}\"", " => 1", "">> [] k = "1+1" -> <<"", "1 + 1", " => 1", "">>
RECURSIVE KeyParts(_, _)
KeyParts(i, n) == IF i > n THEN <<>> ELSE LET k == Key(ks[i])  dup == k[4] # "" /\ \E j \in 1..(i - 1) : Key(ks[j])[4] = k[4]
  IN <<X(IF i = 1 THEN "" ELSE ", "), IF dup THEN W(k[2], DupMsg) ELSE X(k[2]), X(k[3])>> \o KeyParts(i + 1, n)
KeyCtx == << <<"{", "}">>, <<"m(", ")">>, <<"m(1, ", ")">>, <<"x.m 0, ", "">>, <<"[", "]">>, <<"x[", "]">>, <<"super(", ")">>, <<"yield(", ")">>, <<"x = {", "}">>, <<"m(a: {", "}, b: 1)">>, <<"m { {", "} }">>, <<"\"#{{", "}}\"">>, <<"x[", "] += 1">>, <<"m!(", ") { |p| p }">>, <<"x.(", ")">>, <<"->(p = {", "}) { p }">> >>
EmitK == \A i \in DOMAIN KeyCtx : LET ps == KeyParts(1, Len(ks)) IN Case(KeyCtx[i][1] \o TextOf(ps) \o KeyCtx[i][2], Marks(ps, Len(KeyCtx[i][1])))
Emit == IF Set = "keys" THEN ks # <<>> => EmitK ELSE IF g = 0 THEN Emit1 ELSE Emit2
Init == /\ f \in (IF Set = "keys" THEN {1} ELSE DOMAIN Rows)
        /\ g \in {0} \cup (IF Second /\ Set # "keys" THEN {j \in DOMAIN Rows : ~Unt(Rows[f].cls)} ELSE {})
        /\ ws = <<>> /\ ks = <<>>
Next == \/ /\ Set = "keys" /\ Len(ks) < MaxKeys /\ \E k \in Keys : ks' = Append(ks, k) /\ UNCHANGED <<f, g, ws>>
        \/ /\ Set # "keys" /\ Len(ws) < MaxDepth
           /\ LET cl == IF g = 0 THEN Base(Rows[f].cls) ELSE IF "c" \in {Rows[f].cls, Rows[g].cls} THEN "c" ELSE "s"
              IN \E w \in Wrap : (w \in {"def", "def=", "opt"} => cl # "c" /\ \A i \in DOMAIN ws : ws[i] \notin {"class", "sclass"}) /\ Fits(w, ClsOf(cl, ws), Unt(Rows[IF g = 0 THEN f ELSE g].cls)) /\ ws' = Append(ws, w)
           /\ UNCHANGED <<f, g, ks>>
=============================================================================
