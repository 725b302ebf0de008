------------------------------ MODULE Newline -------------------------------
(* C23.  Where statements end.  A construct is a template with gaps between its tokens, and every gap *)
(* has a class saying what may stand there without ending the statement:                              *)
(*   A  newlines are ignored (after operators, commas, dots, opening brackets ...)                    *)
(*   a  the same, and nothing at all is fine too                                                      *)
(*   B  only blanks and continued lines                  b  the same, or nothing                      *)
(*   C  before a leading dot: newlines and comment lines, but no empty line                           *)
(*   D  here the statement (or header) does end: a newline or `;' is required                         *)
(* The machine fills the gaps of a template one by one; at most MaxOdd of them with unusual text.     *)
EXTENDS Ruby
CONSTANTS Mode, Tpls, MaxOdd, Wrs, Tails, FirstFrom, FirstTo
VARIABLES k, g, odd, w

Fill(cl) == CASE cl = "A" -> {" ", "\n", "\r\n", "\n\n", " # c\n", " \\\n ", "\n  # c\n\n", "\n=begin\nx\n=end\n", "\t\n ", "\n\r\n"}
             [] cl = "a" -> {"", " ", "\n", "\r\n", "\n\n", " # c\n", " \\\n ", "\\\n", "\n  # c\n\n", "\n=begin\nx\n=end\n", "\t\n "}
             [] cl = "B" -> {" ", "  ", "\t", " \\\n ", "\\\n", "\\\r\n", " \\\n \\\n"}
             [] cl = "b" -> {"", " ", "\t", " \\\n ", "\\\n", "\\\r\n"}
             [] cl = "C" -> {"", " ", "\n", "\n  ", "\r\n ", "\n# c\n", " # c\n  ", "\n  # c\n# d\n\t", " # c\r\n", "\\\n", " \\\n "}
             [] cl = "D" -> {"\n", ";", "; ", " ;", "\n\n", "\r\n", ";\n", "\n;", " # c\n", ";;", "\n=begin\nx\n=end\n", " \n\t\n", "\r\n\r\n"}
             [] cl = "E" -> {"\n", ";", "; ", " ;", "\n\n", "\r\n", ";\n", " # c\n"}
             [] cl = "N" -> {"\n", "\n\n", "\r\n", " # c\n", "\n=begin\nx\n=end\n"}
Dflt(cl) == CASE cl \in {"A", "B"} -> " " [] cl \in {"a", "b", "C"} -> "" [] OTHER -> "\n"

Gaps(t) ==
  CASE t \in {"plus", "minus", "mul", "pow", "eq", "lt", "and2", "or2", "shl", "match", "ne", "pipe", "amp", "xor", "mod", "div", "cmp"} -> <<"B", "A">>
    [] t \in {"and", "or", "range", "asgn", "opasgn", "orasgn", "iasgn", "attr", "xasgn", "rmod", "ifmod", "unlessmod", "whilemod", "mpat", "mpatp", "casgn"} -> <<"B", "A">>
    [] t \in {"not", "defined", "alias", "undef", "endless", "ter", "masgn"} -> <<"A", "A", "A", "A">>
    [] t = "bang" -> <<"a">> [] t = "neg" -> <<"a">>
    [] t = "call" -> <<"a", "b", "a", "a">> [] t = "callc" -> <<"a", "b", "a">> [] t = "arr" -> <<"a", "b", "a", "a">> [] t = "arrc" -> <<"a", "b", "a">>
    [] t = "hash" -> <<"a", "B", "A", "b", "a", "A", "a">> [] t = "index" -> <<"a", "a">> [] t = "par" -> <<"a", "a">> [] t = "par2" -> <<"a", "D", "a">>
    [] t = "dot" -> <<"C", "a">> [] t = "sdot" -> <<"C", "a">> [] t = "dot2" -> <<"C", "C", "a">> [] t = "ddot" -> <<"C">> [] t = "colon" -> <<"b", "a">> [] t = "pdot" -> <<"C">> [] t = "bdot" -> <<"C">>
    [] t = "ldot" -> <<"B", "A", "C">> [] t = "cdot" -> <<"B", "C">> [] t = "idot" -> <<"C">> [] t = "edot" -> <<"D", "C">> [] t = "sdotS" -> <<"C">> [] t = "opdot" -> <<"B", "A", "C">>
    [] t = "cmd" -> <<"B", "b", "A">> [] t = "kwcmd" -> <<"B", "A">> [] t = "splat" -> <<"b", "a", "a">> [] t = "bpass" -> <<"a", "a">>
    [] t = "def" -> <<"A", "D", "D", "D">> [] t = "defp" -> <<"A", "a", "b", "a", "b", "a", "a", "D">> [] t = "class" -> <<"A", "B", "A", "D", "D">> [] t = "module" -> <<"A", "D", "D">> [] t = "sclass" -> <<"b", "A", "D", "D">>
    [] t = "if" -> <<"A", "D", "D", "A", "D">> [] t = "ifthen" -> <<"A", "B", "A", "D">> [] t = "ifthen2" -> <<"A", "E", "A", "D">> [] t = "while" -> <<"A", "D", "D">> [] t = "whiledo" -> <<"A", "B", "A", "D">>
    [] t = "for" -> <<"A", "B", "A", "D", "D">> [] t = "case" -> <<"A", "D", "A", "b", "A", "D", "D">> [] t = "casein" -> <<"A", "D", "A", "D", "D">> [] t = "inlabel" -> <<"A", "D", "N", "D">>
    [] t = "begin" -> <<"A", "D", "D", "A", "D">> [] t = "ensure" -> <<"A", "D", "A", "D">> [] t = "rescueK" -> <<"A", "D", "B", "D", "D">>
    [] t = "brace" -> <<"b", "a", "a", "b", "A", "A", "a">> [] t = "do" -> <<"B", "A", "b", "A", "D">> [] t = "lam" -> <<"a", "a", "b", "a", "a">> [] t = "lamdo" -> <<"B", "A", "D">>
    [] t = "interp" -> <<"a", "a">> [] t = "interp2" -> <<"a", "D", "a">> [] t = "concat" -> <<"B">> [] t = "return" -> <<"B", "b", "A">> [] t = "END" -> <<"B", "a", "a">> [] t = "super" -> <<"a", "a">> [] t = "yield" -> <<"B">>
    [] t = "kwdef" -> <<"B", "N", "D">> [] t = "regs" -> <<"A", "B">>
Op(m, x) == C(2, "Send", <<c, T(x[1]), K("selector_l", m), T(x[2]), b>>, <<P(1), S(m), PL(<<5>>)>>)
In2(ty, kw, x) == C(3, ty, <<a, T(x[1]), K("operator_l", kw), T(x[2]), b>>, <<P(1), P(5)>>)
SendA == Id("a")
Dotted(r, x1, d, x2, m) == C(1, IF d = "&." THEN "CSend" ELSE "Send", <<r, T(x1), K("dot_l", d), T(x2), K("selector_l", m)>>, <<P(1), S(m), Empty>>)
ArgN(p) == C(1, "Arg", <<T(p)>>, <<S(p)>>)
Tp(t, x) ==
  CASE t = "plus" -> Op("+", x) [] t = "minus" -> Op("-", x) [] t = "mul" -> Op("*", x) [] t = "pow" -> Op("**", x) [] t = "eq" -> Op("==", x) [] t = "lt" -> Op("<", x)
    [] t = "shl" -> Op("<<", x) [] t = "match" -> Op("=~", x) [] t = "ne" -> Op("!=", x) [] t = "pipe" -> Op("|", x) [] t = "amp" -> Op("&", x) [] t = "xor" -> Op("^", x) [] t = "mod" -> Op("%", x) [] t = "div" -> Op("/", x) [] t = "cmp" -> Op("<=>", x)
    [] t = "and2" -> In2("And", "&&", x) [] t = "or2" -> In2("Or", "||", x) [] t = "and" -> In2("And", "and", x) [] t = "or" -> In2("Or", "or", x)
    [] t = "range" -> C(2, "Irange", <<b, T(x[1]), K("operator_l", ".."), T(x[2]), a>>, <<P(1), P(5)>>)
    [] t = "asgn" -> C(2, "Lvasgn", <<K("name_l", "v"), T(x[1]), K("operator_l", "="), T(x[2]), a>>, <<S("v"), P(5)>>)
    [] t = "iasgn" -> C(2, "Ivasgn", <<K("name_l", "@v"), T(x[1]), K("operator_l", "="), T(x[2]), a>>, <<S("@v"), P(5)>>)
    [] t = "casgn" -> C(2, "Casgn", <<K("name_l", "V"), T(x[1]), K("operator_l", "="), T(x[2]), a>>, <<Nil, S("V"), P(5)>>)
    [] t = "opasgn" -> C(2, "OpAsgn", <<LvT("v"), T(x[1]), K("operator_l", "+="), T(x[2]), a>>, <<P(1), S("+"), P(5)>>)
    [] t = "orasgn" -> C(2, "OrAsgn", <<LvT("v"), T(x[1]), K("operator_l", "||="), T(x[2]), a>>, <<P(1), P(5)>>)
    [] t = "attr" -> C(2, "Send", <<a, K("dot_l", "."), K("selector_l", "m"), T(x[1]), K("operator_l", "="), T(x[2]), b>>, <<P(1), S("m="), PL(<<7>>)>>)
    [] t = "xasgn" -> C(2, "IndexAsgn", <<a, K("begin_l", "["), b, K("end_l", "]"), T(x[1]), K("operator_l", "="), T(x[2]), c>>, <<P(1), PL(<<3>>), P(8)>>)
    [] t = "masgn" -> C(4, "Masgn", <<C(4, "Mlhs", <<LvT("v"), T(","), T(x[1]), LvT("w")>>, <<PL(<<1, 4>>)>>), Sp, K("operator_l", "="), T(x[2]), C(2, "Array", <<a, T(","), T(x[3]), SplatN(b)>>, <<PL(<<1, 4>>)>>)>>, <<P(1), P(5)>>)
    [] t = "rmod" -> C(4, "Rescue", <<a, T(x[1]), C(4, "RescueBody", <<K("keyword_l", "rescue"), T(x[2]), b>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<3>>), Nil>>)
    [] t = "ifmod" -> C(4, "IfMod", <<a, T(x[1]), K("keyword_l", "if"), T(x[2]), b>>, <<P(5), P(1), Nil>>)
    [] t = "unlessmod" -> C(4, "IfMod", <<a, T(x[1]), K("keyword_l", "unless"), T(x[2]), b>>, <<P(5), Nil, P(1)>>)
    [] t = "whilemod" -> C(4, "While", <<a, T(x[1]), K("keyword_l", "while"), T(x[2]), b>>, <<P(5), P(1)>>)
    [] t = "mpat" -> C(3, "MatchPattern", <<a, T(x[1]), K("operator_l", "=>"), T(x[2]), b>>, <<P(1), P(5)>>)
    [] t = "mpatp" -> C(3, "MatchPatternP", <<a, T(x[1]), K("operator_l", "in"), T(x[2]), b>>, <<P(1), P(5)>>)
    [] t = "not" -> C(3, "Send", <<K("selector_l", "not"), T(x[1]), a>>, <<P(3), S("!"), Empty>>)
    [] t = "defined" -> C(2, "Defined", <<K("keyword_l", "defined?"), T(x[1]), a>>, <<P(3)>>)
    [] t = "alias" -> C(4, "Alias", <<K("keyword_l", "alias"), T(x[1]), BareSym("m"), T(x[2]), BareSym("n")>>, <<P(3), P(5)>>)
    [] t = "undef" -> C(4, "Undef", <<K("keyword_l", "undef"), T(x[1]), BareSym("m"), T(","), T(x[2]), BareSym("n")>>, <<PL(<<3, 6>>)>>)
    [] t = "endless" -> C(2, "Def", <<K("keyword_l", "def"), T(x[1]), K("name_l", "m"), Sp, K("assignment_l", "="), T(x[2]), a>>, <<S("m"), Nil, P(7)>>)
    [] t = "ter" -> C(2, "IfTernary", <<a, Sp, K("question_l", "?"), T(x[1]), b, T(x[2]), K("colon_l", ":"), T(x[3]), c>>, <<P(1), P(5), P(9)>>)
    [] t = "bang" -> C(2, "Send", <<K("selector_l", "!"), T(x[1]), a>>, <<P(3), S("!"), Empty>>)
    [] t = "neg" -> C(2, "Send", <<K("selector_l", "-"), T(x[1]), a>>, <<P(3), S("-@"), Empty>>)
    [] t = "call" -> C(1, "Send", <<K("selector_l", "m"), K("begin_l", "("), T(x[1]), a, T(x[2]), T(","), T(x[3]), b, T(x[4]), K("end_l", ")")>>, <<Nil, S("m"), PL(<<4, 8>>)>>)
    [] t = "callc" -> C(1, "Send", <<K("selector_l", "m"), K("begin_l", "("), T(x[1]), a, T(x[2]), T(","), T(x[3]), K("end_l", ")")>>, <<Nil, S("m"), PL(<<4>>)>>)
    [] t = "arr" -> C(1, "Array", <<K("begin_l", "["), T(x[1]), a, T(x[2]), T(","), T(x[3]), b, T(x[4]), K("end_l", "]")>>, <<PL(<<3, 7>>)>>)
    [] t = "arrc" -> C(1, "Array", <<K("begin_l", "["), T(x[1]), a, T(x[2]), T(","), T(x[3]), K("end_l", "]")>>, <<PL(<<3>>)>>)
    [] t = "hash" -> C(1, "Hash", <<K("begin_l", "{"), T(x[1]), C(2, "Pair", <<b, T(x[2]), K("operator_l", "=>"), T(x[3]), a>>, <<P(1), P(5)>>), T(x[4]), T(","), T(x[5]), C(2, "Pair", <<BareSym("k"), K("operator_l", ":"), T(x[6]), c>>, <<P(1), P(4)>>), T(x[7]), K("end_l", "}")>>, <<PL(<<3, 7>>)>>)
    [] t = "index" -> C(1, "Index", <<a, K("begin_l", "["), T(x[1]), b, T(x[2]), K("end_l", "]")>>, <<P(1), PL(<<4>>)>>)
    [] t = "par" -> C(1, "Begin", <<K("begin_l", "("), T(x[1]), a, T(x[2]), K("end_l", ")")>>, <<PL(<<3>>)>>)
    [] t = "par2" -> C(1, "Begin", <<K("begin_l", "("), T(x[1]), a, T(x[2]), b, T(x[3]), K("end_l", ")")>>, <<PL(<<3, 5>>)>>)
    [] t = "dot" -> Dotted(a, x[1], ".", x[2], "m") [] t = "sdot" -> Dotted(a, x[1], "&.", x[2], "m") [] t = "dot2" -> Dotted(Dotted(c, x[1], ".", "", "m"), x[2], "&.", x[3], "n")
    [] t = "ddot" -> C(3, "Send", <<kN, T(x[1]), K("dot_l", "."), K("selector_l", "m"), Sp, b>>, <<P(1), S("m"), PL(<<6>>)>>)
    [] t = "colon" -> C(1, "Const", <<c, T(x[1]), K("double_colon_l", "::"), T(x[2]), K("name_l", "M")>>, <<P(1), S("M")>>)
    [] t = "pdot" -> Dotted(Call1("m", a), x[1], ".", "", "n") [] t = "idot" -> Dotted(IntN("1"), x[1], ".", "", "n") [] t = "sdotS" -> Dotted(StrN("\"", "s", "\""), x[1], ".", "", "if")
    [] t = "bdot" -> Dotted(C(1, "Block", <<Id("m"), Sp, K("begin_l", "{"), T("\n"), a, T("\n"), K("end_l", "}")>>, <<P(1), Nil, P(5)>>), x[1], ".", "", "n")
    [] t = "edot" -> Dotted(C(1, "If", <<K("keyword_l", "if"), Sp, a, Sp, K("begin_l", "then"), Sp, b, T(x[1]), K("end_l", "end")>>, <<P(3), P(7), Nil>>), x[2], ".", "", "n")
    [] t = "ldot" -> C(2, "Lvasgn", <<K("name_l", "v"), T(x[1]), K("operator_l", "="), T(x[2]), Dotted(a, x[3], ".", "", "m")>>, <<S("v"), P(5)>>)
    [] t = "opdot" -> C(2, "Send", <<c, T(x[1]), K("selector_l", "+"), T(x[2]), Dotted(c, x[3], ".", "", "m")>>, <<P(1), S("+"), PL(<<5>>)>>)
    [] t = "cdot" -> C(3, "Send", <<K("selector_l", "m"), T(x[1]), Dotted(c, x[2], "&.", "", "n")>>, <<Nil, S("m"), PL(<<3>>)>>)
    [] t = "cmd" -> C(3, "Send", <<K("selector_l", "m"), T(x[1]), a, T(x[2]), T(","), T(x[3]), b>>, <<Nil, S("m"), PL(<<3, 7>>)>>)
    [] t = "kwcmd" -> C(3, "Send", <<K("selector_l", "m"), T(x[1]), Kws(C(2, "Pair", <<BareSym("k"), K("operator_l", ":"), T(x[2]), a>>, <<P(1), P(4)>>))>>, <<Nil, S("m"), PL(<<3>>)>>)
    [] t = "splat" -> C(1, "Send", <<K("selector_l", "m"), K("begin_l", "("), T(x[1]), C(2, "Splat", <<K("operator_l", "*"), T(x[2]), a>>, <<P(3)>>), T(x[3]), K("end_l", ")")>>, <<Nil, S("m"), PL(<<4>>)>>)
    [] t = "bpass" -> C(1, "Send", <<K("selector_l", "m"), K("begin_l", "("), C(2, "BlockPass", <<K("operator_l", "&"), T(x[1]), a>>, <<P(3)>>), T(x[2]), K("end_l", ")")>>, <<Nil, S("m"), PL(<<3>>)>>)
    [] t = "def" -> C(1, "Def", <<K("keyword_l", "def"), T(x[1]), K("name_l", "m"), T(x[2]), C(4, "Begin", <<a, T(x[3]), b>>, <<PL(<<1, 3>>)>>), T(x[4]), K("end_l", "end")>>, <<S("m"), Nil, P(5)>>)
    [] t = "defp" -> C(1, "Def", <<K("keyword_l", "def"), T(x[1]), K("name_l", "m"), C(1, "Args", <<K("begin_l", "("), T(x[2]), ArgN("p"), T(x[3]), T(","), T(x[4]), C(2, "Optarg", <<K("name_l", "q"), T(x[5]), K("operator_l", "="), T(x[6]), b>>, <<S("q"), P(5)>>), T(x[7]), K("end_l", ")")>>, <<PL(<<3, 7>>)>>), T(x[8]), K("end_l", "end")>>, <<S("m"), P(4), Nil>>)
    [] t = "class" -> C(1, "Class", <<K("keyword_l", "class"), T(x[1]), kN, T(x[2]), K("operator_l", "<"), T(x[3]), a, T(x[4]), b, T(x[5]), K("end_l", "end")>>, <<P(3), P(7), P(9)>>)
    [] t = "module" -> C(1, "Module", <<K("keyword_l", "module"), T(x[1]), kN, T(x[2]), b, T(x[3]), K("end_l", "end")>>, <<P(3), P(5)>>)
    [] t = "sclass" -> C(1, "SClass", <<K("keyword_l", "class"), T(x[1]), K("operator_l", "<<"), T(x[2]), a, T(x[3]), b, T(x[4]), K("end_l", "end")>>, <<P(5), P(7)>>)
    [] t = "if" -> C(1, "If", <<K("keyword_l", "if"), T(x[1]), a, T(x[2]), b, T(x[3]), K("else_l", "else"), T(x[4]), c, T(x[5]), K("end_l", "end")>>, <<P(3), P(5), P(9)>>)
    [] t = "ifthen" -> C(1, "If", <<K("keyword_l", "unless"), T(x[1]), a, T(x[2]), K("begin_l", "then"), T(x[3]), b, T(x[4]), K("end_l", "end")>>, <<P(3), Nil, P(7)>>)
    [] t = "ifthen2" -> C(1, "If", <<K("keyword_l", "if"), T(x[1]), a, T(x[2]), K("begin_l", "then"), T(x[3]), b, T(x[4]), K("end_l", "end")>>, <<P(3), P(7), Nil>>)
    [] t = "while" -> C(1, "While", <<K("keyword_l", "while"), T(x[1]), a, T(x[2]), b, T(x[3]), K("end_l", "end")>>, <<P(3), P(5)>>)
    [] t = "whiledo" -> C(1, "Until", <<K("keyword_l", "until"), T(x[1]), a, T(x[2]), K("begin_l", "do"), T(x[3]), b, T(x[4]), K("end_l", "end")>>, <<P(3), P(7)>>)
    [] t = "for" -> C(1, "For", <<K("keyword_l", "for"), T(x[1]), LvT("i"), T(x[2]), K("operator_l", "in"), T(x[3]), a, T(x[4]), b, T(x[5]), K("end_l", "end")>>, <<P(3), P(7), P(9)>>)
    [] t = "case" -> C(1, "Case", <<K("keyword_l", "case"), T(x[1]), a, T(x[2]), C(4, "When", <<K("keyword_l", "when"), T(x[3]), b, T(x[4]), T(","), T(x[5]), c, T(x[6]), a>>, <<PL(<<3, 7>>), P(9)>>), T(x[7]), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>)
    [] t = "casein" -> C(1, "CaseMatch", <<K("keyword_l", "case"), T(x[1]), a, T(x[2]), C(4, "InPattern", <<K("keyword_l", "in"), T(x[3]), b, T(x[4]), c>>, <<P(3), Nil, P(5)>>), T(x[5]), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>)
    [] t = "inlabel" -> C(1, "CaseMatch", <<K("keyword_l", "case"), T(x[1]), a, T(x[2]), C(4, "InPattern", <<K("keyword_l", "in"), Sp, C(1, "HashPattern", <<C(1, "MatchVar", <<K("name_l", "k"), T(":")>>, <<S("k")>>)>>, <<PL(<<1>>)>>), T(x[3]), c>>, <<P(3), Nil, P(5)>>), T(x[4]), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>)
    [] t = "begin" -> C(1, "KwBegin", <<K("begin_l", "begin"), T(x[1]), C(4, "Rescue", <<a, T(x[2]), C(4, "RescueBody", <<K("keyword_l", "rescue"), T(x[3]), b>>, <<Nil, Nil, P(3)>>), T("\n"), K("else_l", "else"), T(x[4]), c>>, <<P(1), PL(<<3>>), P(7)>>), T(x[5]), K("end_l", "end")>>, <<PL(<<3>>)>>)
    [] t = "ensure" -> C(1, "KwBegin", <<K("begin_l", "begin"), T(x[1]), C(4, "Ensure", <<a, T(x[2]), K("keyword_l", "ensure"), T(x[3]), b>>, <<P(1), P(5)>>), T(x[4]), K("end_l", "end")>>, <<PL(<<3>>)>>)
    [] t = "rescueK" -> C(1, "KwBegin", <<K("begin_l", "begin"), T(x[1]), C(4, "Rescue", <<a, T(x[2]), C(4, "RescueBody", <<K("keyword_l", "rescue"), T(x[3]), C(2, "Array", <<kN>>, <<PL(<<1>>)>>), T(x[4]), b>>, <<P(3), Nil, P(5)>>)>>, <<P(1), PL(<<3>>), Nil>>), T(x[5]), K("end_l", "end")>>, <<PL(<<3>>)>>)
    [] t = "brace" -> C(1, "Block", <<Id("m"), T(x[1]), K("begin_l", "{"), T(x[2]), C(1, "Args", <<K("begin_l", "|"), T(x[3]), ArgN("p"), T(x[4]), T(","), T(x[5]), ArgN("q"), T(x[6]), K("end_l", "|")>>, <<PL(<<3, 7>>)>>), Sp, a, T(x[7]), K("end_l", "}")>>, <<P(1), P(5), P(7)>>)
    [] t = "do" -> C(1, "Block", <<Id("m"), T(x[1]), K("begin_l", "do"), T(x[2]), Arg1("p"), T(x[3]), T(x[4]), a, T(x[5]), K("end_l", "end")>>, <<P(1), P(5), P(8)>>)
    [] t = "lam" -> C(1, "Block", <<LambdaN, C(1, "Args", <<K("begin_l", "("), T(x[1]), ArgN("p"), T(x[2]), K("end_l", ")")>>, <<PL(<<3>>)>>), T(x[3]), K("begin_l", "{"), T(x[4]), a, T(x[5]), K("end_l", "}")>>, <<P(1), P(2), P(6)>>)
    [] t = "lamdo" -> C(1, "Block", <<LambdaN, T(x[1]), K("begin_l", "do"), T(x[2]), a, T(x[3]), K("end_l", "end")>>, <<P(1), Nil, P(5)>>)
    [] t = "interp" -> C(1, "Dstr", <<K("begin_l", "\""), C(1, "Begin", <<K("begin_l", "#{"), T(x[1]), a, T(x[2]), K("end_l", "}")>>, <<PL(<<3>>)>>), K("end_l", "\"")>>, <<PL(<<2>>)>>)
    [] t = "interp2" -> C(1, "Dstr", <<K("begin_l", "\""), C(1, "Begin", <<K("begin_l", "#{"), T(x[1]), a, T(x[2]), b, T(x[3]), K("end_l", "}")>>, <<PL(<<3, 5>>)>>), K("end_l", "\"")>>, <<PL(<<2>>)>>)
    [] t = "concat" -> C(1, "Dstr", <<StrN("\"", "x", "\""), T(x[1]), StrN("'", "y", "'")>>, <<PL(<<1, 3>>)>>)
    [] t = "return" -> C(3, "Return", <<K("keyword_l", "return"), T(x[1]), a, T(x[2]), T(","), T(x[3]), b>>, <<PL(<<3, 7>>)>>)
    [] t = "END" -> C(4, "Postexe", <<K("keyword_l", "END"), T(x[1]), K("begin_l", "{"), T(x[2]), a, T(x[3]), K("end_l", "}")>>, <<P(5)>>)
    [] t = "super" -> C(1, "Super", <<K("keyword_l", "super"), K("begin_l", "("), T(x[1]), a, T(x[2]), K("end_l", ")")>>, <<PL(<<4>>)>>)
    [] t = "yield" -> C(3, "Yield", <<K("keyword_l", "yield"), T(x[1]), a>>, <<PL(<<3>>)>>)
    [] t = "kwdef" -> C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), T(x[1]), C(1, "Args", <<C(1, "Kwarg", <<K("name_l", "k"), T(":")>>, <<S("k")>>)>>, <<PL(<<1>>)>>), T(x[2]), a, T(x[3]), K("end_l", "end")>>, <<S("m"), P(5), P(7)>>)
    [] t = "regs" -> C(2, "Send", <<C(1, "Regexp", <<K("begin_l", "/"), BareStr("x"), K("end_l", "/")>>, <<PL(<<2>>), Nil>>), T(x[2]), K("selector_l", "=="), T(x[1]), b>>, <<P(1), S("=="), PL(<<5>>)>>)
(* ranges of newline tokens that stand for `then' are left to C04; a keyword at the end of a line is warned about *)
XOnly == {"if", "while", "for", "case", "casein", "inlabel", "begin", "rescueK", "ifthen2", "ifthen", "whiledo"}

(* ------------------------------------------------------------------ pairs of statements -------- *)
More == <<BinOp("+", a, b), Cmd1("m", a), Cmd2("m", a, b), Call1("m", a), Cmd1("m", Kws(LPair("k", b))), C(2, "Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, a>>, <<S("v"), P(5)>>),
          C(1, "Send", <<a, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>), C(1, "Send", <<a, K("dot_l", "."), K("selector_l", "if")>>, <<P(1), S("if"), Empty>>),
          C(1, "CSend", <<a, K("dot_l", "&."), K("selector_l", "m?")>>, <<P(1), S("m?"), Empty>>), C(1, "Index", <<a, K("begin_l", "["), b, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>),
          C(1, "Block", <<Id("m"), Sp, K("begin_l", "{"), K("end_l", "}")>>, <<P(1), Nil, Nil>>), C(1, "Block", <<Id("m"), Sp, K("begin_l", "do"), Sp, K("end_l", "end")>>, <<P(1), Nil, Nil>>),
          C(1, "Block", <<LambdaN, Sp, K("begin_l", "{"), K("end_l", "}")>>, <<P(1), Nil, Nil>>), C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), T("; "), K("end_l", "end")>>, <<S("m"), Nil, Nil>>),
          C(2, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), Sp, K("assignment_l", "="), Sp, a>>, <<S("m"), Nil, P(7)>>), C(3, "Send", <<K("selector_l", "not"), Sp, a>>, <<P(3), S("!"), Empty>>),
          C(2, "Defined", <<K("keyword_l", "defined?"), Sp, a>>, <<P(3)>>), C(2, "IfTernary", <<a, Sp, K("question_l", "?"), Sp, b, Sp, K("colon_l", ":"), Sp, c>>, <<P(1), P(5), P(9)>>),
          C(4, "IfMod", <<a, Sp, K("keyword_l", "if"), Sp, b>>, <<P(5), P(1), Nil>>), C(1, "If", <<K("keyword_l", "if"), Sp, a, Sp, K("begin_l", "then"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7), Nil>>),
          C(2, "Send", <<K("selector_l", "!"), a>>, <<P(2), S("!"), Empty>>), C(2, "Send", <<K("selector_l", "-"), a>>, <<P(2), S("-@"), Empty>>), C(2, "Send", <<K("selector_l", "+"), a>>, <<P(2), S("+@"), Empty>>),
          C(2, "Send", <<K("selector_l", "~"), a>>, <<P(2), S("~"), Empty>>), C(1, "Hash", <<K("begin_l", "{"), LPair("k", b), K("end_l", "}")>>, <<PL(<<2>>)>>), C(1, "Array", <<K("begin_l", "["), a, K("end_l", "]")>>, <<PL(<<2>>)>>),
          C(1, "Begin", <<K("begin_l", "("), a, K("end_l", ")")>>, <<PL(<<2>>)>>), C(3, "MatchPatternP", <<a, Sp, K("operator_l", "in"), Sp, b>>, <<P(1), P(5)>>), C(2, "Irange", <<b, K("operator_l", ".."), a>>, <<P(1), P(3)>>)>>
Firsts == Leaves \o StmtLeaves \o More
Seconds == Firsts \o <<C(2, "Irange", <<K("operator_l", ".."), b>>, <<Nil, P(2)>>)>>
(* what cannot begin a statement: a newline in front of it is an error *)
Dead == {"* a", "** a", "&& a", "|| a", "& a", "| a", "== a", "=> a", ", a", "= a", "and a", "or a", "? a : b", ": b", "do end", "then a", ") ", "] ", "}", "end", "rescue a", "ensure", "else", "in a", "when a", "< a", "> a", "=~ a", "/ a", "+= a"}
Sep1 == {"\n", ";", "\r\n", "\n\n", " # c\n", " \n", "\n=begin\n\n=end\n"}
Sep2 == {"\n", " ; ", "\r\n", " # c\n"}
(* a statement list in a wrapper *)
RECURSIVE Wrap(_, _)
Wrap(h, f) == CASE h = "" -> f [] h = "par" -> [s |-> "(" \o f.s \o ")", n |-> [f.n EXCEPT !.L = <<<<"begin_l", 0, 1>>, <<"end_l", Len(f.s) + 1, Len(f.s) + 2>>, <<"expression_l", 0, Len(f.s) + 2>>>>, !.v = <<<<"l", [i \in DOMAIN f.n.v[1][2] |-> At(f.n.v[1][2][i], f.n.v[1][2][i].o + 1)]>>>>]]
                [] h = "brace" -> C(1, "Block", <<Id("m"), Sp, K("begin_l", "{"), Sp, f, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)
                [] h = "do" -> C(1, "Block", <<Id("m"), Sp, K("begin_l", "do"), T("\n"), f, T("\n"), K("end_l", "end")>>, <<P(1), Nil, P(5)>>)
                [] h = "lam" -> C(1, "Block", <<LambdaN, Sp, K("begin_l", "{"), f, K("end_l", "}")>>, <<P(1), Nil, P(4)>>)
                [] h = "if" -> C(1, "If", <<K("keyword_l", "if"), Sp, a, Sp, K("begin_l", "then"), Sp, f, T("\n"), K("end_l", "end")>>, <<P(3), P(7), Nil>>)
                [] h = "else" -> C(1, "If", <<K("keyword_l", "if"), Sp, a, Sp, K("begin_l", "then"), Sp, b, T("\n"), K("else_l", "else"), T("\n"), f, T(";"), K("end_l", "end")>>, <<P(3), P(7), P(11)>>)
                [] h = "while" -> C(1, "While", <<K("keyword_l", "while"), Sp, a, Sp, K("begin_l", "do"), Sp, f, T("\n"), K("end_l", "end")>>, <<P(3), P(7)>>)
                [] h = "arg" -> Call1("m", Wrap("par", f))
                [] h = "def" -> C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), T("\n"), f, T("\n"), K("end_l", "end")>>, <<S("m"), Nil, P(5)>>)
Two(x, sep, y) == C(5, "Begin", <<x, T(sep), y>>, <<PL(<<1, 3>>)>>)
(* ------------------------------------------------------------------ ends of file ---------------- *)
TailT(t) == CASE t = "" -> "" [] t = "nl" -> "\n" [] t = "crlf" -> "\r\n" [] t = "sp" -> " \t" [] t = "nls" -> "\n \n\n" [] t = "cm" -> " # c" [] t = "semi" -> ";" [] t = "doc" -> "\n=begin\n=end" [] t = "docnl" -> "\n=begin\n(\n=end x\n"
             [] t = "end" -> "\n__END__" [] t = "endnl" -> "\n__END__\n" [] t = "endx" -> "\n__END__\nfoo( ' end" [] t = "endcr" -> "\r\n__END__\r\n\"" [] t = "cmend" -> " # c\n__END__\n)" [] t = "end2" -> "\n\n__END__\n__END__\n("
             [] t = "nul" -> "\nĀ(" [] t = "nul2" -> " Ā)" [] t = "nul3" -> "\nĀ" [] t = "^D" -> "\nĄ ( \"" [] t = "^Z" -> ";Ě\n<<A" [] t = "^Z2" -> " Ě" [] t = "^D2" -> "Ą\nx y z"
(* lines that only look like it *)
Near == {"\n __END__", "\n__END__;", "\n__END__ #", "\n;__END__", "\n__END__ "}
EndId == Id("__END__")
NearF(f, t) == LET p == IF t \in {"\n __END__"} THEN "\n " ELSE IF t = "\n;__END__" THEN "\n;" ELSE "\n"
                   z == SubSeq(t, Len(p) + 8, Len(t))
               IN LET q == Two(f, p, EndId) IN Out([s |-> q.s \o z, x |-> X(q.n), L |-> Locs(q.n), d |-> <<>>])
OpenText == {"def m", "(", "m(", "[", "{", "begin", "if a", "m do", "class K", "m {", "while a", "case a", "-> {", "\"#{", "a +", "v =", "m(a,", "a.", "!", "not", "a and"}

Init == /\ g = <<>> /\ odd = 0
        /\ CASE Mode = "tpl" -> k \in Tpls /\ w \in Wrs
             [] Mode = "pair" -> (\E i \in FirstFrom..(IF FirstTo > Len(Firsts) THEN Len(Firsts) ELSE FirstTo) : k = i) /\ w \in Wrs
             [] Mode = "tail" -> k \in DOMAIN Firsts /\ w \in Tails
             [] Mode = "open" -> k \in OpenText /\ w \in Tails
Next == /\ Mode = "tpl" /\ Len(g) < Len(Gaps(k))
        /\ \E x \in Fill(Gaps(k)[Len(g) + 1]) :
             LET o == IF x = Dflt(Gaps(k)[Len(g) + 1]) THEN odd ELSE odd + 1
             IN /\ o <= MaxOdd /\ odd' = o /\ g' = Append(g, x)
        /\ UNCHANGED <<k, w>>
Tailed(f, t) == Out([s |-> f.s \o TailT(t), x |-> X(f.n), L |-> Locs(f.n), d |-> <<>>])
(* the filled template as a whole program, and between two other statements inside a wrapper *)
EmitTpl == Len(g) = Len(Gaps(k)) =>
   LET f == Tp(k, g)
       e == IF k \in XOnly THEN 1 ELSE 0
   IN IF w = "" THEN Out([s |-> f.s, x |-> X(f.n)] @@ (IF e = 1 THEN [e |-> <<>>] ELSE [d |-> <<>>, L |-> Locs(f.n)]))
      ELSE ((k \notin {"casgn", "class", "module", "END"} \/ w # "def") /\ (k # "return" \/ w # "arg")) =>
             LET q == Wrap(w, Two(c, IF w \in {"brace", "lam"} THEN "; " ELSE "\n", f))
             IN Out([s |-> q.s, x |-> X(q.n)] @@ (IF e = 1 THEN [e |-> <<>>] ELSE [d |-> <<>>, L |-> Locs(q.n)]))
EmitPair == LET f == Firsts[k] IN
   /\ \A i \in DOMAIN Seconds : \A sep \in (IF w = "" THEN Sep1 ELSE Sep2) :
        (w # "arg" \/ Val(Seconds[i])) => CaseXL(Wrap(w, Two(f, sep, Seconds[i])))
   /\ (w = "" /\ f.lv <= 3) => \A y \in {"\n\n.m", "\n# c\n\n.m", "\n\n# c\n&.m", "\r\n\r\n .m", ";.m", "\n;.m"} : Out([s |-> f.s \o y, ok |-> FALSE])   \* an empty line in between ends the statement
   /\ w = "" => \A y \in Dead : \A sep \in {"\n", ";", "\r\n", " # c\n"} : Out([s |-> f.s \o sep \o y, ok |-> FALSE])
EmitTail == LET f == Firsts[k] IN Tailed(f, w) /\ (w = "" => \A t \in Near : NearF(f, t))
EmitOpen == Out([s |-> k \o TailT(w) \o "\n", ok |-> FALSE])
Emit == CASE Mode = "tpl" -> EmitTpl [] Mode = "pair" -> EmitPair [] Mode = "tail" -> EmitTail [] Mode = "open" -> EmitOpen
Bounded == odd <= MaxOdd /\ (Mode = "tpl" => Len(g) <= Len(Gaps(k)))
=============================================================================
