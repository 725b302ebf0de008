------------------------------ MODULE Reserved ------------------------------
(* C24.  Reserved words and operators as names.  The machine builds an expression in which names are  *)
(* reserved words or operators, by steps that are only legal in the positions where the lexer must    *)
(* not see a keyword: after a dot, after def, in symbols, labels, alias and undef.  Every result is   *)
(* then followed by something that shows the lexer is back in the right state (a modifier, a block,   *)
(* an operator), because a keyword taken for a name, or a name for a keyword, changes what follows.   *)
EXTENDS Ruby
CONSTANTS Mode, Words, Names2, Follows, MaxLinks, Links
VARIABLES f, links, used
Fids == {"defined?"}
Consts == {"BEGIN", "END"}
IsWord(x) == x \notin {"+", "-", "*", "/", "%", "**", "==", "===", "=~", "!=", "!~", "<", "<=", ">", ">=", "<=>", "|", "^", "&", "<<", ">>", "+@", "-@", "!", "~", "[]", "[]=", "`"}
(* ---------------------------------------------------------------- how a name can be used ------- *)
Dot(r, d, x) == C(1, IF d = "&." THEN "CSend" ELSE "Send", <<r, K("dot_l", d), K("selector_l", x)>>, <<P(1), S(x), Empty>>)
DotP(r, d, x) == C(1, IF d = "&." THEN "CSend" ELSE "Send", <<r, K("dot_l", d), K("selector_l", x), K("begin_l", "("), b, K("end_l", ")")>>, <<P(1), S(x), PL(<<5>>)>>)
DotC(r, d, x) == C(3, IF d = "&." THEN "CSend" ELSE "Send", <<r, K("dot_l", d), K("selector_l", x), Sp, b>>, <<P(1), S(x), PL(<<5>>)>>)
DotN(r, d, x) == C(1, IF d = "&." THEN "CSend" ELSE "Send", <<r, K("dot_l", d), T(" "), K("selector_l", x)>>, <<P(1), S(x), Empty>>)
AttrA(r, d, x) == C(2, IF d = "&." THEN "CSend" ELSE "Send", <<r, K("dot_l", d), K("selector_l", x), Sp, K("operator_l", "="), Sp, b>>, <<P(1), S(x \o "="), PL(<<7>>)>>)
AttrO(r, d, x) == C(2, "OpAsgn", <<Dot(r, d, x), Sp, K("operator_l", "+="), Sp, b>>, <<P(1), S("+"), P(5)>>)
ConstS(r, x) == C(1, "Const", <<r, K("double_colon_l", "::"), K("name_l", x)>>, <<P(1), S(x)>>)
DefN(x) == C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", x), T("; "), a, T("; "), K("end_l", "end")>>, <<S(x), Nil, P(5)>>)
DefNp(x) == C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", x), PArg1("p"), T(" "), a, T("; "), K("end_l", "end")>>, <<S(x), P(4), P(6)>>)
DefNb(x) == C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", x), Sp, BArg1("p"), T("\n"), a, T("\n"), K("end_l", "end")>>, <<S(x), P(5), P(7)>>)
DefE(x) == C(2, "Def", <<K("keyword_l", "def"), Sp, K("name_l", x), PArg1("p"), Sp, K("assignment_l", "="), Sp, a>>, <<S(x), P(4), P(8)>>)
DefS(x) == C(1, "Defs", <<K("keyword_l", "def"), Sp, Kw("Self_", "self"), K("operator_l", "."), K("name_l", x), T("\n"), a, T("\n"), K("end_l", "end")>>, <<P(3), S(x), Nil, P(7)>>)
DefSc(x) == C(1, "Defs", <<K("keyword_l", "def"), Sp, kN, K("operator_l", "::"), K("name_l", x), C(1, "Args", <<K("begin_l", "("), K("end_l", ")")>>, <<Empty>>), T(" "), a, T("\n"), K("end_l", "end")>>, <<P(3), S(x), P(6), P(8)>>)
DefSi(x) == C(1, "Defs", <<K("keyword_l", "def"), Sp, a, K("operator_l", "."), K("name_l", x), T("; "), a, T("; "), K("end_l", "end")>>, <<P(3), S(x), Nil, P(7)>>)
Hsh(p) == C(1, "Hash", <<K("begin_l", "{"), p, K("end_l", "}")>>, <<PL(<<2>>)>>)
KwOpt(x) == C(2, "Kwoptarg", <<K("name_l", x), T(": "), b>>, <<S(x), P(3)>>)
DefK(x) == C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), C(1, "Args", <<K("begin_l", "("), KwOpt(x), K("end_l", ")")>>, <<PL(<<2>>)>>), T("; "), K("end_l", "end")>>, <<S("m"), P(4), Nil>>)
BlkK(x) == C(1, "Block", <<Id("m"), Sp, K("begin_l", "{"), C(1, "Args", <<K("begin_l", "|"), C(1, "Kwarg", <<K("name_l", x), T(":")>>, <<S(x)>>), K("end_l", "|")>>, <<PL(<<2>>)>>), K("end_l", "}")>>, <<P(1), P(4), Nil>>)
LamK(x) == C(1, "Block", <<LambdaN, C(1, "Args", <<K("begin_l", "("), KwOpt(x), K("end_l", ")")>>, <<PL(<<2>>)>>), Sp, K("begin_l", "{"), K("end_l", "}")>>, <<P(1), P(2), Nil>>)
PatK(x) == C(1, "CaseMatch", <<K("keyword_l", "case"), Sp, a, T("; "), C(4, "InPattern", <<K("keyword_l", "in"), Sp, C(1, "HashPattern", <<K("begin_l", "{"), C(2, "Pair", <<BareSym(x), K("operator_l", ":"), Sp, b>>, <<P(1), P(4)>>), K("end_l", "}")>>, <<PL(<<2>>)>>), Sp, K("begin_l", "then"), Sp, a>>, <<P(3), Nil, P(7)>>), T("; "), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>)
Al(x, y) == C(4, "Alias", <<K("keyword_l", "alias"), Sp, BareSym(x), Sp, BareSym(y)>>, <<P(3), P(5)>>)
AlS(x, y) == C(4, "Alias", <<K("keyword_l", "alias"), Sp, SymN(x), Sp, BareSym(y)>>, <<P(3), P(5)>>)
Un(x, y) == C(4, "Undef", <<K("keyword_l", "undef"), Sp, BareSym(x), T(", "), BareSym(y)>>, <<PL(<<3, 5>>)>>)
Un1(x) == C(4, "Undef", <<K("keyword_l", "undef"), Sp, BareSym(x)>>, <<PL(<<3>>)>>)
ILst(x, y) == C(1, "Array", <<K("begin_l", "%i["), BareSym(x), Sp, BareSym(y), K("end_l", "]")>>, <<PL(<<2, 4>>)>>)

Labelable(x) == IsWord(x)
Settable(x) == IsWord(x) /\ x \notin Fids
(* names that stand alone *)
Sole(x) == <<SymN(x), DefN(x), DefNp(x), DefNb(x), DefS(x), DefSc(x), DefSi(x), Un1(x)>>
           \o (IF x = "[]=" THEN <<>> ELSE <<DefE(x)>>)      \* an endless definition cannot be a setter
           \o (IF Labelable(x) THEN <<Hsh(LPair(x, b)), Call1("m", Kws(LPair(x, b))), Cmd1("m", Kws(LPair(x, b))), PatK(x), C(1, "Array", <<K("begin_l", "["), HashBare(LPair(x, b)), K("end_l", "]")>>, <<PL(<<2>>)>>)>> ELSE <<>>)
           \o (IF Labelable(x) /\ x \notin Consts \cup Fids THEN <<DefK(x), BlkK(x), LamK(x)>> ELSE <<>>)
           \o (IF Settable(x) THEN <<SymN(x \o "="), DefNp(x \o "="), SymN(x \o "?"), SymN(x \o "!"), DefN(x \o "?"), DefS(x \o "!"), Un1(x \o "=")>> ELSE <<>>)
Double(x, y) == <<Al(x, y), AlS(x, y), Un(x, y), ILst(x, y)>>
                \o (IF Labelable(x) /\ Labelable(y) /\ x # y THEN <<C(1, "Hash", <<K("begin_l", "{"), LPair(x, b), T(", "), LPair(y, a), K("end_l", "}")>>, <<PL(<<2, 4>>)>>)>> ELSE <<>>)
                \o (IF Labelable(x) THEN <<Hsh(LPair(x, SymN(y))), Cmd1("m", Kws(LPair(x, Dot(c, ".", y)))), C(1, "Send", <<a, K("dot_l", "."), K("selector_l", y), K("begin_l", "("), Kws(LPair(x, b)), K("end_l", ")")>>, <<P(1), S(y), PL(<<5>>)>>)>> ELSE <<>>)
                \o (IF Labelable(y) /\ y \notin Consts \cup Fids THEN <<C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", x), C(1, "Args", <<K("begin_l", "("), KwOpt(y), K("end_l", ")")>>, <<PL(<<2>>)>>), T("; "), K("end_l", "end")>>, <<S(x), P(4), Nil>>)>> ELSE <<>>)
(* one more link of a chain of calls *)
Link(r, l, x) ==
  CASE l = "." -> Dot(r, ".", x) [] l = "&." -> Dot(r, "&.", x) [] l = "::" -> IF x \in Consts THEN ConstS(r, x) ELSE Dot(r, "::", x)
    [] l = ".()" -> DotP(r, ".", x) [] l = "&.()" -> DotP(r, "&.", x) [] l = "::()" -> DotP(r, "::", x) [] l = ". " -> DotN(r, ".", x)
(* `&' directly followed by a dot is the operator `&.' *)
Amp(e) == LET t == e.s IN Len(t) > 0 /\ SubSeq(t, Len(t), Len(t)) = "&"
(* last step: a command call or an assignment *)
Ends(r, x) == <<DotC(r, ".", x), DotC(r, "&.", x), DotC(r, "::", x)>> \o (IF Settable(x) THEN <<AttrA(r, ".", x), AttrA(r, "&.", x), AttrO(r, ".", x), AttrO(r, "&.", x)>> ELSE <<>>)

(* ---------------------------------------------------------------- what follows ------------------ *)
Fol(k, e) ==
  CASE k = "" -> <<e>>
    [] k = "if" -> <<C(4, "IfMod", <<e, Sp, K("keyword_l", "if"), Sp, a>>, <<P(5), P(1), Nil>>)>>
    [] k = "unless" -> <<C(4, "IfMod", <<e, Sp, K("keyword_l", "unless"), Sp, a>>, <<P(5), Nil, P(1)>>)>>
    [] k = "while" -> <<C(4, "While", <<e, Sp, K("keyword_l", "while"), Sp, a>>, <<P(5), P(1)>>)>>
    [] k = "until" -> <<C(4, "Until", <<e, Sp, K("keyword_l", "until"), Sp, a>>, <<P(5), P(1)>>)>>
    [] k = "rescue" -> IF e.lv = 4 THEN <<>> ELSE IF e.n.ty \in {"Send", "CSend", "OpAsgn"} /\ e.lv = 2 THEN <<>> ELSE IF e.n.ty = "Def" /\ e.lv = 2 THEN <<>> ELSE <<C(4, "Rescue", <<e, Sp, C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, a>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<3>>), Nil>>)>>
    [] k = "and" -> IF e.lv <= 3 THEN <<C(3, "And", <<e, Sp, K("operator_l", "and"), Sp, b>>, <<P(1), P(5)>>)>> ELSE <<>>
    [] k = ";" -> <<C(5, "Begin", <<e, T("; "), Id("m")>>, <<PL(<<1, 3>>)>>)>>
    [] k = "nl" -> <<C(5, "Begin", <<e, T("\n"), C(1, "If", <<K("keyword_l", "if"), Sp, a, Sp, K("begin_l", "then"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7), Nil>>)>>, <<PL(<<1, 3>>)>>)>>
    [] k = "+" -> IF e.lv = 1 THEN <<BinOp("+", e, b)>> ELSE <<>>
    [] k = ".m" -> IF e.lv = 1 /\ ~Amp(e) THEN <<Dot(e, ".", "m")>> ELSE <<>>
    [] k = "?:" -> IF e.lv = 1 THEN <<C(2, "IfTernary", <<e, Sp, K("question_l", "?"), Sp, b, Sp, K("colon_l", ":"), Sp, a>>, <<P(1), P(5), P(9)>>)>> ELSE <<>>
    [] k = "{}" -> IF e.n.ty \in {"Send", "CSend"} /\ e.lv = 1 THEN <<C(1, "Block", <<e, Sp, K("begin_l", "{"), Sp, b, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)>> ELSE <<>>
    [] k = "do" -> IF e.n.ty \in {"Send", "CSend"} /\ e.lv = 1 THEN <<C(1, "Block", <<e, Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(1), Nil, P(5)>>)>> ELSE <<>>
    [] k = "[]" -> IF e.lv <= 2 THEN <<C(1, "Array", <<K("begin_l", "["), e, T(", "), b, K("end_l", "]")>>, <<PL(<<2, 4>>)>>)>> ELSE <<>>
    [] k = "if then" -> IF e.lv <= 3 THEN <<C(1, "If", <<K("keyword_l", "if"), Sp, e, Sp, K("begin_l", "then"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7), Nil>>)>> ELSE <<>>
    [] k = "while do" -> IF e.lv <= 3 /\ ~(e.n.ty = "Def" /\ e.lv = 2) THEN <<C(1, "While", <<K("keyword_l", "while"), Sp, e, Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7)>>)>> ELSE <<>>
    [] k = "case" -> IF e.lv <= 2 THEN <<C(1, "Case", <<K("keyword_l", "case"), Sp, a, T("; "), C(4, "When", <<K("keyword_l", "when"), Sp, e, Sp, K("begin_l", "then"), Sp, b>>, <<PL(<<3>>), P(7)>>), T("; "), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>)>> ELSE <<>>
    [] k = "in" -> IF e.lv = 1 THEN <<C(3, "MatchPatternP", <<e, Sp, K("operator_l", "in"), Sp, b>>, <<P(1), P(5)>>)>> ELSE <<>>
    [] k = "def" -> <<C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), T("\n"), e, T("\n"), K("end_l", "end")>>, <<S("m"), Nil, P(5)>>)>>
    [] k = "#{" -> <<C(1, "Dstr", <<K("begin_l", "\""), C(1, "Begin", <<K("begin_l", "#{"), e, K("end_l", "}")>>, <<PL(<<2>>)>>), K("end_l", "\"")>>, <<PL(<<2>>)>>)>>
    [] k = "par" -> IF e.n.ty = "Begin" THEN <<>> ELSE <<C(1, "Begin", <<K("begin_l", "("), e, K("end_l", ")")>>, <<PL(<<2>>)>>)>>
    [] k = "arg" -> IF e.lv <= 2 THEN <<Call1("m", e)>> ELSE <<>>
    [] k = "cmd" -> IF e.lv = 1 /\ SafeFirst(e) THEN <<Cmd1("m", e)>> ELSE <<>>

(* ---------------------------------------------------------------- keywords stay keywords -------- *)
(* value keywords by themselves, and each construct opened by a keyword, in every position that       *)
(* begins an expression; the words if, unless, while, until and rescue modify a complete expression   *)
KwExpr(x) ==
  CASE x = "nil" -> Kw("Nil", "nil") [] x = "true" -> Kw("True", "true") [] x = "false" -> Kw("False", "false") [] x = "self" -> Kw("Self_", "self")
    [] x = "__FILE__" -> Kw("File", "__FILE__") [] x = "__LINE__" -> Kw("Line", "__LINE__") [] x = "__ENCODING__" -> Kw("Encoding", "__ENCODING__")
    [] x = "if" -> C(1, "If", <<K("keyword_l", "if"), Sp, a, Sp, K("begin_l", "then"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7), Nil>>)
    [] x = "unless" -> C(1, "If", <<K("keyword_l", "unless"), Sp, a, Sp, K("begin_l", "then"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), Nil, P(7)>>)
    [] x = "while" -> C(1, "While", <<K("keyword_l", "while"), Sp, a, Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7)>>)
    [] x = "until" -> C(1, "Until", <<K("keyword_l", "until"), Sp, a, Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7)>>)
    [] x = "case" -> C(1, "Case", <<K("keyword_l", "case"), Sp, a, T("; "), C(4, "When", <<K("keyword_l", "when"), Sp, b, Sp, K("begin_l", "then"), Sp, a>>, <<PL(<<3>>), P(7)>>), T("; "), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>)
    [] x = "begin" -> C(1, "KwBegin", <<K("begin_l", "begin"), T("; "), a, T("; "), K("end_l", "end")>>, <<PL(<<3>>)>>)
    [] x = "for" -> C(1, "For", <<K("keyword_l", "for"), Sp, LvT("i"), Sp, K("operator_l", "in"), Sp, a, Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7), P(11)>>)
    [] x = "def" -> C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), T("; "), K("end_l", "end")>>, <<S("m"), Nil, Nil>>)
    [] x = "class" -> C(1, "Class", <<K("keyword_l", "class"), Sp, kN, T("; "), K("end_l", "end")>>, <<P(3), Nil, Nil>>)
    [] x = "module" -> C(1, "Module", <<K("keyword_l", "module"), Sp, kN, T("; "), K("end_l", "end")>>, <<P(3), Nil>>)
    [] x = "yield" -> C(1, "Yield", <<K("keyword_l", "yield")>>, <<Empty>>) [] x = "super" -> Kw("ZSuper", "super")
    [] x = "defined?" -> C(2, "Defined", <<K("keyword_l", "defined?"), K("begin_l", "("), a, K("end_l", ")")>>, <<P(3)>>)
    [] x = "lambda" -> C(1, "Block", <<LambdaN, Sp, K("begin_l", "do"), Sp, a, Sp, K("end_l", "end")>>, <<P(1), Nil, P(5)>>)
(* positions that begin an expression *)
PrePos == {"", "asgn", "op", "par", "arr", "hashv", "label", "arg", "arg2", "lab2", "not", "and", "or2", "ter", "ter2", "then", "body", "blk", "interp", "idx", "opasgn", "bang", "when", "splat", "range", "cond", "ret2", "masgn", "dflt", "cmdlab", "semi", "nl", "lam", "do", "else"}
(* `not', `!' and `defined?' leave a state in which if, unless, while and until are modifiers *)
PreAt(q, e) ==
  CASE q = "" -> e [] q = "asgn" -> C(2, "Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, e>>, <<S("v"), P(5)>>) [] q = "op" -> BinOp("+", a, e)
    [] q = "par" -> C(1, "Begin", <<K("begin_l", "("), e, K("end_l", ")")>>, <<PL(<<2>>)>>) [] q = "arr" -> C(1, "Array", <<K("begin_l", "["), e, T(", "), e, K("end_l", "]")>>, <<PL(<<2, 4>>)>>)
    [] q = "hashv" -> Hsh(Pair(b, e)) [] q = "label" -> Hsh(LPair("k", e)) [] q = "arg" -> Call1("m", e) [] q = "arg2" -> Call2("m", a, e) [] q = "lab2" -> Call1("m", Kws(LPair("k", e)))
    [] q = "not" -> C(3, "Send", <<K("selector_l", "not"), Sp, C(1, "Begin", <<K("begin_l", "("), e, K("end_l", ")")>>, <<PL(<<2>>)>>)>>, <<P(3), S("!"), Empty>>)
    [] q = "and" -> C(3, "And", <<a, Sp, K("operator_l", "and"), Sp, e>>, <<P(1), P(5)>>) [] q = "or2" -> C(2, "Or", <<a, Sp, K("operator_l", "||"), Sp, e>>, <<P(1), P(5)>>)
    [] q = "ter" -> C(2, "IfTernary", <<a, Sp, K("question_l", "?"), Sp, e, Sp, K("colon_l", ":"), Sp, b>>, <<P(1), P(5), P(9)>>) [] q = "ter2" -> C(2, "IfTernary", <<a, Sp, K("question_l", "?"), Sp, b, Sp, K("colon_l", ":"), Sp, e>>, <<P(1), P(5), P(9)>>)
    [] q = "then" -> C(1, "If", <<K("keyword_l", "if"), Sp, a, Sp, K("begin_l", "then"), Sp, e, Sp, K("end_l", "end")>>, <<P(3), P(7), Nil>>)
    [] q = "else" -> C(1, "If", <<K("keyword_l", "if"), Sp, a, Sp, K("begin_l", "then"), Sp, b, Sp, K("else_l", "else"), Sp, e, Sp, K("end_l", "end")>>, <<P(3), P(7), P(11)>>)
    [] q = "body" -> C(1, "KwBegin", <<K("begin_l", "begin"), Sp, e, Sp, K("end_l", "end")>>, <<PL(<<3>>)>>) [] q = "blk" -> C(1, "Block", <<Id("m"), Sp, K("begin_l", "{"), Sp, e, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)
    [] q = "interp" -> C(1, "Dstr", <<K("begin_l", "\""), C(1, "Begin", <<K("begin_l", "#{"), e, K("end_l", "}")>>, <<PL(<<2>>)>>), K("end_l", "\"")>>, <<PL(<<2>>)>>) [] q = "idx" -> C(1, "Index", <<a, K("begin_l", "["), e, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>)
    [] q = "opasgn" -> C(2, "OrAsgn", <<LvT("v"), Sp, K("operator_l", "||="), Sp, e>>, <<P(1), P(5)>>) [] q = "bang" -> C(2, "Send", <<K("selector_l", "!"), e>>, <<P(2), S("!"), Empty>>)
    [] q = "when" -> C(1, "Case", <<K("keyword_l", "case"), Sp, a, T("; "), C(4, "When", <<K("keyword_l", "when"), Sp, e, Sp, K("begin_l", "then"), Sp, b>>, <<PL(<<3>>), P(7)>>), T("; "), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>)
    [] q = "splat" -> Call1("m", SplatN(e)) [] q = "range" -> C(2, "Irange", <<b, Sp, K("operator_l", ".."), Sp, e>>, <<P(1), P(5)>>) [] q = "cond" -> C(4, "IfMod", <<a, Sp, K("keyword_l", "if"), Sp, e>>, <<P(5), P(1), Nil>>)
    [] q = "ret2" -> C(3, "Return", <<K("keyword_l", "return"), Sp, a, T(", "), e>>, <<PL(<<3, 5>>)>>) [] q = "masgn" -> C(4, "Masgn", <<C(4, "Mlhs", <<LvT("v"), T(", "), LvT("w")>>, <<PL(<<1, 3>>)>>), Sp, K("operator_l", "="), Sp, e>>, <<P(1), P(5)>>)
    [] q = "dflt" -> C(1, "Block", <<LambdaN, C(1, "Args", <<K("begin_l", "("), C(2, "Optarg", <<K("name_l", "p"), Sp, K("operator_l", "="), Sp, e>>, <<S("p"), P(5)>>), K("end_l", ")")>>, <<PL(<<2>>)>>), Sp, K("begin_l", "{"), K("end_l", "}")>>, <<P(1), P(2), Nil>>)
    [] q = "cmdlab" -> Cmd1("m", Kws(LPair("k", e))) [] q = "semi" -> C(5, "Begin", <<a, T(";"), e>>, <<PL(<<1, 3>>)>>) [] q = "nl" -> C(5, "Begin", <<a, T("\n"), e>>, <<PL(<<1, 3>>)>>)
    [] q = "lam" -> C(1, "Block", <<LambdaN, Sp, K("begin_l", "{"), Sp, e, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>) [] q = "do" -> C(1, "Block", <<Id("m"), Sp, K("begin_l", "do"), Sp, e, Sp, K("end_l", "end")>>, <<P(1), Nil, P(5)>>)
DoIn == {"lambda"}       \* contains a do...end that a surrounding command or loop header would claim
PreOk(q, x) == /\ (q = "bang" => x \notin {"if", "unless", "while", "until"})
               /\ (q = "cond" => x \notin {"lambda"})
               /\ (q = "then" => TRUE) /\ (q = "dflt" => x \notin {"class", "module"})

(* modifiers after every kind of complete expression, bare command words included *)
Done == Leaves \o <<Cmd1("m", a), Cmd1("m", Kws(LPair("k", b))), Call1("m", a), Dot(a, ".", "m"), Dot(a, ".", "if"), BinOp("+", a, b), C(2, "Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, a>>, <<S("v"), P(5)>>),
                 C(3, "Return", <<K("keyword_l", "return"), Sp, a>>, <<PL(<<3>>)>>), C(3, "Yield", <<K("keyword_l", "yield"), Sp, a>>, <<PL(<<3>>)>>), C(3, "Super", <<K("keyword_l", "super"), Sp, a>>, <<PL(<<3>>)>>),
                 C(1, "Block", <<Id("m"), Sp, K("begin_l", "{"), K("end_l", "}")>>, <<P(1), Nil, Nil>>), C(1, "Block", <<Id("m"), Sp, K("begin_l", "do"), Sp, K("end_l", "end")>>, <<P(1), Nil, Nil>>), KwExpr("if"), KwExpr("def"), KwExpr("case"), KwExpr("lambda"), KwExpr("class")>>
Mods(e) == <<C(4, "IfMod", <<e, Sp, K("keyword_l", "if"), Sp, a>>, <<P(5), P(1), Nil>>), C(4, "IfMod", <<e, Sp, K("keyword_l", "unless"), Sp, a>>, <<P(5), Nil, P(1)>>)>>
           \o (IF e.n.ty = "KwBegin" THEN <<C(4, "WhilePost", <<e, Sp, K("keyword_l", "while"), Sp, a>>, <<P(5), P(1)>>)>> ELSE <<C(4, "While", <<e, Sp, K("keyword_l", "while"), Sp, a>>, <<P(5), P(1)>>), C(4, "Until", <<e, Sp, K("keyword_l", "until"), Sp, a>>, <<P(5), P(1)>>)>>)
           \o (IF e.n.ty = "Lvasgn" THEN <<>> ELSE <<C(4, "Rescue", <<e, Sp, C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, a>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<3>>), Nil>>)>>)

(* ---------------------------------------------------------------- what is never a name ---------- *)
NotNames == {"&&", "||", "=", "+=", "=>", "..", "...", "::", ".", ",", "?", "->", "&.", "(", "{", "1", "@a", "'a'"}
Bad(x) == {"def " \o x \o "; end", "alias " \o x \o " m", "alias m " \o x, "undef " \o x} \cup (IF x = ".." THEN {} ELSE {"def self." \o x \o "; end"})    \* def self... takes all arguments
(* reserved words are not variables, parameters, constants or receivers of assignment *)
NotVars == {"if", "unless", "while", "until", "case", "def", "class", "module", "begin", "end", "do", "then", "else", "elsif", "when", "in", "for", "and", "or", "not", "return", "break", "next", "redo", "retry", "yield", "super", "alias", "undef", "ensure", "rescue", "BEGIN", "END", "defined?"}
BadVar(x) == {x \o " = 1", "def m(" \o x \o "); end", "m { |" \o x \o "| }", "->(" \o x \o ") {}", "a, " \o x \o " = 1", "class " \o x \o "; end", "for " \o x \o " in a do end", "def m(*" \o x \o "); end"} \cup (IF x = "def" THEN {} ELSE {x \o " += 1"})

Init == /\ used = <<>>
        /\ CASE Mode = "chain" -> f \in {a, c, Kw("Self_", "self"), kN, b} /\ links = 0
             [] Mode = "sole" -> (\E x \in Words : \E i \in DOMAIN Sole(x) : f = Sole(x)[i]) /\ links = 0
             [] Mode = "double" -> (\E x \in Words, y \in Names2 : \E i \in DOMAIN Double(x, y) : f = Double(x, y)[i]) /\ links = 0
             [] Mode = "pre" -> (\E x \in Words : \E q \in PrePos : PreOk(q, x) /\ f = PreAt(q, KwExpr(x))) /\ links = 0
             [] Mode = "mod" -> (\E i \in DOMAIN Done : \E j \in DOMAIN Mods(Done[i]) : f = Mods(Done[i])[j]) /\ links = 0
             [] Mode = "bad" -> f = a /\ links = 0
Next == /\ Mode = "chain" /\ links < MaxLinks /\ f.lv = 1 /\ ~Amp(f)
        /\ \E x \in Words : \/ \E l \in Links : f' = Link(f, l, x)
                            \/ links = MaxLinks - 1 /\ \E i \in DOMAIN Ends(f, x) : f' = Ends(f, x)[i]
        /\ links' = links + 1 /\ UNCHANGED used
Emit == CASE Mode = "bad" -> (\A x \in NotNames : \A s \in Bad(x) : Out([s |-> s, ok |-> FALSE])) /\ (\A x \in NotVars : \A s \in BadVar(x) : Out([s |-> s, ok |-> FALSE]))
          [] Mode = "chain" /\ links = 0 -> TRUE
          [] Mode \in {"pre", "mod"} -> CaseXL(f)
          [] OTHER -> \A k \in Follows : \A i \in DOMAIN Fol(k, f) : CaseXL(Fol(k, f)[i])
=============================================================================
