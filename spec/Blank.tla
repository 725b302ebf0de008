-------------------------------- MODULE Blank --------------------------------
(* C27.  Operators whose meaning depends on blanks.  The lexer's decision is a function of three      *)
(* things only: the class of what precedes (a name that may still take arguments, a local variable,   *)
(* a complete value, a keyword that awaits a value), whether a blank precedes the operator, and       *)
(* whether one follows it.  The machine chooses all three, an operator and a surrounding context, in  *)
(* separate steps; the state after the last step determines tree, ranges and warnings.                *)
EXTENDS Ruby
CONSTANTS Heads, Ops, Before, After, Ctxs, MaxCtx
VARIABLES h, o, sb, sa, f, step, nc

(* ---------------------------------------------------------------- what precedes ---------------- *)
ArgHeads == {"m", "m?", "m!", "K", "a.m", "a&.m", "a::m", "a.K", "a::K", "super", "yield"}
LvHeads == {"v"}
FnHeads == {"m(a)", "(a)", "a.m()", "super()"}                   \* end with a closing parenthesis
EndHeads == {"1", "1.5", "'s'", "\"s\"", "@i", "@@c", "$g", "$1", "self", "nil", "[]", "m[0]", ":s", ":s?", ":+", "m {}", "begin; end", "if a; end", "->{}", "/x/", "%w[]", "?c", "__FILE__", "`x`", "{}", "a.m {}", "def m; end", ":\"s\"", "w"}
BegHeads == {"return", "break", "next"}
KwHeads == {"not", "defined?"}
Class(k) == CASE k \in ArgHeads -> "arg" [] k \in LvHeads -> "lv" [] k \in FnHeads -> "fn" [] k \in EndHeads -> "end" [] k \in BegHeads -> "beg" [] k \in KwHeads -> "kw"

Dot(r, d, x) == C(1, IF d = "&." THEN "CSend" ELSE "Send", <<r, K("dot_l", d), K("selector_l", x)>>, <<P(1), S(x), Empty>>)
RI(t, p) == C(1, "Regexp", <<K("begin_l", "/"), T(t), K("end_l", "/")>>, <<PL(<<2>>), Nil>>)
Val0(k) ==
  CASE k \in {"m", "m?", "m!"} -> Id(k) [] k = "K" -> kN [] k \in {"v", "w"} -> C(1, "Lvar", <<T(k)>>, <<S(k)>>)
    [] k = "a.m" -> Dot(a, ".", "m") [] k = "a&.m" -> Dot(a, "&.", "m") [] k = "a::m" -> Dot(a, "::", "m") [] k = "a.K" -> Dot(a, ".", "K")
    [] k = "a::K" -> C(1, "Const", <<a, K("double_colon_l", "::"), K("name_l", "K")>>, <<P(1), S("K")>>)
    [] k = "super" -> Kw("ZSuper", "super") [] k = "yield" -> C(1, "Yield", <<K("keyword_l", "yield")>>, <<Empty>>)
    [] k = "m(a)" -> Call1("m", a) [] k = "(a)" -> C(1, "Begin", <<K("begin_l", "("), a, K("end_l", ")")>>, <<PL(<<2>>)>>)
    [] k = "a.m()" -> C(1, "Send", <<a, K("dot_l", "."), K("selector_l", "m"), K("begin_l", "("), K("end_l", ")")>>, <<P(1), S("m"), Empty>>)
    [] k = "super()" -> C(1, "Super", <<K("keyword_l", "super"), K("begin_l", "("), K("end_l", ")")>>, <<Empty>>)
    [] k = "1" -> b [] k = "1.5" -> Lit("Float", "1.5") [] k = "'s'" -> StrN("'", "s", "'") [] k = "\"s\"" -> StrN("\"", "s", "\"")
    [] k = "@i" -> Lit("Ivar", "@i") [] k = "@@c" -> Lit("Cvar", "@@c") [] k = "$g" -> Lit("Gvar", "$g") [] k = "$1" -> C(1, "NthRef", <<T("$1")>>, <<S("1")>>)
    [] k = "self" -> Kw("Self_", "self") [] k = "nil" -> Kw("Nil", "nil") [] k = "[]" -> C(1, "Array", <<K("begin_l", "["), K("end_l", "]")>>, <<Empty>>)
    [] k = "m[0]" -> C(1, "Index", <<Id("m"), K("begin_l", "["), IntN("0"), K("end_l", "]")>>, <<P(1), PL(<<3>>)>>)
    [] k = ":s" -> SymN("s") [] k = ":s?" -> SymN("s?") [] k = ":+" -> SymN("+") [] k = ":\"s\"" -> C(1, "Sym", <<K("begin_l", ":\""), T("s"), K("end_l", "\"")>>, <<S("s")>>)
    [] k = "m {}" -> C(1, "Block", <<Id("m"), Sp, K("begin_l", "{"), K("end_l", "}")>>, <<P(1), Nil, Nil>>)
    [] k = "a.m {}" -> C(1, "Block", <<Dot(a, ".", "m"), Sp, K("begin_l", "{"), K("end_l", "}")>>, <<P(1), Nil, Nil>>)
    [] k = "begin; end" -> C(1, "KwBegin", <<K("begin_l", "begin"), T("; "), K("end_l", "end")>>, <<Empty>>)
    [] k = "if a; end" -> C(1, "If", <<K("keyword_l", "if"), Sp, a, K("begin_l", ";"), T(" "), K("end_l", "end")>>, <<P(3), Nil, Nil>>)
    [] k = "->{}" -> C(1, "Block", <<LambdaN, K("begin_l", "{"), K("end_l", "}")>>, <<P(1), Nil, Nil>>)
    [] k = "/x/" -> C(1, "Regexp", <<K("begin_l", "/"), BareStr("x"), K("end_l", "/")>>, <<PL(<<2>>), Nil>>)
    [] k = "%w[]" -> C(1, "Array", <<K("begin_l", "%w["), K("end_l", "]")>>, <<Empty>>) [] k = "?c" -> C(1, "Str", <<K("begin_l", "?"), T("c")>>, <<S("c")>>)
    [] k = "__FILE__" -> Kw("File", "__FILE__") [] k = "`x`" -> C(1, "Xstr", <<K("begin_l", "`"), BareStr("x"), K("end_l", "`")>>, <<PL(<<2>>)>>)
    [] k = "{}" -> C(1, "Hash", <<K("begin_l", "{"), K("end_l", "}")>>, <<Empty>>)
    [] k = "def m; end" -> C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), T("; "), K("end_l", "end")>>, <<S("m"), Nil, Nil>>)
    [] k \in BegHeads -> C(1, CASE k = "return" -> "Return" [] k = "break" -> "Break" [] k = "next" -> "Next", <<K("keyword_l", k)>>, <<Empty>>)
(* the name as a command with one argument, x after the blank t *)
Cmd0(k, t, x) ==
  CASE k \in {"m", "m?", "m!", "K", "v", "w"} -> C(3, "Send", <<K("selector_l", k), T(t), x>>, <<Nil, S(k), PL(<<3>>)>>)
    [] k \in {"a.m", "a.K"} -> C(3, "Send", <<a, K("dot_l", "."), K("selector_l", SubSeq(k, 3, 3)), T(t), x>>, <<P(1), S(SubSeq(k, 3, 3)), PL(<<5>>)>>)
    [] k = "a&.m" -> C(3, "CSend", <<a, K("dot_l", "&."), K("selector_l", "m"), T(t), x>>, <<P(1), S("m"), PL(<<5>>)>>)
    [] k \in {"a::m", "a::K"} -> C(3, "Send", <<a, K("dot_l", "::"), K("selector_l", SubSeq(k, 4, 4)), T(t), x>>, <<P(1), S(SubSeq(k, 4, 4)), PL(<<5>>)>>)
    [] k = "super" -> C(3, "Super", <<K("keyword_l", "super"), T(t), x>>, <<PL(<<3>>)>>) [] k = "yield" -> C(3, "Yield", <<K("keyword_l", "yield"), T(t), x>>, <<PL(<<3>>)>>)
    [] k \in BegHeads -> C(3, CASE k = "return" -> "Return" [] k = "break" -> "Break" [] k = "next" -> "Next", <<K("keyword_l", k), T(t), x>>, <<PL(<<3>>)>>)
    [] k = "not" -> C(3, "Send", <<K("selector_l", "not"), T(t), Cond(x)>>, <<P(3), S("!"), Empty>>) [] k = "defined?" -> C(2, "Defined", <<K("keyword_l", "defined?"), T(t), x>>, <<P(3)>>)
(* the name called with a parenthesised list *)
Par0(k, t, ps, fl) ==
  LET q == <<K("begin_l", "("), T(t)>> \o ps \o <<K("end_l", ")")>> IN
  CASE k \in {"m", "m?", "m!", "K", "v", "w"} -> C(1, "Send", <<K("selector_l", k)>> \o q, <<Nil, S(k), IF ps = <<>> THEN Empty ELSE PL(<<4>>)>>)
    [] k \in {"a.m", "a.K"} -> C(1, "Send", <<a, K("dot_l", "."), K("selector_l", SubSeq(k, 3, 3))>> \o q, <<P(1), S(SubSeq(k, 3, 3)), IF ps = <<>> THEN Empty ELSE PL(<<6>>)>>)
    [] k = "a&.m" -> C(1, "CSend", <<a, K("dot_l", "&."), K("selector_l", "m")>> \o q, <<P(1), S("m"), IF ps = <<>> THEN Empty ELSE PL(<<6>>)>>)
    [] k \in {"a::m", "a::K"} -> C(1, "Send", <<a, K("dot_l", "::"), K("selector_l", SubSeq(k, 4, 4))>> \o q, <<P(1), S(SubSeq(k, 4, 4)), IF ps = <<>> THEN Empty ELSE PL(<<6>>)>>)
    [] k = "super" -> C(1, "Super", <<K("keyword_l", "super")>> \o q, <<IF ps = <<>> THEN Empty ELSE PL(<<4>>)>>)
    [] k = "yield" -> C(1, "Yield", <<K("keyword_l", "yield")>> \o q, <<IF ps = <<>> THEN Empty ELSE PL(<<4>>)>>)

(* ---------------------------------------------------------------- what the operator means ------ *)
UnOp(op, t, x) == C(2, "Send", <<K("selector_l", op), T(t), x>>, <<P(3), S(op \o "@"), Empty>>)
Bin(op, l, t, u, r) == C(2, "Send", <<l, T(t), K("selector_l", op), T(u), r>>, <<P(1), S(op), PL(<<5>>)>>)
(* what the user reads; p is the operator *)
Seems(p) == CASE p \in {"+", "-"} -> "unary operator" [] p \in {"*", "**", "&"} -> "argument prefix" [] p = "<<" -> "here document" [] p = "/" -> "regexp literal" [] p = "%" -> "string literal" [] p = ":" -> "symbol literal"
Msg(w, p) ==
  CASE w = "AmbiguousOperator" -> "`" \o p \o "' after local variable or literal is interpreted as binary operator even though it seems like " \o Seems(p)
    [] w = "AmbiguousFirstArgument" -> "ambiguous first argument; put parentheses or a space even after `" \o p \o "' operator"
    [] w = "AmbiguousRegexp" -> "ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator"
    [] w = "AmbiguousTernaryOperator" -> "`?' just followed by `" \o p \o "' is interpreted as a conditional operator, put a space after `?'"
    [] w = "StarInterpretedAsArgPrefix" -> "`*' interpreted as argument prefix" [] w = "DStarInterpretedAsArgPrefix" -> "`**' interpreted as argument prefix"
    [] w = "AmpersandInterpretedAsArgPrefix" -> "`&' interpreted as argument prefix"
OpTxt == CASE o \in {"-1", "-x", "-1.5", "-@x", "-(1)"} -> "-" [] o \in {"+1", "+x"} -> "+" [] o = "*x" -> "*" [] o = "**x" -> "**" [] o \in {"&x", "&:s", "&::K"} -> "&" [] o = "/x/i" -> "/"
           [] o \in {"%[x]", "%w[x]", "%i(x)", "%q{x}"} -> "%" [] o \in {"<<x", "<<@x", "<<A", "<<-A", "<<~A", "<<'A'"} -> "<<" [] o = "y?:x" -> ":" [] o = "?xy" -> "xy" [] OTHER -> ""
Warn(x, w, p, n) == PartLoc(x, "!" \o Msg(w, OpTxt), p, n)                          \* a warning is stated like a range of the node
Tight(t) == t \in {"", "\\\n"}                                   \* what counts as no blank after the operator
Prefix == Class(h) = "beg" \/ (Class(h) \in {"arg", "kw"} /\ sb # "" /\ Tight(sa))
(* an operator that looks like a prefix but is taken as binary *)
Looks == sb # "" /\ Tight(sa) /\ Class(h) # "fn"
HL == Len(h)
Fail == [s |-> "", bad |-> TRUE]
Stx(x) == [s |-> x, bad |-> TRUE]                                \* this text is a syntax error
Good(x) == [x |-> x, bad |-> FALSE, locs |-> TRUE]
Tree(x) == [x |-> [x EXCEPT !.lv = 9], bad |-> FALSE, locs |-> FALSE]
Pre1(x, w, n) == Good(LET y == Cmd0(h, sb, x) IN IF Class(h) \in {"arg", "kw"} /\ w # "" THEN Warn(y, w, HL + Len(sb), n) ELSE y)
Bin1(x, n) == IF Class(h) = "kw" THEN Stx(x.s) ELSE Good(IF Looks /\ n > 0 THEN Warn(x, "AmbiguousOperator", HL + Len(sb), n) ELSE x)
V == IF Class(h) = "kw" THEN [b EXCEPT !.s = h] ELSE Val0(h)
X1 == Id("x")
Sum(op, r, neg) == IF Prefix THEN Pre1(IF neg.s # "" /\ sa = "" THEN neg ELSE UnOp(op, sa, r), "AmbiguousFirstArgument", 1) ELSE Bin1(Bin(op, V, sb, sa, r), 1)
NegInt == PartLoc(IntN("-1"), "operator_l", 0, 1)
None == [s |-> ""]
ListLike == Class(h) \in {"arg", "beg"}
Tern(l, q, r1, s2, s3, r2) == C(2, "IfTernary", <<Cond(l), T(sb), K("question_l", "?"), T(q), r1, T(s2), K("colon_l", ":"), T(s3), r2>>, <<P(1), P(5), P(9)>>)
LitX(kd) == CASE kd = "[x]" -> StrN("%[", "x", "]") [] kd = "w[x]" -> C(1, "Array", <<K("begin_l", "%w["), BareStr("x"), K("end_l", "]")>>, <<PL(<<2>>)>>)
              [] kd = "i(x)" -> C(1, "Array", <<K("begin_l", "%i("), BareSym("x"), K("end_l", ")")>>, <<PL(<<2>>)>>) [] kd = "q{x}" -> StrN("%q{", "x", "}")
LitB(kd) == CASE kd = "[x]" -> C(1, "Array", <<K("begin_l", "["), X1, K("end_l", "]")>>, <<PL(<<2>>)>>) [] kd = "w[x]" -> C(1, "Index", <<Id("w_"), K("begin_l", "["), X1, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>)
              [] kd = "i(x)" -> Call1("i", X1) [] kd = "q{x}" -> C(1, "Block", <<Id("q"), K("begin_l", "{"), X1, K("end_l", "}")>>, <<P(1), Nil, P(3)>>)
OpTgt == CASE h \in {"m", "v", "w"} -> LvT(h) [] h = "K" -> C(1, "Casgn", <<K("name_l", "K")>>, <<Nil, S("K"), Nil>>) [] h = "@i" -> C(1, "Ivasgn", <<K("name_l", "@i")>>, <<S("@i"), Nil>>)
           [] h = "@@c" -> C(1, "Cvasgn", <<K("name_l", "@@c")>>, <<S("@@c"), Nil>>) [] h = "$g" -> C(1, "Gvasgn", <<K("name_l", "$g")>>, <<S("$g"), Nil>>)
           [] h \in {"a.m", "a.K", "a&.m", "a::m"} -> Val0(h) [] h = "m[0]" -> C(1, "IndexAsgn", <<Id("m"), K("begin_l", "["), IntN("0"), K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>)
           [] h = "a::K" -> C(1, "Casgn", <<a, K("double_colon_l", "::"), K("name_l", "K")>>, <<P(1), S("K"), Nil>>)
           [] OTHER -> [s |-> ""]
Asg(op) == IF OpTgt.s = "" THEN (IF h \in KwHeads \cup BegHeads \/ (h \in {"m?", "m!", ":s", ":s?", ":+"} /\ sb = "") THEN Fail ELSE Stx(h \o sb \o op \o "=" \o sa \o "1"))
           ELSE Good(C(2, "OpAsgn", <<OpTgt, T(sb), K("operator_l", op \o "="), T(sa), b>>, <<P(1), S(op), P(5)>>))

Res ==
  CASE o = "-1" -> Sum("-", b, NegInt) [] o = "-x" -> Sum("-", X1, None) [] o = "-1.5" -> Sum("-", Lit("Float", "1.5"), PartLoc(Lit("Float", "-1.5"), "operator_l", 0, 1))
    [] o = "+1" -> Sum("+", b, IntN("+1")) [] o = "+x" -> Sum("+", X1, None) [] o = "-@x" -> Sum("-", Lit("Ivar", "@x"), None) [] o = "-(1)" -> Sum("-", C(1, "Begin", <<K("begin_l", "("), b, K("end_l", ")")>>, <<PL(<<2>>)>>), None)
    [] o = "*x" -> IF Class(h) = "kw" THEN Fail ELSE IF Prefix THEN Pre1(C(3, "Splat", <<K("operator_l", "*"), T(sa), X1>>, <<P(3)>>), "StarInterpretedAsArgPrefix", 1) ELSE Bin1(Bin("*", V, sb, sa, X1), 1)
    [] o = "**x" -> IF Class(h) \in {"kw", "beg"} THEN Fail ELSE IF Prefix THEN Pre1(Kws(C(3, "Kwsplat", <<K("operator_l", "**"), T(sa), X1>>, <<P(3)>>)), "DStarInterpretedAsArgPrefix", 2) ELSE Bin1(Bin("**", V, sb, sa, X1), 2)
    [] o = "&x" -> IF Class(h) \in {"kw", "beg"} \/ (h = "yield" /\ Prefix) THEN Fail ELSE IF Prefix THEN Pre1(C(3, "BlockPass", <<K("operator_l", "&"), T(sa), X1>>, <<P(3)>>), "AmpersandInterpretedAsArgPrefix", 1) ELSE Bin1(Bin("&", V, sb, sa, X1), 1)
    [] o = "&:s" -> IF Class(h) \in {"kw", "beg"} \/ (h = "yield" /\ Prefix) THEN Fail ELSE IF Prefix THEN Pre1(C(3, "BlockPass", <<K("operator_l", "&"), T(sa), SymN("s")>>, <<P(3)>>), IF sa = "" THEN "" ELSE "AmpersandInterpretedAsArgPrefix", 1) ELSE Bin1(Bin("&", V, sb, sa, SymN("s")), 1)
    [] o = "&::K" -> IF Class(h) \in {"kw", "beg"} \/ (h = "yield" /\ Prefix) THEN Fail ELSE IF Prefix THEN Pre1(C(3, "BlockPass", <<K("operator_l", "&"), T(sa), TopK>>, <<P(3)>>), "AmpersandInterpretedAsArgPrefix", 1) ELSE Bin1(Bin("&", V, sb, sa, TopK), 1)
    [] o = "[1]" -> IF Class(h) = "beg" \/ (Class(h) \in {"arg", "kw"} /\ sb # "") THEN Good(Cmd0(h, sb, C(1, "Array", <<K("begin_l", "["), T(sa), b, K("end_l", "]")>>, <<PL(<<3>>)>>)))
                    ELSE IF Class(h) = "kw" THEN Stx(h \o sb \o "[1]") ELSE Good(C(1, "Index", <<V, T(sb), K("begin_l", "["), T(sa), b, K("end_l", "]")>>, <<P(1), PL(<<5>>)>>))
    [] o = "[]" -> IF Class(h) = "beg" \/ (Class(h) \in {"arg", "kw"} /\ sb # "") THEN Good(Cmd0(h, sb, C(1, "Array", <<K("begin_l", "["), T(sa), K("end_l", "]")>>, <<Empty>>)))
                    ELSE IF Class(h) = "kw" THEN Stx(h \o sb \o "[]") ELSE Good(C(1, "Index", <<V, T(sb), K("begin_l", "["), T(sa), K("end_l", "]")>>, <<P(1), Empty>>))
    [] o = "(1)" -> IF Class(h) \in {"fn", "end"} /\ h # "w" THEN (IF h = ":s" THEN Fail ELSE Stx(h \o sb \o "(" \o sa \o "1)"))
                    ELSE IF Class(h) = "kw" THEN Fail
                    ELSE IF Class(h) = "beg" \/ sb # "" THEN Good(Cmd0(h, sb, C(1, "Begin", <<K("begin_l", "("), T(sa), b, K("end_l", ")")>>, <<PL(<<3>>)>>))) ELSE Good(Par0(h, sa, <<b>>, <<>>))
    [] o = "()" -> IF Class(h) \in {"fn", "end"} /\ h # "w" THEN Stx(h \o sb \o "()")
                    ELSE IF Class(h) = "kw" THEN Fail
                    ELSE IF Class(h) = "beg" \/ sb # "" THEN Good(Cmd0(h, sb, C(1, "Begin", <<K("begin_l", "("), T(sa), K("end_l", ")")>>, <<Empty>>))) ELSE Good(Par0(h, sa, <<>>, <<>>))
    [] o = "(1).x" -> IF (Class(h) \in {"fn", "end"} /\ h # "w") \/ Class(h) = "kw" THEN Fail
                    ELSE IF Class(h) = "beg" \/ sb # "" THEN Good(Cmd0(h, sb, Dot(C(1, "Begin", <<K("begin_l", "("), T(sa), b, K("end_l", ")")>>, <<PL(<<3>>)>>), ".", "x"))) ELSE Good(Dot(Par0(h, sa, <<b>>, <<>>), ".", "x"))
    [] o = "::K" -> IF Class(h) = "beg" \/ (Class(h) \in {"arg", "kw"} /\ sb # "") THEN Good(Cmd0(h, sb, Also(C(1, "Const", <<C(1, "Cbase", <<T("::")>>, <<>>), T(sa), K("name_l", "K")>>, <<P(1), S("K")>>), "double_colon_l", "::")))
                    ELSE IF Class(h) = "kw" THEN Stx(h \o sb \o "::K") ELSE Good(C(1, "Const", <<V, T(sb), K("double_colon_l", "::"), T(sa), K("name_l", "K")>>, <<P(1), S("K")>>))
    [] o = "::x" -> IF Class(h) \in {"beg", "kw"} \/ (Class(h) = "arg" /\ sb # "") THEN Stx(h \o sb \o "::" \o sa \o "x")
                    ELSE Good(C(1, "Send", <<V, T(sb), K("dot_l", "::"), T(sa), K("selector_l", "x")>>, <<P(1), S("x"), Empty>>))
    [] o = "/x/i" -> IF Prefix /\ sa = "" THEN Pre1(C(1, "Regexp", <<K("begin_l", "/"), BareStr("x"), K("end_l", "/"), C(1, "RegOpt", <<T("i")>>, <<S("i")>>)>>, <<PL(<<2>>), P(4)>>), "AmbiguousRegexp", 1)
                     ELSE IF Prefix THEN Fail ELSE Bin1(Bin("/", Bin("/", V, sb, sa, X1), "", "", Id("i")), 1)
    [] o \in {"%[x]", "%w[x]", "%i(x)", "%q{x}"} -> LET kd == SubSeq(o, 2, Len(o)) IN
                     IF Prefix /\ sa = "" THEN Pre1(LitX(kd), "", 1) ELSE IF Prefix THEN Fail
                     ELSE IF kd = "w[x]" /\ h # "" THEN Bin1(Bin("%", V, sb, sa, C(1, "Index", <<Val0("w"), K("begin_l", "["), X1, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>)), 1)
                     ELSE Bin1(Bin("%", V, sb, sa, LitB(kd)), 1)
    [] o \in {"<<A", "<<-A", "<<~A", "<<'A'"} -> LET q == SubSeq(o, 3, Len(o)) IN
                     IF sa # "" THEN Fail
                     ELSE IF Class(h) = "beg" \/ (Class(h) \in {"arg", "kw"} /\ sb # "") THEN Tree(Cmd0(h, sb, C(1, "Heredoc", <<T("<<" \o q \o "\n"), C(1, "Str", <<T("x\n")>>, <<S("x\\x0a")>>), T("A\n")>>, <<PL(<<2>>)>>)))
                     ELSE IF Class(h) = "kw" THEN Fail
                     ELSE LET bn == Bin1(Bin("<<", V, sb, "", CASE q = "A" -> ConstN("A") [] q = "-A" -> UnOp("-", "", ConstN("A")) [] q = "~A" -> C(2, "Send", <<K("selector_l", "~"), ConstN("A")>>, <<P(2), S("~"), Empty>>) [] q = "'A'" -> StrN("'", "A", "'")), 2)
                          IN Good(CR(9, "Begin", <<bn.x, Nl, X1, Nl, ConstN("A"), T("\n")>>, <<PL(<<1, 3, 5>>)>>, 1, 5))
    [] o = "<<x" -> IF (Class(h) = "beg" \/ (Class(h) \in {"arg", "kw"} /\ sb # "")) /\ sa = "" THEN Fail ELSE IF Class(h) = "beg" THEN Stx(h \o sb \o "<<" \o sa \o "x") ELSE Bin1(Bin("<<", V, sb, sa, X1), 2)
    [] o = "<<@x" -> IF Class(h) = "beg" THEN Stx(h \o sb \o "<<" \o sa \o "@x") ELSE Bin1(Bin("<<", V, sb, sa, Lit("Ivar", "@x")), 2)
    [] o = "?x" -> IF sa # "" THEN Fail ELSE IF h \in {"m", "K", "a.m", "a.K", "a::m", "a::K", "a&.m", "super", "yield", "v", "w", "self", "nil", ":s", "begin; end", "if a; end", "def m; end", "not", "return", "break", "next", "__FILE__"} /\ sb = "" THEN Fail
                   ELSE IF Class(h) \in {"arg", "beg", "kw"} THEN Good(Cmd0(h, sb, C(1, "Str", <<K("begin_l", "?"), T("x")>>, <<S("x")>>))) ELSE Stx(h \o sb \o "?x")
    [] o = "?xy" -> IF Class(h) \in {"beg", "kw"} \/ (sb = "" /\ h \in {"m", "K", "a.m", "a.K", "a::m", "a::K", "a&.m", "super", "yield", "v", "w", "self", "nil", ":s", "begin; end", "if a; end", "def m; end", "__FILE__"}) \/ sa \notin {"", " "} THEN Fail
                    ELSE Good(LET y == Tern(V, sa, Id("xy"), " ", " ", Id("z")) IN IF Class(h) = "arg" /\ sb # "" /\ sa = "" THEN Warn(y, "AmbiguousTernaryOperator", HL + Len(sb), 1) ELSE y)
    [] o = "?1:2" -> IF Class(h) \in {"beg", "kw", "arg"} \/ (sb = "" /\ h \in {"v", "w", "self", "nil", ":s", "begin; end", "if a; end", "def m; end", "__FILE__"}) THEN Fail ELSE Good(Tern(V, sa, b, "", "", IntN("2")))
    [] o = ":s" -> IF sa # "" THEN Fail
                   ELSE IF sb = "" /\ h \notin {"m", "m?", "m!", "K", "a.m", "a&.m", "a::m", "a.K", "a::K", "super", "yield"} THEN Fail ELSE IF Class(h) \in {"arg", "beg", "kw"} THEN Good(Cmd0(h, sb, SymN("s"))) ELSE Stx(h \o sb \o ":s")
    [] o = "y?:x" -> IF Class(h) \in {"beg", "kw"} \/ (sb = "" /\ Class(h) \in {"arg", "lv"}) \/ (sb = "" /\ h \in {"self", "nil", "__FILE__", "w", "'s'", "\"s\"", ":s", ":s?", "?c", ":\"s\""}) THEN Fail
                     ELSE IF Class(h) = "arg" /\ sb # "" /\ Tight(sa) THEN (IF sa = "" THEN Stx("y ? " \o h \o sb \o ":x") ELSE Fail)
                     ELSE Good(LET y == C(2, "IfTernary", <<Id("y"), T(" "), K("question_l", "?"), T(" "), V, T(sb), K("colon_l", ":"), T(sa), X1>>, <<P(1), P(5), P(9)>>)
                               IN IF Looks THEN Warn(y, "AmbiguousOperator", 4 + HL + Len(sb), 1) ELSE y)
    [] o = "{}" -> IF sa # "" \/ Class(h) = "kw" THEN Fail
                   ELSE IF Class(h) = "beg" THEN Good(Cmd0(h, sb, C(1, "Hash", <<K("begin_l", "{"), K("end_l", "}")>>, <<Empty>>)))
                   ELSE IF h \in FnHeads \ {"(a)"} THEN Good(C(1, "Block", <<V, T(sb), K("begin_l", "{"), K("end_l", "}")>>, <<P(1), Nil, Nil>>))
                   ELSE IF h = "a::K" \/ h = "yield" \/ (h = "m[0]") THEN Fail
                   ELSE IF Class(h) \in {"end", "fn"} /\ h # "w" THEN (IF h \in {"m {}", "a.m {}", "begin; end", "if a; end"} THEN Fail ELSE Stx(h \o sb \o "{}"))
                   ELSE Good(C(1, "Block", <<IF h = "K" THEN Id("K") ELSE IF Class(h) = "lv" \/ h = "w" THEN Id(h) ELSE V, T(sb), K("begin_l", "{"), K("end_l", "}")>>, <<P(1), Nil, Nil>>))
    [] o = "->{}" -> IF sa # "" \/ (Class(h) = "kw") THEN Fail ELSE IF Class(h) \in {"end", "fn"} /\ h # "w" THEN (IF h = "def m; end" THEN Fail ELSE Stx(h \o sb \o "->{}"))
                     ELSE Good(Cmd0(h, sb, C(1, "Block", <<LambdaN, K("begin_l", "{"), K("end_l", "}")>>, <<P(1), Nil, Nil>>)))
    [] o = "!x" -> IF (sb = "" /\ h \notin EndHeads \cup FnHeads) \/ (sb = "" /\ h \in {"w", ":s", "self", "nil", "__FILE__"}) THEN Fail ELSE IF Class(h) \in {"end", "fn"} /\ h # "w" THEN Stx(h \o sb \o "!" \o sa \o "x")
                   ELSE Good(Cmd0(h, sb, C(2, "Send", <<K("selector_l", "!"), T(sa), X1>>, <<P(3), S("!"), Empty>>)))
    [] o = "~x" -> IF Class(h) \in {"end", "fn"} /\ h # "w" THEN Stx(h \o sb \o "~" \o sa \o "x") ELSE Good(Cmd0(h, sb, C(2, "Send", <<K("selector_l", "~"), T(sa), X1>>, <<P(3), S("~"), Empty>>)))
    [] o = "..1" -> IF Class(h) = "kw" \/ sa = "\n" THEN Fail ELSE IF Class(h) = "beg" THEN Good(Cmd0(h, sb, C(2, "Irange", <<K("operator_l", ".."), T(sa), b>>, <<Nil, P(3)>>)))
                    ELSE Good(C(2, "Irange", <<V, T(sb), K("operator_l", ".."), T(sa), b>>, <<P(1), P(5)>>))
    [] o \in {"|x", "^x", "<x", ">x", "==x", "===x", "=~x", "<=x", ">=x", "<=>x", ">>x"} -> LET op == SubSeq(o, 1, Len(o) - 1) IN
                     IF h = "defined?" /\ sb = "" THEN Fail ELSE IF Class(h) \in {"kw", "beg"} THEN Stx(h \o sb \o op \o sa \o "x") ELSE IF op \in {"==", "===", "=~"} /\ h \in {":s", ":+", ":s?", "m!", "m?"} /\ sb = "" THEN Fail ELSE Good(Bin(op, V, sb, sa, X1))
    [] o \in {"&&x", "||x"} -> LET op == SubSeq(o, 1, 2) IN IF Class(h) \in {"kw", "beg"} THEN Stx(h \o sb \o op \o sa \o "x") ELSE Good(C(2, IF op = "&&" THEN "And" ELSE "Or", <<V, T(sb), K("operator_l", op), T(sa), X1>>, <<P(1), P(5)>>))
    [] o \in {".x", "&.x"} -> LET op == SubSeq(o, 1, Len(o) - 1) IN IF Class(h) \in {"kw", "beg"} THEN Fail ELSE Good(C(1, IF op = "&." THEN "CSend" ELSE "Send", <<V, T(sb), K("dot_l", op), T(sa), K("selector_l", "x")>>, <<P(1), S("x"), Empty>>))
    [] o \in {"-=", "+=", "*=", "**=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="} -> Asg(SubSeq(o, 1, Len(o) - 1))

(* ---------------------------------------------------------------- where it stands --------------- *)
IsCmd(e) == e.lv = 3
(* `m:s` is the command `m :s` only where a statement starts; elsewhere it begins with a label *)
Labelish(e) == o = ":s" /\ sb = "" /\ h \in {"m", "m?", "m!", "K", "super", "yield"} /\ HasPrefix(e, h \o ":s")
Within == {"asgn", "par", "arg", "cmd", "arr", "lab", "ret", "idx", "tern"}
Ctx1(q, e) ==
  CASE q = "asgn" -> IF e.lv <= 3 /\ Val(e) /\ ~HasPrefix(e, "not") THEN <<C(4, "Lvasgn", <<K("name_l", "q"), Sp, K("operator_l", "="), Sp, e>>, <<S("q"), P(5)>>)>> ELSE <<>>
    [] q = "par" -> <<C(1, "Begin", <<K("begin_l", "("), e, K("end_l", ")")>>, <<PL(<<2>>)>>)>>
    [] q = "arg" -> IF Val(e) /\ e.n.ty # "Not" /\ e.lv <= 3 /\ ~HasPrefix(e, "not") THEN <<Call1("p", e)>> ELSE <<>>
    [] q = "cmd" -> IF Val(e) /\ e.lv <= 3 /\ SafeFirst(e) /\ ~HasPrefix(e, "not") THEN <<Cmd1("p", e)>> ELSE <<>>
    [] q = "arr" -> IF Val(e) /\ e.lv <= 2 THEN <<C(1, "Array", <<K("begin_l", "["), e, T(", "), b, K("end_l", "]")>>, <<PL(<<2, 4>>)>>)>> ELSE <<>>
    [] q = "lab" -> IF Val(e) /\ e.lv <= 2 THEN <<C(1, "Hash", <<K("begin_l", "{"), LPair("k", e), K("end_l", "}")>>, <<PL(<<2>>)>>)>> ELSE <<>>
    [] q = "if" -> IF Val(e) /\ e.lv <= 3 THEN <<C(1, "If", <<K("keyword_l", "if"), Sp, Cond(e), Sp, K("begin_l", "then"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7), Nil>>)>> ELSE <<>>
    [] q = "mod" -> <<C(4, "IfMod", <<e, Sp, K("keyword_l", "if"), Sp, a>>, <<P(5), P(1), Nil>>)>>
    [] q = "cond" -> IF Val(e) /\ e.lv <= 3 THEN <<C(4, "IfMod", <<a, Sp, K("keyword_l", "if"), Sp, Cond(e)>>, <<P(5), P(1), Nil>>)>> ELSE <<>>
    [] q = "int" -> <<C(1, "Dstr", <<K("begin_l", "\""), C(1, "Begin", <<K("begin_l", "#{"), e, K("end_l", "}")>>, <<PL(<<2>>)>>), K("end_l", "\"")>>, <<PL(<<2>>)>>)>>
    [] q = "blk" -> <<C(1, "Block", <<Id("p"), Sp, K("begin_l", "{"), Sp, e, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)>>
    [] q = "do" -> <<C(1, "Block", <<Id("p"), Sp, K("begin_l", "do"), Sp, e, Sp, K("end_l", "end")>>, <<P(1), Nil, P(5)>>)>>
    [] q = "seq" -> <<C(5, "Begin", <<e, T("; "), a>>, <<PL(<<1, 3>>)>>)>>
    [] q = "nl" -> <<C(5, "Begin", <<a, T("\n"), e>>, <<PL(<<1, 3>>)>>)>>
    [] q = "and" -> IF Val(e) /\ e.lv <= 3 THEN <<C(3, "And", <<e, Sp, K("operator_l", "and"), Sp, b>>, <<P(1), P(5)>>)>> ELSE <<>>
    [] q = "ret" -> IF Val(e) /\ e.lv <= 3 /\ ~ModFirst(e) /\ ~HasPrefix(e, "not") THEN <<C(3, "Return", <<K("keyword_l", "return"), Sp, e>>, <<PL(<<3>>)>>)>> ELSE <<>>
    [] q = "idx" -> IF Val(e) /\ e.lv <= 2 THEN <<C(1, "Index", <<Id("p"), K("begin_l", "["), e, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>)>> ELSE <<>>
    [] q = "tern" -> IF Val(e) /\ e.lv <= 1 THEN <<C(2, "IfTernary", <<Id("p"), Sp, K("question_l", "?"), Sp, e, Sp, K("colon_l", ":"), Sp, b>>, <<P(1), P(5), P(9)>>)>> ELSE <<>>
    [] q = "beg" -> <<C(1, "KwBegin", <<K("begin_l", "begin"), Sp, e, T("; "), K("end_l", "end")>>, <<PL(<<3>>)>>)>>
    [] q = "then" -> <<C(1, "If", <<K("keyword_l", "if"), Sp, a, Sp, K("begin_l", "then"), Sp, e, Sp, K("end_l", "end")>>, <<P(3), P(7), Nil>>)>>
    [] q = "else" -> <<C(1, "If", <<K("keyword_l", "unless"), Sp, a, K("begin_l", "\n"), K("else_l", "else"), Sp, e, T("\n"), K("end_l", "end")>>, <<P(3), P(7), Nil>>)>>
    [] q = "when" -> <<C(1, "Case", <<K("keyword_l", "case"), T("\n"), C(4, "When", <<K("keyword_l", "when"), Sp, a, K("begin_l", ";"), e>>, <<PL(<<3>>), P(5)>>), T("\n"), K("end_l", "end")>>, <<Nil, PL(<<3>>), Nil>>)>>
    [] q = "lam" -> <<C(1, "Block", <<LambdaN, K("begin_l", "{"), e, K("end_l", "}")>>, <<P(1), Nil, P(3)>>)>>
    [] q = "ens" -> <<C(1, "KwBegin", <<K("begin_l", "begin"), T("\n"), C(5, "Ensure", <<a, T("\n"), K("keyword_l", "ensure"), Sp, e>>, <<P(1), P(5)>>), T("\n"), K("end_l", "end")>>, <<PL(<<3>>)>>)>>
    [] q = "or" -> IF Val(e) /\ e.lv <= 3 /\ ~HasPrefix(e, "not") THEN <<C(3, "Or", <<a, Sp, K("operator_l", "or"), Sp, e>>, <<P(1), P(5)>>)>> ELSE <<>>
Ctx(q, e) == IF q \in Within /\ Labelish(e) THEN <<>> ELSE Ctx1(q, e)

Init == h = "" /\ o = "" /\ sb = "" /\ sa = "" /\ f = [bad |-> FALSE] /\ step = 0 /\ nc = 0
Next == \/ step = 0 /\ h' \in Heads /\ step' = 1 /\ UNCHANGED <<o, sb, sa, f, nc>>
        \/ step = 1 /\ o' \in Ops /\ sb' \in Before /\ step' = 2 /\ UNCHANGED <<h, sa, f, nc>>
        \/ step = 2 /\ sa' \in After /\ step' = 3 /\ UNCHANGED <<h, o, sb, f, nc>>
        \/ step = 3 /\ f' = Res /\ step' = 4 /\ UNCHANGED <<h, o, sb, sa, nc>>
        \/ step = 4 /\ ~f.bad /\ f.x.lv <= 4 /\ nc < MaxCtx /\ (\E q \in Ctxs : \E i \in DOMAIN Ctx(q, f.x) : f' = Good(Ctx(q, f.x)[i])) /\ nc' = nc + 1 /\ UNCHANGED <<h, o, sb, sa, step>>
IsW(l) == SubSeq(l[1][3], 1, 1) = "!"
Emit == step = 4 =>
  IF f.bad THEN f.s = "" \/ Out([s |-> f.s, o |-> "decl=v:w", ok |-> FALSE])
  ELSE LET L == Locs(f.x.n)
       IN IF ~f.locs THEN Out([s |-> f.x.s, o |-> "decl=v:w", x |-> X(f.x.n), W |-> SelectSeq(L, IsW)])
          ELSE Out([s |-> f.x.s, o |-> "decl=v:w", x |-> X(f.x.n), L |-> SelectSeq(L, LAMBDA l : ~IsW(l)), W |-> SelectSeq(L, IsW)])
=============================================================================
