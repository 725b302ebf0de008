-------------------------------- MODULE Ruby --------------------------------
(* The construct catalogue: every construct of Ruby's grammar as text with roles and the tree it      *)
(* denotes.  A fragment additionally carries                                                          *)
(*   lv : 1 primary, 2 argument expression, 3 expression, 4 statement (where it may stand)            *)
(*   g  : facts about anything inside ("do", "cls", "dconst", "ret")                                  *)
(*   h  : facts about the fragment itself ("neg": negative numeric literal)                           *)
EXTENDS Tree

G(ps) == UNION {IF "g" \in DOMAIN ps[i] THEN ps[i].g ELSE {} : i \in DOMAIN ps}
C(lv, ty, ps, flds) == LET nd == Nd(ty, ps, flds) IN [s |-> nd.s, n |-> nd.n, lv |-> lv, g |-> G(ps), h |-> {}]
CR(lv, ty, ps, flds, a, b) == LET nd == NdR(ty, ps, flds, a, b) IN [s |-> nd.s, n |-> nd.n, lv |-> lv, g |-> G(ps), h |-> {}]
WithG(f, x) == [f EXCEPT !.g = @ \cup x]
NoDo(f) == [f EXCEPT !.g = @ \ {"do"}]
WithH(f, x) == [f EXCEPT !.h = @ \cup x]
WithL(f, x) == [f EXCEPT !.n.L = @ \o x]

(* ---------------------------------- leaves ---------------------------------- *)
Id(m) == C(1, "Send", <<K("selector_l", m)>>, <<Nil, S(m), Empty>>)
IntN(t) == C(1, "Int", <<T(t)>>, <<S(t)>>)
Lit(ty, t) == C(1, ty, <<T(t)>>, <<S(t)>>)
Kw(ty, t) == C(1, ty, <<T(t)>>, <<>>)
ConstN(t) == C(1, "Const", <<K("name_l", t)>>, <<Nil, S(t)>>)
SymN(t) == C(1, "Sym", <<K("begin_l", ":"), T(t)>>, <<S(t)>>)
StrN(q1, t, q2) == C(1, "Str", <<K("begin_l", q1), T(t), K("end_l", q2)>>, <<S(t)>>)
BareStr(t) == C(1, "Str", <<T(t)>>, <<S(t)>>)
BareSym(t) == C(1, "Sym", <<T(t)>>, <<S(t)>>)
LvT(t) == C(1, "Lvasgn", <<K("name_l", t)>>, <<S(t), Nil>>)         \* assignment target

a == Id("a")
b == IntN("1")
c == Lit("Ivar", "@c")
kN == ConstN("K")

(* a node whose first part (a fragment) is also the text of location field fld *)
Also(f, fld, x) == WithL(f, <<<<fld, 0, Len(x)>>>>)
PartLoc(f, fld, o, n) == WithL(f, <<<<fld, o, o + n>>>>)
TopK == Also(C(1, "Const", <<C(1, "Cbase", <<T("::")>>, <<>>), K("name_l", "K")>>, <<P(1), S("K")>>), "double_colon_l", "::")

Void(f) == f         \* annotation: has no value (decided by VoidN)
CondX(f) == f        \* annotation: rewritten as a condition (decided by CondN)

Leaves == <<
  Id("a"), IntN("1"), IntN("0x1F"), Lit("Float", "1.5"), Lit("Float", "1e3"), Lit("Rational", "2r"), Lit("Complex", "3i"),
  Lit("Ivar", "@c"), Lit("Cvar", "@@c"), Lit("Gvar", "$g"), Lit("Gvar", "$stdout"), Lit("Gvar", "$!"), Lit("Gvar", "$-w"),
  Lit("BackRef", "$&"), C(1, "NthRef", <<T("$1")>>, <<S("1")>>), C(1, "NthRef", <<T("$23")>>, <<S("23")>>),
  Kw("Nil", "nil"), Kw("True", "true"), Kw("False", "false"), Kw("Self_", "self"),
  Kw("File", "__FILE__"), Kw("Line", "__LINE__"), Kw("Encoding", "__ENCODING__"),
  Kw("ZSuper", "super"), C(1, "Yield", <<K("keyword_l", "yield")>>, <<Empty>>),
  Void(C(1, "Redo", <<T("redo")>>, <<>>)), Void(C(1, "Retry", <<T("retry")>>, <<>>)),
  Void(C(1, "Break", <<K("keyword_l", "break")>>, <<Empty>>)), Void(C(1, "Next", <<K("keyword_l", "next")>>, <<Empty>>)),
  WithG(Void(C(1, "Return", <<K("keyword_l", "return")>>, <<Empty>>)), {"ret"}),
  ConstN("K"), C(1, "Const", <<kN, K("double_colon_l", "::"), K("name_l", "L")>>, <<P(1), S("L")>>),
  TopK,
  SymN("s"), SymN("s?"), SymN("s!"), SymN("s="), SymN("K"), SymN("+"), SymN("[]"), SymN("[]="), SymN("!"), SymN("-@"), SymN("<=>"),
  SymN("@s"), SymN("@@s"), SymN("$s"), SymN("if"), SymN("nil"),
  C(1, "Sym", <<K("begin_l", ":\""), T("s t"), K("end_l", "\"")>>, <<S("s t")>>),
  C(1, "Sym", <<K("begin_l", ":'"), T("s"), K("end_l", "'")>>, <<S("s")>>),
  C(1, "Sym", <<K("begin_l", "%s("), T("s"), K("end_l", ")")>>, <<S("s")>>),
  C(1, "Dsym", <<K("begin_l", ":\""), K("end_l", "\"")>>, <<Empty>>),
  StrN("\"", "x", "\""), StrN("'", "x", "'"), StrN("%q(", "x", ")"), StrN("%(", "x y", ")"), StrN("%Q[", "x", "]"),
  C(1, "Str", <<K("begin_l", "\""), K("end_l", "\"")>>, <<S("")>>),
  C(1, "Str", <<K("begin_l", "?"), T("x")>>, <<S("x")>>),
  C(1, "Dstr", <<StrN("\"", "x", "\""), Sp, StrN("'", "y", "'")>>, <<PL(<<1, 3>>)>>),
  C(1, "Xstr", <<K("begin_l", "`"), BareStr("x"), K("end_l", "`")>>, <<PL(<<2>>)>>),
  C(1, "Xstr", <<K("begin_l", "%x("), BareStr("x"), K("end_l", ")")>>, <<PL(<<2>>)>>),
  CondX(C(1, "Regexp", <<K("begin_l", "/"), BareStr("x"), K("end_l", "/")>>, <<PL(<<2>>), Nil>>)),
  CondX(C(1, "Regexp", <<K("begin_l", "/"), BareStr("x"), K("end_l", "/"), C(1, "RegOpt", <<T("im")>>, <<S("im")>>)>>, <<PL(<<2>>), P(4)>>)),
  CondX(C(1, "Regexp", <<K("begin_l", "%r{"), BareStr("x"), K("end_l", "}")>>, <<PL(<<2>>), Nil>>)),
  C(1, "Array", <<K("begin_l", "["), K("end_l", "]")>>, <<Empty>>),
  C(1, "Array", <<K("begin_l", "%w["), BareStr("x"), Sp, BareStr("y"), K("end_l", "]")>>, <<PL(<<2, 4>>)>>),
  C(1, "Array", <<K("begin_l", "%W("), BareStr("x"), Sp, BareStr("y"), K("end_l", ")")>>, <<PL(<<2, 4>>)>>),
  C(1, "Array", <<K("begin_l", "%i["), BareSym("x"), Sp, BareSym("y"), K("end_l", "]")>>, <<PL(<<2, 4>>)>>),
  C(1, "Array", <<K("begin_l", "%I["), BareSym("x"), Sp, BareSym("y"), K("end_l", "]")>>, <<PL(<<2, 4>>)>>),
  C(1, "Hash", <<K("begin_l", "{"), K("end_l", "}")>>, <<Empty>>),
  C(1, "Begin", <<K("begin_l", "("), K("end_l", ")")>>, <<Empty>>),
  C(1, "KwBegin", <<K("begin_l", "begin"), T("; "), K("end_l", "end")>>, <<Empty>>),
  C(1, "Send", <<K("selector_l", "m?")>>, <<Nil, S("m?"), Empty>>),
  C(1, "Send", <<K("selector_l", "m!")>>, <<Nil, S("m!"), Empty>>),
  C(1, "Send", <<K("selector_l", "m"), K("begin_l", "("), K("end_l", ")")>>, <<Nil, S("m"), Empty>>),
  C(1, "Send", <<K("selector_l", "M"), K("begin_l", "("), K("end_l", ")")>>, <<Nil, S("M"), Empty>>),
  C(1, "Super", <<K("keyword_l", "super"), K("begin_l", "("), K("end_l", ")")>>, <<Empty>>),
  C(1, "Yield", <<K("keyword_l", "yield"), K("begin_l", "("), K("end_l", ")")>>, <<Empty>>),
  C(1, "Send", <<K("selector_l", "not"), C(1, "Begin", <<K("begin_l", "("), K("end_l", ")")>>, <<Empty>>)>>, <<P(2), S("!"), Empty>>),
  WithH(C(1, "Int", <<K("operator_l", "-"), T("1")>>, <<S("-1")>>), {"neg"}),
  WithH(C(1, "Float", <<K("operator_l", "-"), T("1.5")>>, <<S("-1.5")>>), {"neg"}),
  C(1, "Int", <<T("+1")>>, <<S("+1")>>)
>>

StmtLeaves == <<
  C(4, "Alias", <<K("keyword_l", "alias"), Sp, BareSym("m"), Sp, BareSym("n")>>, <<P(3), P(5)>>),
  C(4, "Alias", <<K("keyword_l", "alias"), Sp, SymN("m"), Sp, SymN("n")>>, <<P(3), P(5)>>),
  C(4, "Alias", <<K("keyword_l", "alias"), Sp, BareSym("+"), Sp, BareSym("if")>>, <<P(3), P(5)>>),
  C(4, "Alias", <<K("keyword_l", "alias"), Sp, Lit("Gvar", "$m"), Sp, Lit("Gvar", "$n")>>, <<P(3), P(5)>>),
  C(4, "Alias", <<K("keyword_l", "alias"), Sp, Lit("Gvar", "$m"), Sp, Lit("BackRef", "$&")>>, <<P(3), P(5)>>),
  C(4, "Undef", <<K("keyword_l", "undef"), Sp, BareSym("m")>>, <<PL(<<3>>)>>),
  C(4, "Undef", <<K("keyword_l", "undef"), Sp, BareSym("m"), T(", "), SymN("n"), T(", "), BareSym("-")>>, <<PL(<<3, 5, 7>>)>>)
>>

(* ---------------------------- helpers for constructs ------------------------- *)
Pair(k, v) == C(2, "Pair", <<k, Sp, K("operator_l", "=>"), Sp, v>>, <<P(1), P(5)>>)
LabelKey(t) == C(1, "Sym", <<T(t)>>, <<S(t)>>)
LPair(t, v) == C(2, "Pair", <<LabelKey(t), K("operator_l", ":"), Sp, v>>, <<P(1), P(4)>>)
QPair(t, v) == C(2, "Pair", <<C(1, "Sym", <<K("begin_l", "\""), T(t), K("end_l", "\"")>>, <<S(t)>>), K("operator_l", ":"), Sp, v>>, <<P(1), P(4)>>)
KwSplat(v) == C(2, "Kwsplat", <<K("operator_l", "**"), v>>, <<P(2)>>)
SplatN(v) == C(2, "Splat", <<K("operator_l", "*"), v>>, <<P(2)>>)
BPass(v) == C(2, "BlockPass", <<K("operator_l", "&"), v>>, <<P(2)>>)
Kws(p) == C(2, "Kwargs", <<p>>, <<PL(<<1>>)>>)
Kws2(p, q) == C(2, "Kwargs", <<p, T(", "), q>>, <<PL(<<1, 3>>)>>)
HashBare(p) == C(2, "Hash", <<p>>, <<PL(<<1>>)>>)

Seq2(x, y) == C(4, "Begin", <<x, T("; "), y>>, <<PL(<<1, 3>>)>>)

Arg1(p) == C(1, "Args", <<K("begin_l", "|"), C(1, "Procarg0", <<C(1, "Arg", <<T(p)>>, <<S(p)>>)>>, <<PL(<<1>>)>>), K("end_l", "|")>>, <<PL(<<2>>)>>)
Arg2(p, q) == C(1, "Args", <<K("begin_l", "|"), C(1, "Arg", <<T(p)>>, <<S(p)>>), T(", "), C(1, "Arg", <<T(q)>>, <<S(q)>>), K("end_l", "|")>>, <<PL(<<2, 4>>)>>)
PArg1(p) == C(1, "Args", <<K("begin_l", "("), C(1, "Arg", <<T(p)>>, <<S(p)>>), K("end_l", ")")>>, <<PL(<<2>>)>>)
BArg1(p) == C(1, "Args", <<C(1, "Arg", <<T(p)>>, <<S(p)>>)>>, <<PL(<<1>>)>>)
LambdaN == C(1, "Lambda", <<T("->")>>, <<>>)

Call1(m, x) == C(1, "Send", <<K("selector_l", m), K("begin_l", "("), x, K("end_l", ")")>>, <<Nil, S(m), PL(<<3>>)>>)
Call2(m, x, y) == C(1, "Send", <<K("selector_l", m), K("begin_l", "("), x, T(", "), y, K("end_l", ")")>>, <<Nil, S(m), PL(<<3, 5>>)>>)
Cmd1(m, x) == C(3, "Send", <<K("selector_l", m), Sp, x>>, <<Nil, S(m), PL(<<3>>)>>)
Cmd2(m, x, y) == C(3, "Send", <<K("selector_l", m), Sp, x, T(", "), y>>, <<Nil, S(m), PL(<<3, 5>>)>>)
BinOp(op, x, y) == C(2, "Send", <<x, Sp, K("selector_l", op), Sp, y>>, <<P(1), S(op), PL(<<5>>)>>)

RBody(kw, x) == C(4, "RescueBody", <<K("keyword_l", "rescue"), kw, x>>, <<Nil, Nil, P(3)>>)

(* ---------------------- holes that take a primary value ---------------------- *)
Recv(f) == <<
  C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>),
  C(1, "Send", <<f, T("\n  "), K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>),
  C(1, "Send", <<f, K("dot_l", "."), T("\n "), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>),
  C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "M")>>, <<P(1), S("M"), Empty>>),
  C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "m?")>>, <<P(1), S("m?"), Empty>>),
  C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "class")>>, <<P(1), S("class"), Empty>>),
  C(1, "CSend", <<f, K("dot_l", "&."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>),
  C(1, "Send", <<f, K("dot_l", "::"), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>),
  C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "m"), K("begin_l", "("), K("end_l", ")")>>, <<P(1), S("m"), Empty>>),
  C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "m"), K("begin_l", "("), b, K("end_l", ")")>>, <<P(1), S("m"), PL(<<5>>)>>),
  C(1, "CSend", <<f, K("dot_l", "&."), K("selector_l", "m"), K("begin_l", "("), b, K("end_l", ")")>>, <<P(1), S("m"), PL(<<5>>)>>),
  C(1, "Send", <<f, K("dot_l", "::"), K("selector_l", "m"), K("begin_l", "("), b, K("end_l", ")")>>, <<P(1), S("m"), PL(<<5>>)>>),
  C(1, "Send", <<f, K("dot_l", "::"), K("selector_l", "M"), K("begin_l", "("), K("end_l", ")")>>, <<P(1), S("M"), Empty>>),
  C(1, "Send", <<f, K("dot_l", "."), K("begin_l", "("), b, K("end_l", ")")>>, <<P(1), S("call"), PL(<<4>>)>>),
  C(1, "CSend", <<f, K("dot_l", "&."), K("begin_l", "("), K("end_l", ")")>>, <<P(1), S("call"), Empty>>),
  C(1, "Send", <<f, K("dot_l", "::"), K("begin_l", "("), b, K("end_l", ")")>>, <<P(1), S("call"), PL(<<4>>)>>),
  C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "+"), K("begin_l", "("), b, K("end_l", ")")>>, <<P(1), S("+"), PL(<<5>>)>>),
  C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "!")>>, <<P(1), S("!"), Empty>>),
  C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "-@")>>, <<P(1), S("-@"), Empty>>),
  C(1, "Const", <<f, K("double_colon_l", "::"), K("name_l", "M")>>, <<P(1), S("M")>>),
  C(1, "Index", <<f, K("begin_l", "["), b, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>),
  C(1, "Index", <<f, K("begin_l", "["), K("end_l", "]")>>, <<P(1), Empty>>),
  C(1, "Index", <<f, K("begin_l", "["), b, T(", "), c, T("\n"), K("end_l", "]")>>, <<P(1), PL(<<3, 5>>)>>),
  C(1, "Block", <<C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>), Sp, K("begin_l", "{"), T(" "), b, T(" "), K("end_l", "}")>>, <<P(1), Nil, P(5)>>),
  WithG(C(1, "Block", <<C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>), Sp, K("begin_l", "do"), T(" "), Arg1("p"), Sp, b, T(" "), K("end_l", "end")>>, <<P(1), P(5), P(7)>>), {"do"}),
  C(1, "Block", <<C(1, "CSend", <<f, K("dot_l", "&."), K("selector_l", "m"), K("begin_l", "("), b, K("end_l", ")")>>, <<P(1), S("m"), PL(<<5>>)>>), Sp, K("begin_l", "{"), K("end_l", "}")>>, <<P(1), Nil, Nil>>),
  C(3, "Send", <<f, K("dot_l", "."), K("selector_l", "m"), Sp, b>>, <<P(1), S("m"), PL(<<5>>)>>),
  C(3, "CSend", <<f, K("dot_l", "&."), K("selector_l", "m"), Sp, b, T(", "), c>>, <<P(1), S("m"), PL(<<5, 7>>)>>),
  C(3, "Send", <<f, K("dot_l", "::"), K("selector_l", "m"), Sp, b>>, <<P(1), S("m"), PL(<<5>>)>>),
  C(2, "Send", <<f, K("dot_l", "."), K("selector_l", "m"), Sp, K("operator_l", "="), Sp, b>>, <<P(1), S("m="), PL(<<7>>)>>),
  C(2, "CSend", <<f, K("dot_l", "&."), K("selector_l", "m"), Sp, K("operator_l", "="), Sp, b>>, <<P(1), S("m="), PL(<<7>>)>>),
  C(2, "Send", <<f, K("dot_l", "::"), K("selector_l", "m"), Sp, K("operator_l", "="), Sp, b>>, <<P(1), S("m="), PL(<<7>>)>>),
  C(2, "Send", <<f, K("dot_l", "."), K("selector_l", "M"), Sp, K("operator_l", "="), Sp, b>>, <<P(1), S("M="), PL(<<7>>)>>),
  WithG(C(2, "Casgn", <<f, K("double_colon_l", "::"), K("name_l", "M"), Sp, K("operator_l", "="), Sp, b>>, <<P(1), S("M"), P(7)>>), {"dconst"}),
  C(2, "IndexAsgn", <<f, K("begin_l", "["), b, K("end_l", "]"), Sp, K("operator_l", "="), Sp, c>>, <<P(1), PL(<<3>>), P(8)>>),
  C(2, "IndexAsgn", <<f, K("begin_l", "["), K("end_l", "]"), Sp, K("operator_l", "="), Sp, c>>, <<P(1), Empty, P(7)>>),
  C(2, "OpAsgn", <<C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>), Sp, K("operator_l", "+="), Sp, b>>, <<P(1), S("+"), P(5)>>),
  C(2, "OrAsgn", <<C(1, "CSend", <<f, K("dot_l", "&."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>), Sp, K("operator_l", "||="), Sp, b>>, <<P(1), P(5)>>),
  C(2, "AndAsgn", <<C(1, "Send", <<f, K("dot_l", "::"), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>), Sp, K("operator_l", "&&="), Sp, b>>, <<P(1), P(5)>>),
  C(2, "OpAsgn", <<C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "M")>>, <<P(1), S("M"), Empty>>), Sp, K("operator_l", "**="), Sp, b>>, <<P(1), S("**"), P(5)>>),
  WithG(C(2, "OpAsgn", <<C(1, "Casgn", <<f, K("double_colon_l", "::"), K("name_l", "M")>>, <<P(1), S("M"), Nil>>), Sp, K("operator_l", "<<="), Sp, b>>, <<P(1), S("<<"), P(5)>>), {"dconst"}),
  C(2, "OpAsgn", <<C(1, "IndexAsgn", <<f, K("begin_l", "["), c, K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>), Sp, K("operator_l", "-="), Sp, b>>, <<P(1), S("-"), P(5)>>),
  (* command-call values of attribute/index assignments *)
  C(4, "OpAsgn", <<C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>), Sp, K("operator_l", "+="), Sp, Cmd1("n", b)>>, <<P(1), S("+"), P(5)>>),
  C(4, "OrAsgn", <<C(1, "IndexAsgn", <<f, K("begin_l", "["), c, K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>), Sp, K("operator_l", "||="), Sp, Cmd1("n", b)>>, <<P(1), P(5)>>),
  C(4, "AndAsgn", <<C(1, "Send", <<f, K("dot_l", "::"), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>), Sp, K("operator_l", "&&="), Sp, Cmd1("n", b)>>, <<P(1), P(5)>>),
  C(4, "Send", <<f, K("dot_l", "."), K("selector_l", "m"), Sp, K("operator_l", "="), Sp, Cmd1("n", b)>>, <<P(1), S("m="), PL(<<7>>)>>),
  (* multiple assignment to attributes and elements *)
  C(4, "Masgn", <<C(4, "Mlhs", <<C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m="), Empty>>), T(", "), LvT("v")>>, <<PL(<<1, 3>>)>>), Sp, K("operator_l", "="), Sp, b>>, <<P(1), P(5)>>),
  C(4, "Masgn", <<C(4, "Mlhs", <<LvT("v"), T(", "), C(1, "IndexAsgn", <<f, K("begin_l", "["), c, K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>)>>, <<PL(<<1, 3>>)>>), Sp, K("operator_l", "="), Sp, b>>, <<P(1), P(5)>>),
  C(4, "Masgn", <<C(4, "Mlhs", <<LvT("v"), T(", "), SplatN(C(1, "Send", <<f, K("dot_l", "::"), K("selector_l", "m")>>, <<P(1), S("m="), Empty>>))>>, <<PL(<<1, 3>>)>>), Sp, K("operator_l", "="), Sp, b>>, <<P(1), P(5)>>),
  WithG(C(4, "Masgn", <<C(4, "Mlhs", <<LvT("v"), T(", "), C(1, "Casgn", <<f, K("double_colon_l", "::"), K("name_l", "M")>>, <<P(1), S("M"), Nil>>)>>, <<PL(<<1, 3>>)>>), Sp, K("operator_l", "="), Sp, b>>, <<P(1), P(5)>>), {"dconst"}),
  C(1, "For", <<K("keyword_l", "for"), Sp, C(1, "Send", <<f, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m="), Empty>>), Sp, K("operator_l", "in"), Sp, a, Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7), P(11)>>),
  WithG(C(1, "Module", <<K("keyword_l", "module"), Sp, C(1, "Const", <<f, K("double_colon_l", "::"), K("name_l", "M")>>, <<P(1), S("M")>>), T("; "), b, T("; "), K("end_l", "end")>>, <<P(3), P(5)>>), {"cls"})
>>

(* -------------------- holes that take an argument value ---------------------- *)
ArgIn(f) == <<
  NoDo(C(1, "Array", <<K("begin_l", "["), f, K("end_l", "]")>>, <<PL(<<2>>)>>)),
  NoDo(C(1, "Array", <<K("begin_l", "["), T("\n"), f, T(",\n"), b, T("\n"), K("end_l", "]")>>, <<PL(<<3, 5>>)>>)),
  NoDo(C(1, "Array", <<K("begin_l", "["), a, T(", "), f, T(","), K("end_l", "]")>>, <<PL(<<2, 4>>)>>)),
  NoDo(C(1, "Array", <<K("begin_l", "["), SplatN(f), T(", "), b, K("end_l", "]")>>, <<PL(<<2, 4>>)>>)),
  NoDo(C(1, "Array", <<K("begin_l", "["), a, T(", "), SplatN(f), K("end_l", "]")>>, <<PL(<<2, 4>>)>>)),
  NoDo(C(1, "Array", <<K("begin_l", "["), HashBare(Pair(f, b)), K("end_l", "]")>>, <<PL(<<2>>)>>)),
  NoDo(C(1, "Array", <<K("begin_l", "["), a, T(", "), HashBare(LPair("k", f)), K("end_l", "]")>>, <<PL(<<2, 4>>)>>)),
  NoDo(C(1, "Hash", <<K("begin_l", "{"), T(" "), Pair(f, b), T(" "), K("end_l", "}")>>, <<PL(<<3>>)>>)),
  NoDo(C(1, "Hash", <<K("begin_l", "{"), Pair(a, f), K("end_l", "}")>>, <<PL(<<2>>)>>)),
  NoDo(C(1, "Hash", <<K("begin_l", "{"), LPair("k", f), T(",\n"), LPair("l", b), T(",\n"), K("end_l", "}")>>, <<PL(<<2, 4>>)>>)),
  NoDo(C(1, "Hash", <<K("begin_l", "{"), QPair("k", f), K("end_l", "}")>>, <<PL(<<2>>)>>)),
  NoDo(C(1, "Hash", <<K("begin_l", "{"), LPair("K", f), T(", "), LPair("if", b), K("end_l", "}")>>, <<PL(<<2, 4>>)>>)),
  NoDo(C(1, "Hash", <<K("begin_l", "{"), KwSplat(f), T(", "), LPair("k", b), K("end_l", "}")>>, <<PL(<<2, 4>>)>>)),
  NoDo(Call1("m", f)), NoDo(Call2("m", f, b)), NoDo(Call2("m", a, f)), NoDo(Call1("M", f)), NoDo(Call1("m?", f)),
  NoDo(C(1, "Send", <<K("selector_l", "m"), K("begin_l", "("), T("\n"), f, T(",\n"), K("end_l", ")")>>, <<Nil, S("m"), PL(<<4>>)>>)),
  NoDo(Call1("m", SplatN(f))), NoDo(Call2("m", a, SplatN(f))), NoDo(Call1("m", BPass(f))), NoDo(Call2("m", a, BPass(f))),
  NoDo(Call1("m", Kws(LPair("k", f)))), NoDo(Call2("m", a, Kws(LPair("k", f)))), NoDo(Call1("m", Kws(Pair(f, b)))), NoDo(Call1("m", Kws(KwSplat(f)))),
  NoDo(Call2("m", Kws2(LPair("k", b), KwSplat(f)), BPass(a))), NoDo(Call1("m", Kws(QPair("k", f)))),
  NoDo(C(1, "Send", <<K("selector_l", "m"), K("begin_l", "("), Kws(LPair("k", f)), T(","), K("end_l", ")")>>, <<Nil, S("m"), PL(<<3>>)>>)),
  NoDo(C(1, "Send", <<a, K("dot_l", "."), K("selector_l", "m"), K("begin_l", "("), f, K("end_l", ")")>>, <<P(1), S("m"), PL(<<5>>)>>)),
  NoDo(C(1, "Send", <<a, K("dot_l", "."), K("begin_l", "("), f, K("end_l", ")")>>, <<P(1), S("call"), PL(<<4>>)>>)),
  NoDo(C(1, "Index", <<a, K("begin_l", "["), f, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>)),
  NoDo(C(1, "Index", <<a, K("begin_l", "["), b, T(", "), f, K("end_l", "]")>>, <<P(1), PL(<<3, 5>>)>>)),
  NoDo(C(1, "Index", <<a, K("begin_l", "["), SplatN(f), K("end_l", "]")>>, <<P(1), PL(<<3>>)>>)),
  NoDo(C(1, "Index", <<a, K("begin_l", "["), Kws(LPair("k", f)), K("end_l", "]")>>, <<P(1), PL(<<3>>)>>)),
  NoDo(C(1, "Super", <<K("keyword_l", "super"), K("begin_l", "("), f, K("end_l", ")")>>, <<PL(<<3>>)>>)),
  NoDo(C(1, "Super", <<K("keyword_l", "super"), K("begin_l", "("), a, T(", "), BPass(f), K("end_l", ")")>>, <<PL(<<3, 5>>)>>)),
  NoDo(C(1, "Yield", <<K("keyword_l", "yield"), K("begin_l", "("), f, T(", "), b, K("end_l", ")")>>, <<PL(<<3, 5>>)>>)),
  NoDo(C(2, "IndexAsgn", <<a, K("begin_l", "["), f, K("end_l", "]"), Sp, K("operator_l", "="), Sp, b>>, <<P(1), PL(<<3>>), P(8)>>)) ,
  C(1, "Block", <<LambdaN, C(1, "Args", <<K("begin_l", "("), C(2, "Optarg", <<K("name_l", "p"), Sp, K("operator_l", "="), Sp, f>>, <<S("p"), P(5)>>), K("end_l", ")")>>, <<PL(<<2>>)>>), Sp, K("begin_l", "{"), K("end_l", "}")>>, <<P(1), P(2), Nil>>),
  C(1, "Block", <<LambdaN, C(1, "Args", <<K("begin_l", "("), C(2, "Kwoptarg", <<K("name_l", "p"), T(": "), f>>, <<S("p"), P(3)>>), K("end_l", ")")>>, <<PL(<<2>>)>>), Sp, K("begin_l", "{"), K("end_l", "}")>>, <<P(1), P(2), Nil>>),
  (* operators *)
  (* assignment *)
  C(2, "Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, f>>, <<S("v"), P(5)>>),
  C(2, "Lvasgn", <<K("name_l", "v"), K("operator_l", "="), T("\n"), f>>, <<S("v"), P(4)>>),
  C(2, "Ivasgn", <<K("name_l", "@v"), Sp, K("operator_l", "="), Sp, f>>, <<S("@v"), P(5)>>),
  C(2, "Cvasgn", <<K("name_l", "@@v"), Sp, K("operator_l", "="), Sp, f>>, <<S("@@v"), P(5)>>),
  C(2, "Gvasgn", <<K("name_l", "$v"), Sp, K("operator_l", "="), Sp, f>>, <<S("$v"), P(5)>>),
  WithG(C(2, "Casgn", <<K("name_l", "V"), Sp, K("operator_l", "="), Sp, f>>, <<Nil, S("V"), P(5)>>), {"dconst"}),
  WithG(Also(C(2, "Casgn", <<C(1, "Cbase", <<T("::")>>, <<>>), K("name_l", "V"), Sp, K("operator_l", "="), Sp, f>>, <<P(1), S("V"), P(6)>>), "double_colon_l", "::"), {"dconst", "colon3"}),
  C(2, "Send", <<a, K("dot_l", "."), K("selector_l", "m"), Sp, K("operator_l", "="), Sp, f>>, <<P(1), S("m="), PL(<<7>>)>>),
  C(2, "IndexAsgn", <<a, K("begin_l", "["), b, K("end_l", "]"), Sp, K("operator_l", "="), Sp, f>>, <<P(1), PL(<<3>>), P(8)>>),
  C(2, "OpAsgn", <<LvT("v"), Sp, K("operator_l", "+="), Sp, f>>, <<P(1), S("+"), P(5)>>),
  C(2, "OpAsgn", <<C(1, "Ivasgn", <<K("name_l", "@v")>>, <<S("@v"), Nil>>), Sp, K("operator_l", ">>="), Sp, f>>, <<P(1), S(">>"), P(5)>>),
  C(2, "OrAsgn", <<C(1, "Gvasgn", <<K("name_l", "$v")>>, <<S("$v"), Nil>>), Sp, K("operator_l", "||="), Sp, f>>, <<P(1), P(5)>>),
  C(2, "AndAsgn", <<C(1, "Cvasgn", <<K("name_l", "@@v")>>, <<S("@@v"), Nil>>), Sp, K("operator_l", "&&="), Sp, f>>, <<P(1), P(5)>>),
  WithG(C(2, "OrAsgn", <<C(1, "Casgn", <<K("name_l", "V")>>, <<Nil, S("V"), Nil>>), Sp, K("operator_l", "||="), Sp, f>>, <<P(1), P(5)>>), {"dconst"}),
  WithG(C(2, "OrAsgn", <<Also(C(1, "Casgn", <<C(1, "Cbase", <<T("::")>>, <<>>), K("name_l", "V")>>, <<P(1), S("V"), Nil>>), "double_colon_l", "::"), Sp, K("operator_l", "||="), Sp, f>>, <<P(1), P(5)>>), {"dconst", "colon3"}),
  C(2, "OpAsgn", <<C(1, "Send", <<a, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>), Sp, K("operator_l", "|="), Sp, f>>, <<P(1), S("|"), P(5)>>),
  C(2, "OpAsgn", <<C(1, "IndexAsgn", <<a, K("begin_l", "["), f, K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>), Sp, K("operator_l", "^="), Sp, c>>, <<P(1), S("^"), P(5)>>),
  C(4, "Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, C(2, "Array", <<f, T(", "), b>>, <<PL(<<1, 3>>)>>)>>, <<S("v"), P(5)>>),
  C(4, "Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, C(2, "Array", <<SplatN(f)>>, <<PL(<<1>>)>>)>>, <<S("v"), P(5)>>),
  C(4, "Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, C(2, "Array", <<a, T(", "), SplatN(f)>>, <<PL(<<1, 3>>)>>)>>, <<S("v"), P(5)>>),
  C(4, "Masgn", <<C(4, "Mlhs", <<LvT("v"), T(", "), LvT("w")>>, <<PL(<<1, 3>>)>>), Sp, K("operator_l", "="), Sp, f>>, <<P(1), P(5)>>),
  C(4, "Masgn", <<C(4, "Mlhs", <<LvT("v")>>, <<PL(<<1>>)>>), T(","), Sp, K("operator_l", "="), Sp, f>>, <<P(1), P(6)>>),
  C(4, "Masgn", <<C(4, "Mlhs", <<SplatN(LvT("v")), T(", "), LvT("w")>>, <<PL(<<1, 3>>)>>), Sp, K("operator_l", "="), Sp, C(2, "Array", <<f, T(", "), b>>, <<PL(<<1, 3>>)>>)>>, <<P(1), P(5)>>),
  C(4, "Masgn", <<C(4, "Mlhs", <<LvT("v"), T(", "), C(1, "Splat", <<K("operator_l", "*")>>, <<Nil>>)>>, <<PL(<<1, 3>>)>>), Sp, K("operator_l", "="), Sp, C(2, "Array", <<SplatN(f)>>, <<PL(<<1>>)>>)>>, <<P(1), P(5)>>),
  C(4, "Masgn", <<C(1, "Mlhs", <<K("begin_l", "("), LvT("v"), T(", "), C(1, "Mlhs", <<K("begin_l", "("), LvT("w"), T(", "), SplatN(LvT("z")), K("end_l", ")")>>, <<PL(<<2, 4>>)>>), K("end_l", ")")>>, <<PL(<<2, 4>>)>>), Sp, K("operator_l", "="), Sp, f>>, <<P(1), P(5)>>),
  C(4, "Masgn", <<C(4, "Mlhs", <<C(1, "IndexAsgn", <<a, K("begin_l", "["), f, K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>), T(", "), LvT("w")>>, <<PL(<<1, 3>>)>>), Sp, K("operator_l", "="), Sp, b>>, <<P(1), P(5)>>),
  (* case/when *)
  C(1, "Case", <<K("keyword_l", "case"), Sp, a, T("; "), C(4, "When", <<K("keyword_l", "when"), Sp, f, Sp, K("begin_l", "then"), Sp, b>>, <<PL(<<3>>), P(7)>>), T("; "), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>),
  C(1, "Case", <<K("keyword_l", "case"), T("\n"), C(4, "When", <<K("keyword_l", "when"), Sp, b, T(", "), f, K("begin_l", "\n"), c>>, <<PL(<<3, 5>>), P(7)>>), T("\n"), CR(4, "When", <<K("keyword_l", "when"), Sp, SplatN(f), K("begin_l", ";")>>, <<PL(<<3>>), Nil>>, 1, 3), K("else_l", "else"), Sp, a, Sp, K("end_l", "end")>>, <<Nil, PL(<<3, 5>>), P(8)>>),
  (* rescue lists *)
  C(1, "KwBegin", <<K("begin_l", "begin"), T("\n"), C(4, "Rescue", <<a, T("\n"), C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, C(2, "Array", <<kN, T(", "), SplatN(f)>>, <<PL(<<1, 3>>)>>), Sp, K("assoc_l", "=>"), Sp, LvT("e"), K("begin_l", "\n"), b>>, <<P(3), P(7), P(9)>>)>>, <<P(1), PL(<<3>>), Nil>>), T("\n"), K("end_l", "end")>>, <<PL(<<3>>)>>),
  (* return and friends *)
  (* endless methods *)
  (* defaults *)
  (* one-line pattern matching *)
  C(3, "MatchPattern", <<f, Sp, K("operator_l", "=>"), Sp, C(1, "MatchVar", <<K("name_l", "x")>>, <<S("x")>>)>>, <<P(1), P(5)>>),
  C(3, "MatchPatternP", <<f, Sp, K("operator_l", "in"), Sp, b>>, <<P(1), P(5)>>)
  (* ranges *)
>>

(* operators on arguments of any precedence: operand in parentheses-free primary form only *)
PrimOps(f) == <<
  CondX(C(2, "Irange", <<f, K("operator_l", ".."), b>>, <<P(1), P(3)>>)),
  CondX(WithG(C(2, "Erange", <<a, Sp, K("operator_l", "..."), Sp, f>>, <<P(1), P(5)>>), {"dot3"})),
  CondX(NoDo(C(1, "Begin", <<K("begin_l", "("), CondX(C(2, "Irange", <<f, K("operator_l", "..")>>, <<P(1), Nil>>)), K("end_l", ")")>>, <<PL(<<2>>)>>))),
  NoDo(C(1, "Array", <<K("begin_l", "["), CondX(C(2, "Erange", <<K("operator_l", "..."), f>>, <<Nil, P(2)>>)), K("end_l", "]")>>, <<PL(<<2>>)>>)),
  C(2, "Send", <<f, Sp, K("selector_l", "+"), Sp, b>>, <<P(1), S("+"), PL(<<5>>)>>),
  C(2, "Send", <<K("selector_l", "~"), f>>, <<P(2), S("~"), Empty>>),
  C(2, "Send", <<a, Sp, K("selector_l", "-"), Sp, f>>, <<P(1), S("-"), PL(<<5>>)>>),
  C(2, "Send", <<a, Sp, K("selector_l", "=="), T("\n"), f>>, <<P(1), S("=="), PL(<<5>>)>>),
  C(2, "Send", <<a, Sp, K("selector_l", "!="), Sp, f>>, <<P(1), S("!="), PL(<<5>>)>>),
  C(2, "Send", <<f, Sp, K("selector_l", "=~"), Sp, a>>, <<P(1), S("=~"), PL(<<5>>)>>),
  C(2, "Send", <<f, Sp, K("selector_l", "!~"), Sp, a>>, <<P(1), S("!~"), PL(<<5>>)>>),
  C(2, "Send", <<f, Sp, K("selector_l", "<<"), Sp, a>>, <<P(1), S("<<"), PL(<<5>>)>>),
  C(2, "And", <<f, Sp, K("operator_l", "&&"), Sp, b>>, <<P(1), P(5)>>),
  C(2, "Or", <<a, Sp, K("operator_l", "||"), Sp, f>>, <<P(1), P(5)>>),
  C(2, "IfTernary", <<a, Sp, K("question_l", "?"), Sp, f, Sp, K("colon_l", ":"), Sp, b>>, <<P(1), P(5), P(9)>>),
  C(2, "IfTernary", <<a, Sp, K("question_l", "?"), T("\n"), c, T("\n"), K("colon_l", ":"), Sp, f>>, <<P(1), P(5), P(9)>>),
  (* block parameter defaults take primaries *)
  C(1, "Block", <<Id("m"), Sp, K("begin_l", "{"), Sp, C(1, "Args", <<K("begin_l", "|"), C(2, "Optarg", <<K("name_l", "p"), K("operator_l", "="), f>>, <<S("p"), P(3)>>), T(", "), C(2, "Kwoptarg", <<K("name_l", "q"), T(": "), f>>, <<S("q"), P(3)>>), K("end_l", "|")>>, <<PL(<<2, 4>>)>>), Sp, K("end_l", "}")>>, <<P(1), P(5), Nil>>)
>>

(* prefix operators and keywords, where the first character of the operand matters *)
PreOps(f) == <<
  C(2, "Defined", <<K("keyword_l", "defined?"), Sp, f>>, <<P(3)>>),
  C(2, "Send", <<K("selector_l", "-"), f>>, <<P(2), S("-@"), Empty>>)
>>
PowOp(f) == <<C(2, "Send", <<f, K("selector_l", "**"), b>>, <<P(1), S("**"), PL(<<3>>)>>)>>
LoopMod(f) == <<C(4, "Until", <<f, Sp, K("keyword_l", "until"), Sp, a>>, <<P(5), P(1)>>)>>
NotOp(f) == <<C(3, "Send", <<K("selector_l", "not"), Sp, f>>, <<P(3), S("!"), Empty>>)>>
DefsOn(f) == <<
  WithG(C(1, "Defs", <<K("keyword_l", "def"), Sp, T("("), f, T(")"), K("operator_l", "."), K("name_l", "m"), T("; "), b, T("; "), K("end_l", "end")>>, <<P(4), S("m"), Nil, P(9)>>), {"def"})
>>
Literals == {"Int", "Float", "Rational", "Complex", "Str", "Dstr", "Xstr", "Heredoc", "XHeredoc", "Regexp", "Sym", "Dsym", "Array", "Hash"}

(* --------------------------- command arguments ------------------------------- *)
CmdArg(f) == <<
  Cmd1("m", f), Cmd2("m", f, b), C(3, "Send", <<a, K("dot_l", "."), K("selector_l", "m"), Sp, f>>, <<P(1), S("m"), PL(<<5>>)>>),
  C(3, "CSend", <<a, K("dot_l", "&."), K("selector_l", "m"), Sp, f>>, <<P(1), S("m"), PL(<<5>>)>>),
  C(3, "Send", <<a, K("dot_l", "::"), K("selector_l", "m"), Sp, f>>, <<P(1), S("m"), PL(<<5>>)>>),
  C(3, "Send", <<a, K("dot_l", "."), K("selector_l", "M"), Sp, f, T(", "), Kws(LPair("k", b))>>, <<P(1), S("M"), PL(<<5, 7>>)>>),
  Cmd1("m", Kws(Pair(f, b))),
  C(3, "Super", <<K("keyword_l", "super"), Sp, f>>, <<PL(<<3>>)>>),
  C(3, "Yield", <<K("keyword_l", "yield"), Sp, f, T(", "), b>>, <<PL(<<3, 5>>)>>),
  Cmd1("m", Cmd1("n", f)),
  WithG(C(3, "Block", <<Cmd1("m", f), Sp, K("begin_l", "do"), Sp, Arg1("p"), Sp, b, T("; "), K("end_l", "end")>>, <<P(1), P(5), P(7)>>), {"do"}),
  WithG(C(3, "Send", <<C(3, "Block", <<Cmd1("m", f), Sp, K("begin_l", "do"), Sp, K("end_l", "end")>>, <<P(1), Nil, Nil>>), K("dot_l", "."), K("selector_l", "n")>>, <<P(1), S("n"), Empty>>), {"do"}),
  WithG(C(3, "CSend", <<C(3, "Block", <<Cmd1("m", f), Sp, K("begin_l", "do"), Sp, K("end_l", "end")>>, <<P(1), Nil, Nil>>), K("dot_l", "&."), K("selector_l", "n"), Sp, b>>, <<P(1), S("n"), PL(<<5>>)>>), {"do"}),
  C(3, "Send", <<K("selector_l", "!"), Cmd1("m", f)>>, <<P(2), S("!"), Empty>>),
  C(4, "Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, Cmd1("m", f)>>, <<S("v"), P(5)>>),
  C(4, "OpAsgn", <<LvT("v"), Sp, K("operator_l", "+="), Sp, Cmd1("m", f)>>, <<P(1), S("+"), P(5)>>),
  C(4, "Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, C(4, "Lvasgn", <<K("name_l", "w"), Sp, K("operator_l", "="), Sp, Cmd1("m", f)>>, <<S("w"), P(5)>>)>>, <<S("v"), P(5)>>),
  C(4, "Masgn", <<C(4, "Mlhs", <<LvT("v"), T(", "), LvT("w")>>, <<PL(<<1, 3>>)>>), Sp, K("operator_l", "="), Sp, Cmd1("m", f)>>, <<P(1), P(5)>>),
  WithG(Void(C(3, "Return", <<K("keyword_l", "return"), Sp, Cmd1("m", f)>>, <<PL(<<3>>)>>)), {"ret"}),
  C(3, "And", <<Cmd1("m", f), Sp, K("operator_l", "and"), Sp, Cmd1("n", b)>>, <<P(1), P(5)>>),
  C(3, "Send", <<K("selector_l", "not"), Sp, Cmd1("m", f)>>, <<P(3), S("!"), Empty>>)
>>
(* arguments behind an introducing mark are free of first-character ambiguity *)
CmdMark(f) == <<
  Cmd2("m", a, f), Cmd1("m", Kws(LPair("k", f))), Cmd2("m", a, Kws(LPair("k", f))), Cmd2("m", a, BPass(f)),
  Cmd1("m", Kws(QPair("k", f))), Cmd2("m", a, SplatN(f)), Cmd2("m", b, Kws(Pair(b, f)))
>>

(* --------------------------- condition holes --------------------------------- *)
CondIn(f) == <<
  C(1, "If", <<K("keyword_l", "if"), Sp, f, Sp, K("begin_l", "then"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7), Nil>>),
  C(1, "If", <<K("keyword_l", "if"), Sp, f, K("begin_l", "\n"), b, T("\n"), K("else_l", "else"), T("\n"), c, T("\n"), K("end_l", "end")>>, <<P(3), P(5), P(9)>>),
  PartLoc(C(1, "If", <<K("keyword_l", "if"), Sp, a, K("begin_l", ";"), Sp, b, T("; "), C(4, "If", <<K("keyword_l", "elsif"), Sp, f, Sp, K("begin_l", "then"), Sp, c>>, <<P(3), P(7), Nil>>), T("; "), K("end_l", "end")>>, <<P(3), P(6), P(8)>>), "else_l", Len("if a; 1; "), 5),
  C(1, "If", <<K("keyword_l", "unless"), Sp, f, Sp, K("begin_l", "then"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), Nil, P(7)>>),
  C(1, "If", <<K("keyword_l", "unless"), Sp, f, K("begin_l", "\n"), b, T("\n"), K("else_l", "else"), Sp, c, Sp, K("end_l", "end")>>, <<P(3), P(9), P(5)>>),
  C(1, "While", <<K("keyword_l", "while"), Sp, f, Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7)>>),
  C(1, "While", <<K("keyword_l", "while"), Sp, f, K("begin_l", "\n"), b, T("\n"), K("end_l", "end")>>, <<P(3), P(5)>>),
  C(1, "Until", <<K("keyword_l", "until"), Sp, f, K("begin_l", ";"), Sp, b, T("; "), K("end_l", "end")>>, <<P(3), P(6)>>),
  C(1, "Until", <<K("keyword_l", "until"), Sp, f, Sp, K("begin_l", "do"), Sp, K("end_l", "end")>>, <<P(3), Nil>>),
  C(4, "IfMod", <<a, Sp, K("keyword_l", "if"), Sp, f>>, <<P(5), P(1), Nil>>),
  C(4, "IfMod", <<a, Sp, K("keyword_l", "unless"), Sp, f>>, <<P(5), Nil, P(1)>>),
  C(4, "While", <<a, Sp, K("keyword_l", "while"), Sp, f>>, <<P(5), P(1)>>),
  C(4, "Until", <<a, Sp, K("keyword_l", "until"), Sp, f>>, <<P(5), P(1)>>),
  C(4, "WhilePost", <<C(1, "KwBegin", <<K("begin_l", "begin"), Sp, a, Sp, K("end_l", "end")>>, <<PL(<<3>>)>>), Sp, K("keyword_l", "while"), Sp, f>>, <<P(5), P(1)>>),
  C(4, "UntilPost", <<C(1, "KwBegin", <<K("begin_l", "begin"), T("; "), K("end_l", "end")>>, <<Empty>>), Sp, K("keyword_l", "until"), Sp, f>>, <<P(5), P(1)>>),
  C(1, "Send", <<K("selector_l", "not"), K("begin_l", "("), f, K("end_l", ")")>>, <<P(3), S("!"), Empty>>)
>>

(* --------------------- holes that take any expression value ------------------ *)
ExprIn(f) == <<
  C(1, "CaseMatch", <<K("keyword_l", "case"), Sp, a, T("\n"), C(4, "InPattern", <<K("keyword_l", "in"), Sp, b, Sp, C(4, "IfGuard", <<K("keyword_l", "if"), Sp, f>>, <<P(3)>>), Sp, K("begin_l", "then"), Sp, c>>, <<P(3), P(5), P(9)>>), T("\n"), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>),
  C(1, "CaseMatch", <<K("keyword_l", "case"), Sp, a, T("; "), CR(4, "InPattern", <<K("keyword_l", "in"), Sp, b, Sp, C(4, "UnlessGuard", <<K("keyword_l", "unless"), Sp, f>>, <<P(3)>>), K("begin_l", "\n")>>, <<P(3), P(5), Nil>>, 1, 5), K("else_l", "else"), T("; "), b, T("\n"), K("end_l", "end")>>, <<P(3), PL(<<5>>), P(8)>>),
  C(1, "Defined", <<K("keyword_l", "defined?"), K("begin_l", "("), f, K("end_l", ")")>>, <<P(3)>>),
  C(1, "Case", <<K("keyword_l", "case"), Sp, f, T("\n"), CR(4, "When", <<K("keyword_l", "when"), Sp, b, Sp, K("begin_l", "then")>>, <<PL(<<3>>), Nil>>, 1, 3), T("\n"), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>),
  C(1, "CaseMatch", <<K("keyword_l", "case"), Sp, f, T("; "), C(4, "InPattern", <<K("keyword_l", "in"), Sp, b, K("begin_l", ";"), Sp, c>>, <<P(3), Nil, P(6)>>), T("; "), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>),
  C(1, "For", <<K("keyword_l", "for"), Sp, LvT("i"), Sp, K("operator_l", "in"), Sp, f, K("begin_l", "\n"), b, T("\n"), K("end_l", "end")>>, <<P(3), P(7), P(9)>>),
  C(1, "SClass", <<K("keyword_l", "class"), Sp, K("operator_l", "<<"), Sp, f, T("\n"), b, T("\n"), K("end_l", "end")>>, <<P(5), P(7)>>),
  WithG(C(1, "Class", <<K("keyword_l", "class"), Sp, kN, Sp, K("operator_l", "<"), Sp, f, T("\n"), K("end_l", "end")>>, <<P(3), P(7), Nil>>), {"cls"}),
  C(3, "And", <<f, Sp, K("operator_l", "and"), Sp, b>>, <<P(1), P(5)>>),
  C(1, "CaseMatch", <<K("keyword_l", "case"), Sp, a, T("; "), CR(4, "InPattern", <<K("keyword_l", "in"), Sp, C(1, "Pin", <<K("selector_l", "^"), C(1, "Begin", <<K("begin_l", "("), f, K("end_l", ")")>>, <<PL(<<2>>)>>)>>, <<P(2)>>), K("begin_l", ";")>>, <<P(3), Nil, Nil>>, 1, 3), Sp, K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>)
>>

(* --------------------------- statement holes --------------------------------- *)
Par(f) == LET x == C(1, "Begin", <<K("begin_l", "("), f, K("end_l", ")")>>, <<PL(<<2>>)>>)
          IN NoDo(x)
DefB(f, sep1, sep2) == WithG(C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), T(sep1), f, T(sep2), K("end_l", "end")>>, <<S("m"), Nil, P(5)>>), {"def"})

StmtIn(f) == <<
  Par(f),
  NoDo(C(1, "Begin", <<K("begin_l", "("), T("\n"), f, T("\n"), K("end_l", ")")>>, <<PL(<<3>>)>>)) ,
  NoDo(C(1, "Begin", <<K("begin_l", "("), f, T("; "), b, K("end_l", ")")>>, <<PL(<<2, 4>>)>>)),
  NoDo(C(1, "Begin", <<K("begin_l", "("), a, T("\n"), f, T(";"), K("end_l", ")")>>, <<PL(<<2, 4>>)>>)),
  C(1, "KwBegin", <<K("begin_l", "begin"), T("; "), f, T("; "), b, T("; "), K("end_l", "end")>>, <<PL(<<3, 5>>)>>),
  C(1, "KwBegin", <<K("begin_l", "begin"), T("\n"), a, T("\n"), f, T("\n"), K("end_l", "end")>>, <<PL(<<3, 5>>)>>),
  C(1, "KwBegin", <<K("begin_l", "begin"), Sp, C(4, "Ensure", <<f, T("\n"), K("keyword_l", "ensure"), Sp, b>>, <<P(1), P(5)>>), T("\n"), K("end_l", "end")>>, <<PL(<<3>>)>>),
  C(1, "KwBegin", <<K("begin_l", "begin"), Sp, C(4, "Ensure", <<a, T("\n"), K("keyword_l", "ensure"), Sp, f>>, <<P(1), P(5)>>), T("\n"), K("end_l", "end")>>, <<PL(<<3>>)>>),
  C(1, "KwBegin", <<K("begin_l", "begin"), Sp, C(4, "Rescue", <<f, T("\n"), C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, K("begin_l", "then"), Sp, b>>, <<Nil, Nil, P(5)>>)>>, <<P(1), PL(<<3>>), Nil>>), T("\n"), K("end_l", "end")>>, <<PL(<<3>>)>>),
  C(1, "KwBegin", <<K("begin_l", "begin"), Sp, C(4, "Rescue", <<a, T("\n"), C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, K("assoc_l", "=>"), Sp, C(1, "Ivasgn", <<K("name_l", "@e")>>, <<S("@e"), Nil>>), K("begin_l", "\n"), f>>, <<Nil, P(5), P(7)>>), T("\n"), K("else_l", "else"), Sp, b>>, <<P(1), PL(<<3>>), P(7)>>), T("\n"), K("end_l", "end")>>, <<PL(<<3>>)>>),
  C(1, "KwBegin", <<K("begin_l", "begin"), Sp, C(4, "Ensure", <<C(4, "Rescue", <<a, T("\n"), C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, C(2, "Array", <<kN>>, <<PL(<<1>>)>>), K("begin_l", "\n"), b>>, <<P(3), Nil, P(5)>>), T("\n"), C(4, "RescueBody", <<K("keyword_l", "rescue"), K("begin_l", ";"), c>>, <<Nil, Nil, P(3)>>), T("\n"), K("else_l", "else"), Sp, f>>, <<P(1), PL(<<3, 5>>), P(9)>>), T("\n"), K("keyword_l", "ensure"), Sp, b>>, <<P(1), P(5)>>), T("\n"), K("end_l", "end")>>, <<PL(<<3>>)>>),
  (* bodies *)
  C(1, "If", <<K("keyword_l", "if"), Sp, a, Sp, K("begin_l", "then"), Sp, f, T("; "), K("end_l", "end")>>, <<P(3), P(7), Nil>>),
  C(1, "If", <<K("keyword_l", "if"), Sp, a, K("begin_l", "\n"), Seq2(f, b), T("\n"), K("else_l", "else"), T("\n"), c, T("\n"), K("end_l", "end")>>, <<P(3), P(5), P(9)>>),
  C(1, "If", <<K("keyword_l", "if"), Sp, a, T("\n"), K("begin_l", "then"), Sp, b, T("\n"), K("else_l", "else"), T("\n"), f, T("\n"), K("end_l", "end")>>, <<P(3), P(7), P(11)>>),
  PartLoc(C(1, "If", <<K("keyword_l", "if"), Sp, a, K("begin_l", ";"), T("\n"), C(4, "If", <<K("keyword_l", "elsif"), Sp, b, K("begin_l", "\n"), f, T("\n"), K("else_l", "else"), Sp, c>>, <<P(3), P(5), P(9)>>), T("\n"), K("end_l", "end")>>, <<P(3), Nil, P(6)>>), "else_l", Len("if a;\n"), 5),
  C(1, "If", <<K("keyword_l", "unless"), Sp, a, K("begin_l", "\n"), f, T("\n"), K("end_l", "end")>>, <<P(3), Nil, P(5)>>),
  C(1, "If", <<K("keyword_l", "unless"), Sp, a, Sp, K("begin_l", "then"), T("\n"), K("else_l", "else"), Sp, f, T("\n"), K("end_l", "end")>>, <<P(3), P(9), Nil>>),
  C(1, "While", <<K("keyword_l", "while"), Sp, a, Sp, K("begin_l", "do"), Sp, f, T("\n"), K("end_l", "end")>>, <<P(3), P(7)>>),
  C(1, "Until", <<K("keyword_l", "until"), Sp, a, K("begin_l", "\n"), Seq2(b, f), T("\n"), K("end_l", "end")>>, <<P(3), P(5)>>),
  C(1, "For", <<K("keyword_l", "for"), Sp, C(4, "Mlhs", <<LvT("i"), T(", "), LvT("j")>>, <<PL(<<1, 3>>)>>), Sp, K("operator_l", "in"), Sp, a, Sp, K("begin_l", "do"), Sp, f, T("\n"), K("end_l", "end")>>, <<P(3), P(7), P(11)>>),
  C(1, "Case", <<K("keyword_l", "case"), Sp, a, T("\n"), C(4, "When", <<K("keyword_l", "when"), Sp, b, Sp, K("begin_l", "then"), Sp, f>>, <<PL(<<3>>), P(7)>>), T("\n"), C(4, "When", <<K("keyword_l", "when"), Sp, c, K("begin_l", "\n"), b>>, <<PL(<<3>>), P(5)>>), T("\n"), K("end_l", "end")>>, <<P(3), PL(<<5, 7>>), Nil>>),
  C(1, "Case", <<K("keyword_l", "case"), Sp, a, T("\n"), CR(4, "When", <<K("keyword_l", "when"), Sp, b, Sp, K("begin_l", "then")>>, <<PL(<<3>>), Nil>>, 1, 3), T("\n"), K("else_l", "else"), Sp, f, T("\n"), K("end_l", "end")>>, <<P(3), PL(<<5>>), P(9)>>),
  C(1, "CaseMatch", <<K("keyword_l", "case"), Sp, a, T("\n"), C(4, "InPattern", <<K("keyword_l", "in"), Sp, b, Sp, K("begin_l", "then"), Sp, f>>, <<P(3), Nil, P(7)>>), T("\n"), C(4, "InPattern", <<K("keyword_l", "in"), Sp, kN, K("begin_l", "\n"), c>>, <<P(3), Nil, P(5)>>), T("\n"), K("else_l", "else"), Sp, b, T("\n"), K("end_l", "end")>>, <<P(3), PL(<<5, 7>>), P(11)>>),
  C(1, "CaseMatch", <<K("keyword_l", "case"), Sp, a, T("\n"), CR(4, "InPattern", <<K("keyword_l", "in"), Sp, b, Sp, K("begin_l", "then")>>, <<P(3), Nil, Nil>>, 1, 3), T("\n"), K("else_l", "else"), Sp, f, T("\n"), K("end_l", "end")>>, <<P(3), PL(<<5>>), P(9)>>),
  (* blocks and lambdas *)
  NoDo(C(1, "Block", <<Id("m"), Sp, K("begin_l", "{"), Sp, f, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)),
  NoDo(C(1, "Block", <<Call1("m", a), K("begin_l", "{"), Arg2("p", "q"), Sp, Seq2(f, b), K("end_l", "}")>>, <<P(1), P(3), P(5)>>)),
  WithG(C(1, "Block", <<Id("m"), Sp, K("begin_l", "do"), T("\n"), f, T("\n"), K("end_l", "end")>>, <<P(1), Nil, P(5)>>), {"do"}),
  WithG(C(1, "Block", <<Call1("m", a), Sp, K("begin_l", "do"), Sp, Arg1("p"), T("\n"), C(4, "Rescue", <<f, T("\n"), C(4, "RescueBody", <<K("keyword_l", "rescue"), K("begin_l", "\n"), b>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<3>>), Nil>>), T("\n"), K("end_l", "end")>>, <<P(1), P(5), P(7)>>), {"do"}),
  NoDo(C(1, "Block", <<Kw("ZSuper", "super"), Sp, K("begin_l", "{"), Sp, f, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)),
  NoDo(C(1, "Block", <<C(1, "Super", <<K("keyword_l", "super"), K("begin_l", "("), a, K("end_l", ")")>>, <<PL(<<3>>)>>), Sp, K("begin_l", "{"), Sp, f, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)),
  NoDo(C(1, "Block", <<LambdaN, Sp, K("begin_l", "{"), Sp, f, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)),
  NoDo(C(1, "Block", <<LambdaN, PArg1("p"), Sp, K("begin_l", "{"), Sp, f, Sp, K("end_l", "}")>>, <<P(1), P(2), P(6)>>)),
  NoDo(C(1, "Block", <<LambdaN, Sp, BArg1("p"), Sp, K("begin_l", "{"), Sp, Seq2(a, f), Sp, K("end_l", "}")>>, <<P(1), P(3), P(7)>>)),
  WithG(C(1, "Block", <<LambdaN, PArg1("p"), Sp, K("begin_l", "do"), T("\n"), C(4, "Ensure", <<f, T("\n"), K("keyword_l", "ensure"), Sp, b>>, <<P(1), P(5)>>), T("\n"), K("end_l", "end")>>, <<P(1), P(2), P(6)>>), {"do"}),
  (* interpolation *)
  NoDo(C(1, "Dstr", <<K("begin_l", "\""), BareStr("x"), C(1, "Begin", <<K("begin_l", "#{"), f, K("end_l", "}")>>, <<PL(<<2>>)>>), BareStr("y"), K("end_l", "\"")>>, <<PL(<<2, 3, 4>>)>>)),
  NoDo(C(1, "Dstr", <<K("begin_l", "%("), C(1, "Begin", <<K("begin_l", "#{"), f, T("; "), b, K("end_l", "}")>>, <<PL(<<2, 4>>)>>), K("end_l", ")")>>, <<PL(<<2>>)>>)),
  NoDo(C(1, "Dsym", <<K("begin_l", ":\""), C(1, "Begin", <<K("begin_l", "#{"), f, K("end_l", "}")>>, <<PL(<<2>>)>>), BareStr("y"), K("end_l", "\"")>>, <<PL(<<2, 3>>)>>)),
  NoDo(C(1, "Xstr", <<K("begin_l", "`"), BareStr("x"), C(1, "Begin", <<K("begin_l", "#{"), f, K("end_l", "}")>>, <<PL(<<2>>)>>), K("end_l", "`")>>, <<PL(<<2, 3>>)>>)),
  NoDo(CondX(C(1, "Regexp", <<K("begin_l", "/"), BareStr("x"), C(1, "Begin", <<K("begin_l", "#{"), f, K("end_l", "}")>>, <<PL(<<2>>)>>), K("end_l", "/"), C(1, "RegOpt", <<T("o")>>, <<S("o")>>)>>, <<PL(<<2, 3>>), P(5)>>))),
  NoDo(C(1, "Array", <<K("begin_l", "%W["), C(1, "Dstr", <<BareStr("x"), C(1, "Begin", <<K("begin_l", "#{"), f, K("end_l", "}")>>, <<PL(<<2>>)>>), BareStr("y")>>, <<PL(<<1, 2, 3>>)>>), Sp, BareStr("z"), K("end_l", "]")>>, <<PL(<<2, 4>>)>>)),
  NoDo(C(1, "Array", <<K("begin_l", "%I["), C(1, "Dsym", <<BareStr("x"), C(1, "Begin", <<K("begin_l", "#{"), f, K("end_l", "}")>>, <<PL(<<2>>)>>)>>, <<PL(<<1, 2>>)>>), Sp, BareSym("z"), K("end_l", "]")>>, <<PL(<<2, 4>>)>>)),
  NoDo(C(1, "Dstr", <<StrN("'", "x", "'"), Sp, C(1, "Dstr", <<K("begin_l", "\""), C(1, "Begin", <<K("begin_l", "#{"), f, K("end_l", "}")>>, <<PL(<<2>>)>>), K("end_l", "\"")>>, <<PL(<<2>>)>>)>>, <<PL(<<1, 3>>)>>)),
  (* sequences at top level, modifiers on statements, END *)
  C(5, "Begin", <<f, T("\n"), b>>, <<PL(<<1, 3>>)>>),
  C(5, "Begin", <<a, T(";"), f>>, <<PL(<<1, 3>>)>>),
  C(4, "IfMod", <<f, Sp, K("keyword_l", "if"), Sp, a>>, <<P(5), P(1), Nil>>),
  C(4, "IfMod", <<f, Sp, K("keyword_l", "unless"), Sp, a>>, <<P(5), Nil, P(1)>>),
  WithG(C(4, "Postexe", <<K("keyword_l", "END"), Sp, K("begin_l", "{"), Sp, f, Sp, K("end_l", "}")>>, <<P(5)>>), {"END"})
>>

(* endless definitions *)
DefArg(f) == <<
  WithG(C(2, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), Sp, K("assignment_l", "="), Sp, f>>, <<S("m"), Nil, P(7)>>), {"def", "do"}),
  WithG(C(2, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), PArg1("p"), Sp, K("assignment_l", "="), Sp, f>>, <<S("m"), P(4), P(8)>>), {"def", "do"}),
  WithG(C(2, "Defs", <<K("keyword_l", "def"), Sp, Kw("Self_", "self"), K("operator_l", "."), K("name_l", "m"), C(1, "Args", <<K("begin_l", "("), K("end_l", ")")>>, <<Empty>>), Sp, K("assignment_l", "="), Sp, f>>, <<P(3), S("m"), P(6), P(10)>>), {"def", "do"}),
  WithG(C(2, "Defs", <<K("keyword_l", "def"), Sp, a, K("operator_l", "::"), K("name_l", "m"), Sp, K("assignment_l", "="), Sp, C(2, "Rescue", <<b, Sp, C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, f>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<3>>), Nil>>)>>, <<P(3), S("m"), Nil, P(9)>>), {"def", "do"})
>>
DefCmd(f) == <<
  WithG(C(4, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), Sp, K("assignment_l", "="), Sp, Cmd1("n", f)>>, <<S("m"), Nil, P(7)>>), {"def", "do"})
>>

(* a rescue modifier binds inside the value of an assignment, so its left operand must be closed *)
RescArgIn(f) == <<
  C(2, "Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, C(2, "Rescue", <<f, Sp, C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, b>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<3>>), Nil>>)>>, <<S("v"), P(5)>>)
>>
RescCmdArg(f) == <<
  C(4, "Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, C(4, "Rescue", <<Cmd1("m", f), Sp, C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, b>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<3>>), Nil>>)>>, <<S("v"), P(5)>>)
>>
RescDefArg(f) == <<
  WithG(C(2, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), Sp, K("assignment_l", "="), Sp, C(2, "Rescue", <<f, Sp, C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, b>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<3>>), Nil>>)>>, <<S("m"), Nil, P(7)>>), {"def", "do"})
>>
RescDefCmd(f) == <<
  WithG(C(4, "Defs", <<K("keyword_l", "def"), Sp, Kw("Self_", "self"), K("operator_l", "."), K("name_l", "m"), Sp, K("assignment_l", "="), Sp, C(2, "Rescue", <<Cmd1("n", f), Sp, C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, b>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<3>>), Nil>>)>>, <<P(3), S("m"), Nil, P(9)>>), {"def", "do"})
>>
(* break, next, return: a following modifier keyword is a modifier *)
MidPrim(f) == <<
  WithG(C(1, "Class", <<K("keyword_l", "class"), Sp, C(1, "Const", <<f, K("double_colon_l", "::"), K("name_l", "M")>>, <<P(1), S("M")>>), T("; "), K("end_l", "end")>>, <<P(3), Nil, Nil>>), {"cls"})
>>
MidArg(f) == <<
  C(2, "OrAsgn", <<LvT("v"), Sp, K("operator_l", "||="), Sp, C(2, "Rescue", <<a, Sp, C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, f>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<3>>), Nil>>)>>, <<P(1), P(5)>>),
  C(1, "KwBegin", <<K("begin_l", "begin"), T("; "), C(4, "Rescue", <<a, T("; "), C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, C(2, "Array", <<f>>, <<PL(<<1>>)>>), Sp, K("begin_l", "then"), Sp, b>>, <<P(3), Nil, P(7)>>)>>, <<P(1), PL(<<3>>), Nil>>), T("; "), K("end_l", "end")>>, <<PL(<<3>>)>>)
>>
MidIn(f) == <<
  WithG(Void(C(3, "Return", <<K("keyword_l", "return"), Sp, f>>, <<PL(<<3>>)>>)), {"ret", "kwarg"}),
  WithG(Void(C(3, "Return", <<K("keyword_l", "return"), Sp, f, T(", "), SplatN(b)>>, <<PL(<<3, 5>>)>>)), {"ret", "kwarg"}),
  WithG(Void(C(3, "Break", <<K("keyword_l", "break"), Sp, f>>, <<PL(<<3>>)>>)), {"kwarg"}),
  WithG(Void(C(3, "Next", <<K("keyword_l", "next"), Sp, f, T(", "), b>>, <<PL(<<3, 5>>)>>)), {"kwarg"})
>>
DefParam(f) == <<
  WithG(C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), C(1, "Args", <<K("begin_l", "("), C(2, "Optarg", <<K("name_l", "p"), Sp, K("operator_l", "="), Sp, f>>, <<S("p"), P(5)>>), T(", "), C(2, "Kwoptarg", <<K("name_l", "q"), T(": "), b>>, <<S("q"), P(3)>>), K("end_l", ")")>>, <<PL(<<2, 4>>)>>), T("; "), K("end_l", "end")>>, <<S("m"), P(4), Nil>>), {"def"}),
  WithG(C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), Sp, C(1, "Args", <<C(2, "Kwoptarg", <<K("name_l", "q"), T(": "), f>>, <<S("q"), P(3)>>)>>, <<PL(<<1>>)>>), T("\n"), b, T("\n"), K("end_l", "end")>>, <<S("m"), P(5), P(7)>>), {"def"})
>>

(* bodies of definitions: subject to context rules, see the guards in Wraps *)
DefIn(f) == <<
  DefB(f, "\n", "\n"), DefB(f, "; ", "; "),
  WithG(C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m="), PArg1("p"), Sp, Seq2(f, b), T("\n"), K("end_l", "end")>>, <<S("m="), P(4), P(6)>>), {"def"}),
  WithG(C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), Sp, BArg1("p"), T("\n"), C(4, "Rescue", <<f, T("\n"), C(4, "RescueBody", <<K("keyword_l", "rescue"), K("begin_l", "\n"), b>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<3>>), Nil>>), T("\n"), K("end_l", "end")>>, <<S("m"), P(5), P(7)>>), {"def"}),
  WithG(C(1, "Defs", <<K("keyword_l", "def"), Sp, Kw("Self_", "self"), K("operator_l", "."), K("name_l", "m"), T("\n"), f, T("\n"), K("end_l", "end")>>, <<P(3), S("m"), Nil, P(7)>>), {"def"}),
  WithG(C(1, "Defs", <<K("keyword_l", "def"), Sp, a, K("operator_l", "::"), K("name_l", "m"), C(1, "Args", <<K("begin_l", "("), K("end_l", ")")>>, <<Empty>>), Sp, f, T("\n"), K("end_l", "end")>>, <<P(3), S("m"), P(6), P(8)>>), {"def"}),
  WithG(C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "+"), PArg1("p"), T("; "), f, T("\n"), K("end_l", "end")>>, <<S("+"), P(4), P(6)>>), {"def"})
>>
ClassIn(f) == <<
  WithG(C(1, "Class", <<K("keyword_l", "class"), Sp, kN, T("\n"), f, T("\n"), K("end_l", "end")>>, <<P(3), Nil, P(5)>>), {"cls"}),
  WithG(C(1, "Class", <<K("keyword_l", "class"), Sp, kN, Sp, K("operator_l", "<"), Sp, a, T("; "), Seq2(f, b), T("; "), K("end_l", "end")>>, <<P(3), P(7), P(9)>>), {"cls"}),
  WithG(C(1, "Class", <<K("keyword_l", "class"), Sp, TopK, T("; "), f, T("; "), K("end_l", "end")>>, <<P(3), Nil, P(5)>>), {"cls"}),
  WithG(C(1, "Module", <<K("keyword_l", "module"), Sp, kN, T("\n"), C(4, "Ensure", <<f, T("\n"), K("keyword_l", "ensure"), Sp, b>>, <<P(1), P(5)>>), T("\n"), K("end_l", "end")>>, <<P(3), P(5)>>), {"cls"}),
  C(1, "SClass", <<K("keyword_l", "class"), Sp, K("operator_l", "<<"), Sp, Kw("Self_", "self"), T("; "), f, T("; "), K("end_l", "end")>>, <<P(5), P(7)>>)
>>

(* KwBegin with a single plain statement is itself the statement list *)
KwB(f) == LET x == C(1, "KwBegin", <<K("begin_l", "begin"), Sp, f, T("\n"), K("end_l", "end")>>, <<PL(<<3>>)>>)
          IN x

(* ------------------------------ composition ---------------------------------- *)
RECURSIVE VoidN(_)
Present(x) == x[1] = "n"
(* expressions that transfer control and so have no value *)
VoidN(n) ==
  CASE n.ty \in {"Return", "Break", "Next", "Redo", "Retry"} -> TRUE
    [] n.ty \in {"MatchPattern", "MatchPatternP", "And", "Or"} -> VoidN(n.v[1][2])
    [] n.ty \in {"Begin", "KwBegin"} -> LET l == n.v[1][2] IN IF l = <<>> THEN FALSE ELSE VoidN(l[Len(l)])
    [] n.ty \in {"If", "IfMod", "IfTernary"} -> IF Present(n.v[2]) /\ Present(n.v[3]) THEN VoidN(n.v[2][2]) /\ VoidN(n.v[3][2]) ELSE FALSE
    [] OTHER -> FALSE
Val(f) == ~VoidN(f.n)
(* what an expression becomes as a condition *)
RECURSIVE CondN(_)
CondF(x) == IF Present(x) THEN <<"n", CondN(x[2])>> ELSE x
CondN(n) ==
  CASE n.ty \in {"And", "Or"} -> [n EXCEPT !.v = <<CondF(n.v[1]), CondF(n.v[2])>>]
    [] n.ty = "Irange" -> [n EXCEPT !.ty = "IFlipFlop", !.v = <<CondF(n.v[1]), CondF(n.v[2])>>]
    [] n.ty = "Erange" -> [n EXCEPT !.ty = "EFlipFlop", !.v = <<CondF(n.v[1]), CondF(n.v[2])>>]
    [] n.ty = "Begin" -> IF Len(n.v[1][2]) = 1 THEN [n EXCEPT !.v = <<<<"l", <<CondN(n.v[1][2][1])>>>>>>] ELSE n
    [] n.ty = "Regexp" -> LET e == CHOOSE l \in {n.L[i] : i \in DOMAIN n.L} : l[1] = "expression_l"
                         IN [ty |-> "MatchCurrentLine", o |-> n.o, L |-> <<e>>, v |-> <<<<"n", [n EXCEPT !.o = 0]>>>>]
    [] OTHER -> n
Cond(f) == [f EXCEPT !.n = CondN(@)]
FirstChar(f) == SubSeq(f.s, 1, 1)
HasPrefix(f, p) == Len(f.s) >= Len(p) /\ SubSeq(f.s, 1, Len(p)) = p
ModFirst(f) == \E p \in {"if ", "unless ", "while ", "until "} : HasPrefix(f, p)
SafeFirst(f) == ~ModFirst(f) /\ FirstChar(f) \notin {"{", "-", "+", "*", "&", "/", "<", ".", "(", ":", "[", "?", "%", "~", "!"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Wraps(f) ==
     (IF f.lv <= 1 /\ Val(f) THEN Recv(f) \o PrimOps(f) ELSE <<>>)
  \o (IF f.lv <= 2 /\ Val(f) THEN ArgIn(f) ELSE <<>>)
  \o (IF f.lv <= 2 /\ Val(f) /\ "do" \notin f.g /\ SafeFirst(f) THEN CmdArg(f) ELSE <<>>)
  \o (IF f.lv <= 2 /\ Val(f) /\ "do" \notin f.g THEN CmdMark(f) ELSE <<>>)
  \o (IF f.lv <= 3 /\ Val(f) /\ "do" \notin f.g THEN CondIn(Cond(f)) ELSE <<>>)
  \o (IF f.lv <= 3 /\ Val(f) /\ "do" \notin f.g THEN ExprIn(f) ELSE <<>>)
  \o (IF f.lv <= 1 /\ Val(f) /\ SafeFirst(f) /\ FirstChar(f) \notin Digits THEN PreOps(f) ELSE <<>>)
  \o (IF f.lv <= 1 /\ Val(f) /\ SafeFirst(f) THEN NotOp(Cond(f)) ELSE <<>>)
  \o (IF f.lv <= 3 /\ Val(f) /\ f.n.ty \notin Literals /\ "dot3" \notin f.g THEN DefsOn(f) ELSE <<>>)
  \o (IF f.lv <= 1 /\ Val(f) /\ "neg" \notin f.h THEN PowOp(f) ELSE <<>>)
  \o (IF f.lv <= 4 /\ f.n.ty # "KwBegin" THEN LoopMod(f) ELSE <<>>)
  \o (IF f.lv <= 1 /\ Val(f) THEN RescArgIn(f) ELSE <<>>)
  \o (IF f.lv <= 1 /\ Val(f) /\ "do" \notin f.g /\ SafeFirst(f) THEN RescCmdArg(f) ELSE <<>>)
  \o (IF f.lv <= 1 /\ Val(f) /\ f.g \cap {"cls", "dconst", "END"} = {} THEN RescDefArg(f) ELSE <<>>)
  \o (IF f.lv <= 1 /\ Val(f) /\ f.g \cap {"cls", "dconst", "do", "END"} = {} /\ SafeFirst(f) THEN RescDefCmd(f) ELSE <<>>)
  \o (IF f.lv <= 2 /\ Val(f) /\ "do" \notin f.g /\ ~ModFirst(f) THEN MidIn(f) ELSE <<>>)
  \o (IF f.lv <= 2 /\ Val(f) /\ ~ModFirst(f) THEN MidArg(f) ELSE <<>>)
  \o (IF f.lv <= 1 /\ Val(f) /\ ~ModFirst(f) THEN MidPrim(f) ELSE <<>>)
  \o (IF f.lv <= 2 /\ Val(f) /\ f.g \cap {"cls", "dconst", "END"} = {} THEN DefParam(f) ELSE <<>>)
  \o (IF f.lv <= 4 THEN StmtIn(f) \o <<KwB(f)>> ELSE <<>>)
  \o (IF f.lv <= 2 /\ Val(f) /\ f.g \cap {"cls", "dconst", "END"} = {} THEN DefArg(f) ELSE <<>>)
  \o (IF f.lv <= 2 /\ Val(f) /\ f.g \cap {"cls", "dconst", "do", "END"} = {} /\ SafeFirst(f) THEN DefCmd(f) ELSE <<>>)
  \o (IF f.lv <= 4 /\ f.g \cap {"cls", "dconst", "END"} = {} THEN DefIn(f) ELSE <<>>)
  \o (IF f.lv <= 4 /\ "ret" \notin f.g THEN ClassIn(f) ELSE <<>>)
=============================================================================
