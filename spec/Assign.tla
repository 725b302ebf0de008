------------------------------- MODULE Assign -------------------------------
(* C25.  Assignment targets.  A destination is built step by step (targets, splats and nested groups  *)
(* pushed on a stack of open groups); at every point where it is complete it is used as the left-hand *)
(* side of every form of assignment, with every form of value, in every context.                      *)
EXTENDS Ruby
CONSTANTS Targets, MaxItems, MaxDepth, Forms, Vals, Ctxs, Spaced
VARIABLES st, n

(* a target: node kind, parts, fields, position of the value field, kind of that field *)
TR(ty, ps, fl, hole, lst) == [ty |-> ty, ps |-> ps, fl |-> fl, hole |-> hole, lst |-> lst, bad |-> "", cst |-> FALSE]
Cst(t) == [t EXCEPT !.cst = TRUE]
Attr(r, dot, m) == TR(IF dot = "&." THEN "CSend" ELSE "Send", <<r, K("dot_l", dot), K("selector_l", m)>>, <<P(1), S(m \o "="), Nil>>, 3, TRUE)
Attrd == C(1, "Send", <<Id("a"), K("dot_l", "."), K("selector_l", "y")>>, <<P(1), S("y"), Empty>>)
BadText(t) ==
  CASE t = "self" -> "self" [] t = "nil" -> "nil" [] t = "true" -> "true" [] t = "false" -> "false"
    [] t = "file" -> "__FILE__" [] t = "line" -> "__LINE__" [] t = "enc" -> "__ENCODING__"
    [] t = "nth" -> "$1" [] t = "nth2" -> "$20" [] t = "amp" -> "$&" [] t = "tick" -> "$`" [] t = "quote" -> "$'" [] t = "plus" -> "$+"
    [] t = "num" -> "_1" [] t = "num9" -> "_9"
BadKind(t) ==
  CASE t = "self" -> "CantAssignToSelf" [] t = "nil" -> "CantAssignToNil" [] t = "true" -> "CantAssignToTrue" [] t = "false" -> "CantAssignToFalse"
    [] t = "file" -> "CantAssignToFile" [] t = "line" -> "CantAssignToLine" [] t = "enc" -> "CantAssignToEncoding"
    [] t \in {"num", "num9"} -> "ReservedForNumparam"
    [] OTHER -> "CantSetVariable"
Tg(t) ==
  CASE t = "lvar" -> TR("Lvasgn", <<K("name_l", "v")>>, <<S("v"), Nil>>, 2, FALSE)
    [] t = "lvar_" -> TR("Lvasgn", <<K("name_l", "_")>>, <<S("_"), Nil>>, 2, FALSE)
    [] t = "utf" -> TR("Lvasgn", <<K("name_l", "Ã©")>>, <<S("Ã©"), Nil>>, 2, FALSE)
    [] t = "ivar" -> TR("Ivasgn", <<K("name_l", "@i")>>, <<S("@i"), Nil>>, 2, FALSE)
    [] t = "cvar" -> TR("Cvasgn", <<K("name_l", "@@c")>>, <<S("@@c"), Nil>>, 2, FALSE)
    [] t = "gvar" -> TR("Gvasgn", <<K("name_l", "$g")>>, <<S("$g"), Nil>>, 2, FALSE)
    [] t = "gspec" -> TR("Gvasgn", <<K("name_l", "$,")>>, <<S("$,"), Nil>>, 2, FALSE)
    [] t = "gdash" -> TR("Gvasgn", <<K("name_l", "$-w")>>, <<S("$-w"), Nil>>, 2, FALSE)
    [] t = "gzero" -> TR("Gvasgn", <<K("name_l", "$0")>>, <<S("$0"), Nil>>, 2, FALSE)
    [] t = "gtilde" -> TR("Gvasgn", <<K("name_l", "$~")>>, <<S("$~"), Nil>>, 2, FALSE)
    [] t = "const" -> Cst(TR("Casgn", <<K("name_l", "K")>>, <<Nil, S("K"), Nil>>, 3, FALSE))
    [] t = "top" -> Cst(TR("Casgn", <<C(1, "Cbase", <<T("::")>>, <<>>), K("name_l", "K")>>, <<P(1), S("K"), Nil>>, 3, FALSE))
    [] t = "scoped" -> Cst(TR("Casgn", <<kN, K("double_colon_l", "::"), K("name_l", "L")>>, <<P(1), S("L"), Nil>>, 3, FALSE))
    [] t = "dynsc" -> Cst(TR("Casgn", <<Id("a"), K("double_colon_l", "::"), K("name_l", "L")>>, <<P(1), S("L"), Nil>>, 3, FALSE))
    [] t = "attr" -> Attr(Id("a"), ".", "x")
    [] t = "attrK" -> Attr(Id("a"), ".", "X")
    [] t = "attrself" -> Attr(Kw("Self_", "self"), ".", "x")
    [] t = "attrnl" -> TR("Send", <<Id("a"), T("\n"), K("dot_l", "."), K("selector_l", "x")>>, <<P(1), S("x="), Nil>>, 3, TRUE)
    [] t = "attrkw" -> Attr(Id("a"), ".", "class")
    [] t = "attr::" -> Attr(Id("a"), "::", "x")
    [] t = "safe" -> Attr(Id("a"), "&.", "x")
    [] t = "safeK" -> Attr(Id("a"), "&.", "X")
    [] t = "chain" -> Attr(C(1, "Index", <<Attrd, K("begin_l", "["), b, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>), ".", "x")
    [] t = "callattr" -> Attr(C(1, "Send", <<K("selector_l", "m"), K("begin_l", "("), b, K("end_l", ")")>>, <<Nil, S("m"), PL(<<3>>)>>), ".", "x")
    [] t = "blkattr" -> Attr(C(1, "Block", <<Id("m"), Sp, K("begin_l", "{"), Sp, b, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>), ".", "x")
    [] t = "idx" -> TR("IndexAsgn", <<Id("a"), K("begin_l", "["), b, K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>, 3, FALSE)
    [] t = "idx0" -> TR("IndexAsgn", <<Id("a"), K("begin_l", "["), K("end_l", "]")>>, <<P(1), Empty, Nil>>, 3, FALSE)
    [] t = "idx2" -> TR("IndexAsgn", <<Id("a"), K("begin_l", "["), b, T(", "), c, K("end_l", "]")>>, <<P(1), PL(<<3, 5>>), Nil>>, 3, FALSE)
    [] t = "idxs" -> TR("IndexAsgn", <<Id("a"), K("begin_l", "["), SplatN(c), T(", "), b, K("end_l", "]")>>, <<P(1), PL(<<3, 5>>), Nil>>, 3, FALSE)
    [] t = "idxt" -> TR("IndexAsgn", <<Id("a"), K("begin_l", "["), b, T(","), K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>, 3, FALSE)
    [] t = "idxnl" -> TR("IndexAsgn", <<Id("a"), K("begin_l", "["), T("\n"), b, T("\n"), K("end_l", "]")>>, <<P(1), PL(<<4>>), Nil>>, 3, FALSE)
    [] t = "idxk" -> TR("IndexAsgn", <<kN, K("begin_l", "["), b, K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>, 3, FALSE)
    [] t = "idxiv" -> TR("IndexAsgn", <<c, K("begin_l", "["), b, K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>, 3, FALSE)
    [] t = "idxidx" -> TR("IndexAsgn", <<C(1, "Index", <<c, K("begin_l", "["), b, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>), K("begin_l", "["), a, K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>, 3, FALSE)
    [] t = "idxself" -> TR("IndexAsgn", <<Kw("Self_", "self"), K("begin_l", "["), b, K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>, 3, FALSE)
    [] OTHER -> [TR("Bad", <<T(BadText(t))>>, <<>>, 0, FALSE) EXCEPT !.bad = BadKind(t)]

Top(f, t) == IF t.ps[1].s = "::" THEN Also(f, "double_colon_l", "::") ELSE f
(* the target on its own *)
TNode(t) == IF t.bad # "" THEN C(1, "Bad", t.ps, <<>>)
            ELSE Top(C(1, t.ty, t.ps, IF t.lst THEN [t.fl EXCEPT ![t.hole] = Empty] ELSE t.fl), t)
(* as destination of an operator assignment an attribute is read first *)
Reader(t) == IF t.bad = "" /\ t.lst THEN C(1, t.ty, t.ps, <<t.fl[1], S(t.ps[Len(t.ps)].s), Empty>>) ELSE TNode(t)
AddG(f, x) == [f EXCEPT !.g = x]

(* values: <<fragment, usable with op=>>; only in statements: mrhs and commands *)
Val3(v) ==
  CASE v = "int" -> b
    [] v = "two" -> C(4, "Array", <<b, T(", "), c>>, <<PL(<<1, 3>>)>>)
    [] v = "splat" -> C(4, "Array", <<SplatN(c)>>, <<PL(<<1>>)>>)
    [] v = "mixed" -> C(4, "Array", <<b, T(", "), SplatN(c), T(", "), a>>, <<PL(<<1, 3, 5>>)>>)
    [] v = "cmd" -> Cmd1("n", b)
    [] v = "recvcmd" -> C(3, "Send", <<a, K("dot_l", "."), K("selector_l", "n"), Sp, b, T(", "), c>>, <<P(1), S("n"), PL(<<5, 7>>)>>)
    [] v = "asgn" -> C(2, "Lvasgn", <<K("name_l", "w"), Sp, K("operator_l", "="), Sp, b>>, <<S("w"), P(5)>>)
    [] v = "opasgn" -> C(2, "OpAsgn", <<LvT("w"), Sp, K("operator_l", "+="), Sp, b>>, <<P(1), S("+"), P(5)>>)
    [] v = "tern" -> C(2, "IfTernary", <<a, Sp, K("question_l", "?"), Sp, b, Sp, K("colon_l", ":"), Sp, c>>, <<P(1), P(5), P(9)>>)
    [] v = "array" -> C(1, "Array", <<K("begin_l", "["), b, T(", "), c, K("end_l", "]")>>, <<PL(<<2, 4>>)>>)
    [] v = "paren" -> C(1, "Begin", <<K("begin_l", "("), b, K("end_l", ")")>>, <<PL(<<2>>)>>)
    [] v = "resc" -> C(2, "Rescue", <<a, Sp, C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, b>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<3>>), Nil>>)
Multi == {"two", "splat", "mixed"}
AllOps == <<"+=", "-=", "*=", "/=", "%=", "**=", "|=", "&=", "^=", "<<=", ">>=", "||=", "&&=">>
OpName(o) == SubSeq(o, 1, Len(o) - 1)
OpForm(op, t, v) ==
  LET ps == <<Reader(t), Sp, K("operator_l", op), Sp, v>>
  IN CASE op = "||=" -> C(2, "OrAsgn", ps, <<P(1), P(5)>>)
       [] op = "&&=" -> C(2, "AndAsgn", ps, <<P(1), P(5)>>)
       [] OTHER -> C(2, "OpAsgn", ps, <<P(1), S(OpName(op)), P(5)>>)
EqForm(t, v, sp) ==
  IF t.bad # "" THEN C(2, "Bad", t.ps \o <<sp, K("operator_l", "="), sp, v>>, <<>>)
  ELSE Top(C(2, t.ty, t.ps \o <<sp, K("operator_l", "="), sp, v>>,
             [t.fl EXCEPT ![t.hole] = IF t.lst THEN PL(<<Len(t.ps) + 4>>) ELSE P(Len(t.ps) + 4)]), t)

(* ---- contexts the whole assignment statement stands in ---- *)
Ctx(x, f) ==
  CASE x = "top" -> f
    [] x = "paren" -> C(1, "Begin", <<K("begin_l", "("), f, K("end_l", ")")>>, <<PL(<<2>>)>>)
    [] x = "block" -> C(1, "Block", <<Id("m"), Sp, K("begin_l", "{"), Sp, f, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)
    [] x = "def" -> C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), T("\n"), f, T("\n"), K("end_l", "end")>>, <<S("m"), Nil, P(5)>>)
    [] x = "class" -> C(1, "Class", <<K("keyword_l", "class"), Sp, kN, T("\n"), f, T("\n"), K("end_l", "end")>>, <<P(3), Nil, P(5)>>)
    [] x = "if" -> C(1, "If", <<K("keyword_l", "if"), Sp, a, K("begin_l", "\n"), f, T("\n"), K("end_l", "end")>>, <<P(3), P(5), Nil>>)
    [] x = "mod" -> C(4, "IfMod", <<f, Sp, K("keyword_l", "if"), Sp, a>>, <<P(5), P(1), Nil>>)
    [] x = "str" -> C(1, "Dstr", <<K("begin_l", "\""), C(1, "Begin", <<K("begin_l", "#{"), f, K("end_l", "}")>>, <<PL(<<2>>)>>), K("end_l", "\"")>>, <<PL(<<2>>)>>)
CtxHead(x) == CASE x = "top" -> 0 [] x = "paren" -> 1 [] x = "block" -> 4 [] x = "def" -> 6 [] x = "class" -> 8 [] x = "if" -> 5 [] x = "mod" -> 0 [] x = "str" -> 3

(* ---- first reason to reject: <<kind, begin, end>>, or <<>> ---- *)
Reject(t, off, x, masgn) ==
  LET l == Len(Text(t.ps)) IN
  IF t.bad # "" THEN <<t.bad, off, off + l>>
  ELSE IF t.cst /\ x = "def" THEN <<"DynamicConstantAssignment", off, off + l>>
  ELSE IF masgn /\ t.ty = "CSend" THEN <<"CsendInsideMasgn", off + Len(t.ps[1].s), off + Len(t.ps[1].s) + 2>>
  ELSE <<>>
Emit1(f, r, x) ==
  LET w == Ctx(x, f) IN
  IF r = <<>> THEN CaseXL(w)
  ELSE Out([s |-> w.s, e1 |-> <<r[1], r[2] + CtxHead(x), r[3] + CtxHead(x)>>])

(* ---- destinations: items are targets, splats, groups ---- *)
ItemT(t) == [k |-> "t", f |-> TNode(t), rej |-> [x \in {"top", "def"} |-> Reject(t, 0, x, TRUE)], t |-> t]
ItemS(t) == [k |-> "*", f |-> SplatN(TNode(t)), rej |-> [x \in {"top", "def"} |-> LET r == Reject(t, 1, x, TRUE) IN r], t |-> t]
ItemS0 == [k |-> "*", f |-> C(2, "Splat", <<K("operator_l", "*")>>, <<Nil>>), rej |-> [x \in {"top", "def"} |-> <<>>], t |-> <<>>]
HasSplat(g) == \E i \in DOMAIN g : g[i].k = "*"
RECURSIVE ListParts(_, _)
ListParts(g, i) == IF i > Len(g) THEN <<>> ELSE (IF i > 1 THEN <<T(", ")>> ELSE <<>>) \o <<g[i].f>> \o ListParts(g, i + 1)
GParts(g, trail) == ListParts(g, 1) \o (IF trail THEN <<T(",")>> ELSE <<>>)
RECURSIVE RejList(_, _, _, _)
RejList(g, i, off, x) ==
  IF i > Len(g) THEN <<>>
  ELSE LET r == g[i].rej[x] IN
       IF r # <<>> THEN <<r[1], r[2] + off, r[3] + off>> ELSE RejList(g, i + 1, off + Len(g[i].f.s) + 2, x)
(* a parenthesised group: text, node, rejection; a group holding just a group is that group *)
Group(g, trail) ==
  LET ps == <<K("begin_l", "(")>> \o GParts(g, trail) \o <<K("end_l", ")")>>
      flat == Len(g) = 1 /\ g[1].k = "g" /\ ~trail
      f == C(1, "Mlhs", ps, <<PL([i \in 1..Len(g) |-> 2 * i])>>)
      fl == C(1, "Mlhs", <<K("begin_l", "("), T(g[1].f.s), K("end_l", ")")>>, <<>>)
      inner == g[1].f.n
  IN [k |-> "g",
      f |-> IF flat THEN [fl EXCEPT !.n.v = <<<<"l", [i \in DOMAIN inner.v[1][2] |-> [inner.v[1][2][i] EXCEPT !.o = @ + 1]]>>>>] ELSE f,
      rej |-> [x \in {"top", "def"} |-> RejList(g, 1, 1, x)], t |-> <<>>]
(* may this list stand as it is? one plain target alone is no group *)
Complete(g, trail) == /\ g # <<>> /\ (trail => ~HasSplat(g) /\ g[Len(g)].k # "*")
                      /\ (Len(g) = 1 /\ ~trail => g[1].k \in {"*", "g"})
TopM(g, trail) ==
  IF Len(g) = 1 /\ g[1].k = "g" /\ ~trail THEN g[1].f
  ELSE LET ps == GParts(g, trail) IN CR(1, "Mlhs", ps, <<PL([i \in 1..Len(g) |-> 2 * i - 1])>>, 1, 2 * Len(g) - 1)

Masgn(m, v) == C(4, "Masgn", <<m, Sp, K("operator_l", "="), Sp, v>>, <<P(1), P(5)>>)
ForS(m) == C(1, "For", <<K("keyword_l", "for"), Sp, m, Sp, K("operator_l", "in"), Sp, a, K("begin_l", ";"), Sp, b, T("; "), K("end_l", "end")>>, <<P(3), P(7), P(10)>>)
RescS(m) == C(1, "KwBegin", <<K("begin_l", "begin"), T("; "), C(4, "Rescue", <<a, T("; "), C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, K("assoc_l", "=>"), Sp, m, K("begin_l", ";"), Sp, b>>, <<Nil, P(5), P(8)>>)>>, <<P(1), PL(<<3>>), Nil>>), T("; "), K("end_l", "end")>>, <<PL(<<3>>)>>)
RescE(m) == C(1, "KwBegin", <<K("begin_l", "begin"), T("; "), C(4, "Rescue", <<a, T("; "), C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, C(2, "Array", <<kN, T(", "), kN>>, <<PL(<<1, 3>>)>>), Sp, K("assoc_l", "=>"), Sp, m, K("begin_l", "\n"), b>>, <<P(3), P(7), P(9)>>)>>, <<P(1), PL(<<3>>), Nil>>), T("; "), K("end_l", "end")>>, <<PL(<<3>>)>>)
Shift(r, k) == IF r = <<>> THEN r ELSE <<r[1], r[2] + k, r[3] + k>>
RX(x) == IF x = "def" THEN "def" ELSE "top"

(* ---- state machine ---- *)
Cur == st[Len(st)]
Init == st = <<<<>>>> /\ n = 0
Push(it) == st' = [st EXCEPT ![Len(st)] = Append(@, it)]
Next ==
  \/ /\ n < MaxItems /\ n' = n + 1
     /\ \/ \E t \in Targets : Push(ItemT(Tg(t)))
        \/ ~HasSplat(Cur) /\ \E t \in Targets : Push(ItemS(Tg(t)))
        \/ ~HasSplat(Cur) /\ Push(ItemS0)
        \/ Len(st) <= MaxDepth /\ st' = Append(st, <<>>)
  \/ /\ Len(st) > 1 /\ n' = n
     /\ \E trail \in {TRUE, FALSE} :
          /\ Complete(Cur, trail)
          /\ st' = Append(SubSeq(st, 1, Len(st) - 2), Append(st[Len(st) - 1], Group(Cur, trail)))
MultiForms(x, trail) ==
  \E mm \in {TopM(st[1], trail)} :
  LET r == RejList(st[1], 1, 0, RX(x)) IN
  /\ ("=" \in Forms => \A v \in Vals : Emit1(Masgn(mm, Val3(v)), r, x))
  /\ ("for" \in Forms => Emit1(ForS(mm), Shift(r, 4), x))
  /\ ("op" \in Forms => Out([s |-> Ctx(x, C(4, "Bad", <<mm, T(" += "), b>>, <<>>)).s, ok |-> FALSE]))
SingleForms(t, x) ==
  LET r == Reject(t, 0, RX(x), FALSE)
      ro == IF t.cst /\ Len(t.ps) > 1 THEN <<>> ELSE r     \* A::K op= v is allowed inside a method
  IN
  /\ ("=" \in Forms => \A v \in Vals : Emit1(EqForm(t, Val3(v), Sp), r, x) /\ (Spaced /\ v \notin {"splat"} => Emit1(EqForm(t, Val3(v), T("")), r, x) /\ Emit1(EqForm(t, Val3(v), T("  ")), r, x)))
  /\ ("op" \in Forms => \A v \in Vals \ Multi : \A i \in DOMAIN AllOps :
        (v = "int" \/ i \in {1, 12}) /\ ~(v \in {"cmd", "recvcmd"} /\ t.ps[1].s = "::") => Emit1(OpForm(AllOps[i], t, Val3(v)), ro, x))
  /\ ("op" \in Forms => \A v \in Vals \cap Multi : Out([s |-> Ctx(x, OpForm("+=", t, Val3(v))).s, ok |-> FALSE]))
  /\ ("for" \in Forms => Emit1(ForS(TNode(t)), Shift(r, 4), x))
  /\ ("rescue" \in Forms => Emit1(RescS(TNode(t)), Shift(r, 20), x) /\ Emit1(RescE(TNode(t)), Shift(r, 25), x))
(* expressions that are no targets at all *)
NoT == {"a()", "a.b()", "a&.b()", "m!", "a.b?", "a&.b!", "1", "1.5", "\"s\"", "'s'", ":s", "[v, w]", "{}", "-> {}", "a.()", "(v)", "((v))", "(a.b)", "super", "super()", "yield",
        "m {}", "a.b {}", "K()", "\"#{v}\"", "/r/", "%w[v]", "?x", "begin; end", "defined?(v)", "(v; w)", "a::b()", "`x`", ":\"x\"", "__method__()", "1r", "a.-@", "K.L()", "if v; w end"}
Before == {"", "v, ", "*", "v, *", "(v, "}
After(p) == IF p = "(v, " THEN {") = 1"} ELSE {" = 1", " = n 1"} \cup (IF p = "" THEN {" += 1", " ||= n 1"} ELSE {}) \cup {", w = 1, 2"}
Bads == \A t \in NoT : /\ \A p \in Before : \A q \in After(p) : Out([s |-> p \o t \o q, ok |-> FALSE])
                      /\ Out([s |-> "for " \o t \o " in a; end", ok |-> FALSE])
                      /\ Out([s |-> "for v, " \o t \o " in a; end", ok |-> FALSE])
                      /\ Out([s |-> "begin; a; rescue => " \o t \o "; end", ok |-> FALSE])
Emit ==
  /\ (n = 0 /\ Len(st) = 1 => Bads)
  /\ (Len(st) = 1 => \A x \in Ctxs :
        /\ \A trail \in {TRUE, FALSE} : Complete(st[1], trail) => MultiForms(x, trail)
        /\ (Len(st[1]) = 1 /\ st[1][1].k = "t" => SingleForms(st[1][1].t, x)))
=============================================================================
