------------------------------- MODULE Forms --------------------------------
(* C03, C04.  Compound constructs with every combination of their optional parts present, absent or   *)
(* empty.  A construct is written slot by slot (its keyword, its head, its clauses, its branches, its  *)
(* separators); the state is the construct and the slots written so far.  What the whole denotes, and  *)
(* where each part lies, follows from the slots alone.                                                 *)
EXTENDS Ruby
CONSTANTS FormSet, Wrs, Clauses, Clauses2, SepSet
VARIABLES form, sl

Bds == {"", "a", "ab"}
Elses == {"-", "", "b"}
Thens == {"then", "\n", ";", "\nthen"}
Stm(x) == IF x = "ab" THEN Seq2(a, b) ELSE IF x = "b" THEN b ELSE a
Has(x) == x \notin {"", "-"}
(* `then` and its kin; a space in front of what follows, if anything follows *)
ThenP(t, more) ==
  CASE t = "then" -> <<Sp, K("begin_l", "then")>> \o (IF more THEN <<Sp>> ELSE <<>>)
    [] t = "\nthen" -> <<T("\n"), K("begin_l", "then")>> \o (IF more THEN <<Sp>> ELSE <<>>)
    [] t = "do" -> <<Sp, K("begin_l", "do")>> \o (IF more THEN <<Sp>> ELSE <<>>)
    [] t = ";" -> <<K("begin_l", ";")>> \o (IF more THEN <<Sp>> ELSE <<>>)
    [] t = "\n" -> <<K("begin_l", "\n")>>
(* a part, if present, and the field that refers to it *)
Part(x) == IF Has(x) THEN <<Stm(x)>> ELSE <<>>
Ref(x, i) == IF Has(x) THEN P(i) ELSE Nil

(* ------------------------- bodies with rescue, else, ensure ------------------------- *)
List(k) ==
  CASE k = "K" -> C(2, "Array", <<kN>>, <<PL(<<1>>)>>)
    [] k = "K,L" -> C(2, "Array", <<kN, T(", "), ConstN("L")>>, <<PL(<<1, 3>>)>>)
    [] k = "*a" -> C(2, "Array", <<SplatN(a)>>, <<PL(<<1>>)>>)
    [] k = "K,*a" -> C(2, "Array", <<kN, T(", "), SplatN(a)>>, <<PL(<<1, 3>>)>>)
Var(v) ==
  CASE v = "v" -> LvT("v")
    [] v = "@v" -> C(1, "Ivasgn", <<K("name_l", "@v")>>, <<S("@v"), Nil>>)
    [] v = "a.m" -> C(1, "Send", <<a, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m="), Empty>>)
    [] v = "a[1]" -> C(1, "IndexAsgn", <<a, K("begin_l", "["), b, K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>)
Clause(q) ==          \* <<class list, variable, then, body>>
  LET p1 == <<K("keyword_l", "rescue")>> \o (IF q[1] = "" THEN <<>> ELSE <<Sp, List(q[1])>>)
      p2 == p1 \o (IF q[2] = "" THEN <<>> ELSE <<Sp, K("assoc_l", "=>"), Sp, Var(q[2])>>)
      p3 == p2 \o ThenP(q[3], Has(q[4]))
      ps == p3 \o Part(q[4])
  IN C(4, "RescueBody", ps, <<IF q[1] = "" THEN Nil ELSE P(3), IF q[2] = "" THEN Nil ELSE P(Len(p2)), Ref(q[4], Len(ps))>>)
(* <<>> or the one fragment the body amounts to *)
Rescued(bd, cs, el, sep) ==
  IF cs = <<>> THEN Part(bd)
  ELSE LET p1 == IF Has(bd) THEN <<Stm(bd), T(sep)>> ELSE <<>>
           p2 == p1 \o <<Clause(cs[1])>> \o (IF Len(cs) = 2 THEN <<T(sep), Clause(cs[2])>> ELSE <<>>)
           p3 == p2 \o (IF el = "-" THEN <<>> ELSE <<T(sep), K("else_l", "else")>> \o (IF Has(el) THEN <<T(sep), Stm(el)>> ELSE <<>>))
       IN <<C(4, "Rescue", p3, <<Ref(bd, 1), PL(IF Len(cs) = 2 THEN <<Len(p1) + 1, Len(p1) + 3>> ELSE <<Len(p1) + 1>>), Ref(el, Len(p3))>>)>>
Ensured(bd, cs, el, en, sep) ==
  LET r == Rescued(bd, cs, el, sep)
  IN IF en = "-" THEN r
     ELSE LET p1 == IF r = <<>> THEN <<>> ELSE <<r[1], T(sep)>>
              p2 == p1 \o <<K("keyword_l", "ensure")>> \o (IF Has(en) THEN <<T(sep), Stm(en)>> ELSE <<>>)
          IN <<C(4, "Ensure", p2, <<IF r = <<>> THEN Nil ELSE P(1), Ref(en, Len(p2))>>)>>
Plain(r) == r # <<>> /\ r[1].n.ty = "Begin"
NoArgs == C(1, "Args", <<K("begin_l", "("), K("end_l", ")")>>, <<Empty>>)
Whole(w, r, sep) ==
  LET In(ty, hd, flds, close) ==       \* a keyword construct closed by `end`
        LET ps == hd \o <<T(sep)>> \o (IF r = <<>> THEN <<>> ELSE <<r[1], T(sep)>>) \o <<K("end_l", close)>>
        IN C(1, ty, ps, Append(flds, IF r = <<>> THEN Nil ELSE P(Len(hd) + 2)))
  IN CASE w = "begin" ->
            IF r = <<>> THEN C(1, "KwBegin", <<K("begin_l", "begin"), T(sep), K("end_l", "end")>>, <<Empty>>)
            ELSE IF Plain(r) THEN C(1, "KwBegin", <<K("begin_l", "begin"), T(sep), a, T("; "), b, T(sep), K("end_l", "end")>>, <<PL(<<3, 5>>)>>)
            ELSE C(1, "KwBegin", <<K("begin_l", "begin"), T(sep), r[1], T(sep), K("end_l", "end")>>, <<PL(<<3>>)>>)
       [] w = "def" -> In("Def", <<K("keyword_l", "def"), Sp, K("name_l", "m")>>, <<S("m"), Nil>>, "end")
       [] w = "def()" -> In("Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), NoArgs>>, <<S("m"), P(4)>>, "end")
       [] w = "def p" -> In("Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), Sp, BArg1("p")>>, <<S("m"), P(5)>>, "end")
       [] w = "defs" -> In("Defs", <<K("keyword_l", "def"), Sp, Kw("Self_", "self"), K("operator_l", "."), K("name_l", "m")>>, <<P(3), S("m"), Nil>>, "end")
       [] w = "class" -> In("Class", <<K("keyword_l", "class"), Sp, kN>>, <<P(3), Nil>>, "end")
       [] w = "class<" -> In("Class", <<K("keyword_l", "class"), Sp, kN, Sp, K("operator_l", "<"), Sp, a>>, <<P(3), P(7)>>, "end")
       [] w = "class<<" -> In("SClass", <<K("keyword_l", "class"), Sp, K("operator_l", "<<"), Sp, a>>, <<P(5)>>, "end")
       [] w = "module" -> In("Module", <<K("keyword_l", "module"), Sp, kN>>, <<P(3)>>, "end")
       [] w = "do" -> In("Block", <<a, Sp, K("begin_l", "do")>>, <<P(1), Nil>>, "end")
       [] w = "do|p|" -> In("Block", <<a, Sp, K("begin_l", "do"), Sp, Arg1("p")>>, <<P(1), P(5)>>, "end")
       [] w = "->do" -> In("Block", <<LambdaN, Sp, K("begin_l", "do")>>, <<P(1), Nil>>, "end")
       [] w = "->()do" -> In("Block", <<LambdaN, NoArgs, Sp, K("begin_l", "do")>>, <<P(1), P(2)>>, "end")
       [] w = "m()do" -> In("Block", <<C(1, "Send", <<K("selector_l", "m"), K("begin_l", "("), K("end_l", ")")>>, <<Nil, S("m"), Empty>>), Sp, K("begin_l", "do")>>, <<P(1), Nil>>, "end")
       [] w = "m a do" -> In("Block", <<Cmd1("m", a), Sp, K("begin_l", "do")>>, <<P(1), Nil>>, "end")
Body(q) == Whole(q[1], Ensured(q[2], (IF q[3] = <<>> THEN <<>> ELSE <<q[3]>>) \o (IF q[4] = <<>> THEN <<>> ELSE <<q[4]>>), q[5], q[6], q[7]), q[7])

(* ----------------------------------- conditions ----------------------------------- *)
(* `else` and its branch, as parts *)
ElseP(el, sep) == IF el = "-" THEN <<>> ELSE <<T(sep), K("else_l", "else")>> \o (IF Has(el) THEN <<T(sep), Stm(el)>> ELSE <<>>)
Elsif(e, el, sep) ==      \* <<then, body>> and the branch that follows
  LET p1 == <<K("keyword_l", "elsif"), Sp, c>> \o ThenP(e[1], Has(e[2]))
      p2 == p1 \o Part(e[2])
      p3 == p2 \o ElseP(el, sep)
  IN C(4, "If", p3, <<P(3), Ref(e[2], Len(p2)), Ref(el, Len(p3))>>)
If(q) ==                  \* keyword, then, body, elsif, else, separator
  LET sep == q[6]
      p1 == <<K("keyword_l", q[1]), Sp, a>> \o ThenP(q[2], Has(q[3]))
      p2 == p1 \o Part(q[3])
  IN IF q[4] # <<>>
     THEN LET p3 == p2 \o <<T(sep), Elsif(q[4], q[5], sep)>>
          IN PartLoc(C(1, "If", p3 \o <<T(sep), K("end_l", "end")>>, <<P(3), Ref(q[3], Len(p2)), P(Len(p3))>>), "else_l", Len(Text(p2)) + Len(sep), 5)
     ELSE LET p3 == p2 \o ElseP(q[5], sep)
              th == Ref(q[3], Len(p2))
              el == Ref(q[5], Len(p3))
          IN C(1, "If", p3 \o <<T(sep), K("end_l", "end")>>, IF q[1] = "if" THEN <<P(3), th, el>> ELSE <<P(3), el, th>>)
Loop(q) ==                \* keyword, do, body, separator
  LET p1 == <<K("keyword_l", q[1]), Sp, a>> \o ThenP(q[2], Has(q[3]))
      p2 == p1 \o Part(q[3])
  IN C(1, IF q[1] = "while" THEN "While" ELSE "Until", p2 \o <<T(q[4]), K("end_l", "end")>>, <<P(3), Ref(q[3], Len(p2))>>)
For(q) ==
  LET p1 == <<K("keyword_l", "for"), Sp, LvT("v"), Sp, K("operator_l", "in"), Sp, a>> \o ThenP(q[1], Has(q[2]))
      p2 == p1 \o Part(q[2])
  IN C(1, "For", p2 \o <<T(q[3]), K("end_l", "end")>>, <<P(3), P(7), Ref(q[2], Len(p2))>>)

(* ------------------------------------- case --------------------------------------- *)
Pats(p) ==
  CASE p = "1" -> <<b>>
    [] p = "1,K" -> <<b, T(", "), kN>>
    [] p = "*a" -> <<SplatN(a)>>
    [] p = "1,*a" -> <<b, T(", "), SplatN(a)>>
    [] p = "*a,1" -> <<SplatN(a), T(", "), b>>
    [] p = "*a,*a" -> <<SplatN(a), T(", "), SplatN(a)>>
    [] p = "1,K,nl" -> <<b, T(",\n"), kN>>
Odd(k, off) == [i \in 1..((k + 1) \div 2) |-> off + 2 * i - 1]
WhenN(w) ==               \* patterns, then, body
  LET pp == Pats(w[1])
      p1 == <<K("keyword_l", "when"), Sp>> \o pp
      p2 == p1 \o ThenP(w[2], Has(w[3])) \o Part(w[3])
      fl == <<PL(Odd(Len(pp), 2)), Ref(w[3], Len(p2))>>
  IN IF Has(w[3]) THEN C(4, "When", p2, fl) ELSE CR(4, "When", p2, fl, 1, Len(p1))
Case(q) ==                \* subject, first clause, second clause, else, separator
  LET sep == q[5]
      hd == <<K("keyword_l", "case")>> \o (IF Has(q[1]) THEN <<Sp, a>> ELSE <<>>) \o <<T(IF sep = " " THEN "\n" ELSE sep)>>
      p1 == hd \o <<WhenN(q[2])>>
      p2 == p1 \o (IF q[3] = <<>> THEN <<>> ELSE <<T(sep), WhenN(q[3])>>)
      p3 == p2 \o ElseP(q[4], sep)
  IN C(1, "Case", p3 \o <<T(sep), K("end_l", "end")>>, <<IF Has(q[1]) THEN P(3) ELSE Nil, PL(<<Len(p1)>> \o (IF q[3] = <<>> THEN <<>> ELSE <<Len(p2)>>)), Ref(q[4], Len(p3))>>)
PatN(p) == CASE p = "1" -> b [] p = "x" -> C(1, "MatchVar", <<K("name_l", "x")>>, <<S("x")>>)
             [] p = "[]" -> C(1, "ArrayPattern", <<K("begin_l", "["), K("end_l", "]")>>, <<Empty>>)
             [] p = "K" -> kN
             [] p = "%w" -> C(1, "Array", <<K("begin_l", "%w["), BareStr("x"), Sp, BareStr("y"), K("end_l", "]")>>, <<PL(<<2, 4>>)>>)
             [] p = "%W" -> C(1, "Array", <<K("begin_l", "%W["), BareStr("x"), Sp, BareStr("y"), K("end_l", "]")>>, <<PL(<<2, 4>>)>>)
             [] p = "%i" -> C(1, "Array", <<K("begin_l", "%i["), BareSym("x"), K("end_l", "]")>>, <<PL(<<2>>)>>)
             [] p = "%I" -> C(1, "Array", <<K("begin_l", "%I["), BareSym("x"), K("end_l", "]")>>, <<PL(<<2>>)>>)
Guard(g) == IF g = "if" THEN <<Sp, C(4, "IfGuard", <<K("keyword_l", "if"), Sp, c>>, <<P(3)>>)>>
            ELSE IF g = "unless" THEN <<Sp, C(4, "UnlessGuard", <<K("keyword_l", "unless"), Sp, c>>, <<P(3)>>)>> ELSE <<>>
InN(w) ==                 \* pattern, guard, then, body
  LET p1 == <<K("keyword_l", "in"), Sp, PatN(w[1])>> \o Guard(w[2])
      p2 == p1 \o ThenP(w[3], Has(w[4])) \o Part(w[4])
      fl == <<P(3), IF w[2] = "" THEN Nil ELSE P(5), Ref(w[4], Len(p2))>>
  IN IF Has(w[4]) THEN C(4, "InPattern", p2, fl) ELSE CR(4, "InPattern", p2, fl, 1, Len(p1))
Match(q) ==               \* first clause, second clause, else, separator
  LET sep == q[4]
      hd == <<K("keyword_l", "case"), Sp, a, T(IF sep = " " THEN "\n" ELSE sep)>>
      p1 == hd \o <<InN(q[1])>>
      p2 == p1 \o (IF q[2] = <<>> THEN <<>> ELSE <<T(IF sep = " " THEN "\n" ELSE sep), InN(q[2])>>)
      ee == C(1, "EmptyElse", <<T("else")>>, <<>>)
      p3 == p2 \o (IF q[3] = "" THEN <<T(sep), ee>> ELSE ElseP(q[3], sep))
      f == C(1, "CaseMatch", p3 \o <<T(sep), K("end_l", "end")>>, <<P(3), PL(<<Len(p1)>> \o (IF q[2] = <<>> THEN <<>> ELSE <<Len(p2)>>)), IF q[3] = "-" THEN Nil ELSE P(Len(p3))>>)
  IN IF q[3] = "" THEN PartLoc(f, "else_l", Len(Text(p2)) + Len(sep), 4) ELSE f

(* ---------------------------------- definitions ----------------------------------- *)
Prm(p) ==                 \* parts after the method name; the argument list is at index i of them
  CASE p = "" -> <<>>
    [] p = "()" -> <<NoArgs>>
    [] p = "( )" -> <<C(1, "Args", <<K("begin_l", "("), Sp, K("end_l", ")")>>, <<Empty>>)>>
    [] p = " ()" -> <<Sp, NoArgs>>
    [] p = "(p)" -> <<PArg1("p")>>
    [] p = "(nl)" -> <<C(1, "Args", <<K("begin_l", "("), T("\n"), C(1, "Arg", <<T("p")>>, <<S("p")>>), T("\n"), K("end_l", ")")>>, <<PL(<<3>>)>>)>>
    [] p = " p" -> <<Sp, BArg1("p")>>
    [] p = " *p" -> <<Sp, C(1, "Args", <<C(1, "Restarg", <<K("operator_l", "*"), K("name_l", "p")>>, <<S("p")>>)>>, <<PL(<<1>>)>>)>>
Def(q) ==                 \* singleton, name, parameters, body, separator
  LET h1 == <<K("keyword_l", "def"), Sp>>
      h2 == h1 \o (CASE q[1] = "" -> <<>>
                     [] q[1] = "self." -> <<Kw("Self_", "self"), K("operator_l", ".")>>
                     [] q[1] = "self::" -> <<Kw("Self_", "self"), K("operator_l", "::")>>
                     [] q[1] = "a." -> <<a, K("operator_l", ".")>>
                     [] q[1] = "@c." -> <<c, K("operator_l", ".")>>
                     [] q[1] = "K." -> <<kN, K("operator_l", ".")>>
                     [] q[1] = "(a)." -> <<T("("), a, T(")"), K("operator_l", ".")>>
                     [] q[1] = "(nl)." -> <<T("("), a, T("\n)"), K("operator_l", ".")>>)
      h3 == h2 \o <<K("name_l", q[2])>>
      h4 == h3 \o Prm(q[3])
      bd == IF q[4] = "" THEN <<>> ELSE <<Stm(q[4]), T(q[5])>>
      al == IF q[3] = "" THEN Nil ELSE P(Len(h4))
      bf == IF q[4] = "" THEN Nil ELSE P(Len(h4) + 2)
      ps == h4 \o <<T(q[5])>> \o bd \o <<K("end_l", "end")>>
  IN IF q[1] = "" THEN C(1, "Def", ps, <<S(q[2]), al, bf>>)
     ELSE C(1, "Defs", ps, <<P(IF q[1] \in {"(a).", "(nl)."} THEN 4 ELSE 3), S(q[2]), al, bf>>)
(* endless definitions: body is an argument, or a command, possibly with a rescue modifier *)
Endless(q) ==             \* singleton, parameters, body
  LET h1 == <<K("keyword_l", "def"), Sp>>
      h2 == h1 \o (IF q[1] = "" THEN <<>> ELSE <<Kw("Self_", "self"), K("operator_l", q[1])>>)
      h3 == h2 \o <<K("name_l", "m")>>
      h4 == h3 \o Prm(q[2])
      cmd == Cmd1("n", c)
      resc(x, y) == C(4, "Rescue", <<x, Sp, C(4, "RescueBody", <<K("keyword_l", "rescue"), Sp, y>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<3>>), Nil>>)
      bd == CASE q[3] = "a" -> a
              [] q[3] = "a resc b" -> resc(a, b)
              [] q[3] = "cmd" -> cmd
              [] q[3] = "cmd resc b" -> resc(cmd, b)
              [] q[3] = "begin" -> C(1, "KwBegin", <<K("begin_l", "begin"), T("; "), K("end_l", "end")>>, <<Empty>>)
              [] q[3] = "()" -> C(1, "Begin", <<K("begin_l", "("), K("end_l", ")")>>, <<Empty>>)
      ps == h4 \o <<Sp, K("assignment_l", "="), Sp, bd>>
      al == IF q[2] = "" THEN Nil ELSE P(Len(h4))
  IN IF q[1] = "" THEN C(4, "Def", ps, <<S("m"), al, P(Len(ps))>>) ELSE C(4, "Defs", ps, <<P(3), S("m"), al, P(Len(ps))>>)
Cpath(x) ==
  CASE x = "K" -> kN
    [] x = "::K" -> TopK
    [] x = "K::L" -> C(1, "Const", <<kN, K("double_colon_l", "::"), K("name_l", "L")>>, <<P(1), S("L")>>)
    [] x = "a::L" -> C(1, "Const", <<a, K("double_colon_l", "::"), K("name_l", "L")>>, <<P(1), S("L")>>)
    [] x = "::K::L" -> C(1, "Const", <<TopK, K("double_colon_l", "::"), K("name_l", "L")>>, <<P(1), S("L")>>)
Class(q) ==               \* keyword, path, superclass, body, separator
  LET h1 == <<K("keyword_l", q[1]), Sp, Cpath(q[2])>>
      h2 == h1 \o (IF q[3] = "" THEN <<>> ELSE IF q[3] = "<" THEN <<Sp, K("operator_l", "<"), Sp, kN>> ELSE <<K("operator_l", "<"), a>>)
      ps == h2 \o <<T(q[5])>> \o (IF Has(q[4]) THEN <<Stm(q[4]), T(q[5])>> ELSE <<>>) \o <<K("end_l", "end")>>
      bf == IF Has(q[4]) THEN P(Len(h2) + 2) ELSE Nil
  IN IF q[1] = "module" THEN C(1, "Module", ps, <<P(3), bf>>) ELSE C(1, "Class", ps, <<P(3), IF q[3] = "" THEN Nil ELSE P(Len(h2)), bf>>)

(* ------------------------------------- blocks -------------------------------------- *)
ArgN(x) == C(1, "Arg", <<T(x)>>, <<S(x)>>)
Proc0(x) == C(1, "Procarg0", <<ArgN(x)>>, <<PL(<<1>>)>>)
Shad(x) == C(1, "Shadowarg", <<T(x)>>, <<S(x)>>)
Bar(ps, is) == C(1, "Args", <<K("begin_l", "|")>> \o ps \o <<K("end_l", "|")>>, <<PL(is)>>)
BPrm(p) ==
  CASE p = "||" -> C(1, "Args", <<K("begin_l", "|"), K("end_l", "|")>>, <<Empty>>)
    [] p = "| |" -> C(1, "Args", <<K("begin_l", "|"), Sp, K("end_l", "|")>>, <<Empty>>)
    [] p = "|p|" -> Bar(<<Proc0("p")>>, <<2>>)
    [] p = "|p,|" -> Bar(<<ArgN("p"), T(",")>>, <<2>>)
    [] p = "|p, |" -> Bar(<<ArgN("p"), T(", ")>>, <<2>>)
    [] p = "|p,q,|" -> Bar(<<ArgN("p"), T(", "), ArgN("q"), T(",")>>, <<2, 4>>)
    [] p = "|p,q|" -> Bar(<<ArgN("p"), T(", "), ArgN("q")>>, <<2, 4>>)
    [] p = "|;x|" -> Bar(<<T(";"), Shad("x")>>, <<3>>)
    [] p = "| ;x,y|" -> Bar(<<T(" ;"), Shad("x"), T(", "), Shad("y")>>, <<3, 5>>)
    [] p = "|p;x|" -> Bar(<<Proc0("p"), T(";"), Shad("x")>>, <<2, 4>>)
    [] p = "|p,q; x|" -> Bar(<<ArgN("p"), T(", "), ArgN("q"), T("; "), Shad("x")>>, <<2, 4, 6>>)
    [] p = "|nl p|" -> Bar(<<T("\n"), Proc0("p"), T("\n")>>, <<3>>)
    [] p = "|p nl;x|" -> Bar(<<Proc0("p"), T("\n;"), Shad("x"), T("\n")>>, <<2, 4>>)
    [] p = "|*p|" -> Bar(<<C(1, "Restarg", <<K("operator_l", "*"), K("name_l", "p")>>, <<S("p")>>)>>, <<2>>)
    [] p = "|(*p)|" -> Bar(<<C(1, "Procarg0", <<K("begin_l", "("), C(1, "Restarg", <<K("operator_l", "*"), K("name_l", "p")>>, <<S("p")>>), K("end_l", ")")>>, <<PL(<<2>>)>>)>>, <<2>>)
    [] p = "|(*)|" -> Bar(<<C(1, "Procarg0", <<K("begin_l", "("), C(1, "Restarg", <<K("operator_l", "*")>>, <<Nil>>), K("end_l", ")")>>, <<PL(<<2>>)>>)>>, <<2>>)
    [] p = "|(*p,q)|" -> Bar(<<C(1, "Procarg0", <<K("begin_l", "("), C(1, "Restarg", <<K("operator_l", "*"), K("name_l", "p")>>, <<S("p")>>), T(", "), ArgN("q"), K("end_l", ")")>>, <<PL(<<2, 4>>)>>)>>, <<2>>)
    [] p = "|&p|" -> Bar(<<C(1, "Blockarg", <<K("operator_l", "&"), K("name_l", "p")>>, <<S("p")>>)>>, <<2>>)
    [] p = "|p=1|" -> Bar(<<C(1, "Optarg", <<K("name_l", "p"), K("operator_l", "="), b>>, <<S("p"), P(3)>>)>>, <<2>>)
BPrms == {"", "||", "| |", "|p|", "|p,|", "|p, |", "|p,q,|", "|p,q|", "|;x|", "| ;x,y|", "|p;x|", "|p,q; x|", "|nl p|", "|p nl;x|", "|*p|", "|(*p)|", "|(*)|", "|(*p,q)|", "|&p|", "|p=1|"}
Callee(k) ==
  CASE k = "m" -> Id("m")
    [] k = "M()" -> C(1, "Send", <<K("selector_l", "M"), K("begin_l", "("), K("end_l", ")")>>, <<Nil, S("M"), Empty>>)
    [] k = "m(a)" -> Call1("m", a)
    [] k = "a.m" -> C(1, "Send", <<a, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>)
    [] k = "a&.m" -> C(1, "CSend", <<a, K("dot_l", "&."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>)
    [] k = "a::m" -> C(1, "Send", <<a, K("dot_l", "::"), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>)
    [] k = "a.()" -> C(1, "Send", <<a, K("dot_l", "."), K("begin_l", "("), K("end_l", ")")>>, <<P(1), S("call"), Empty>>)
    [] k = "a[1]" -> C(1, "Index", <<a, K("begin_l", "["), b, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>)
    [] k = "super" -> Kw("ZSuper", "super")
    [] k = "super()" -> C(1, "Super", <<K("keyword_l", "super"), K("begin_l", "("), K("end_l", ")")>>, <<Empty>>)
    [] k = "K::M()" -> C(1, "Send", <<kN, K("dot_l", "::"), K("selector_l", "M"), K("begin_l", "("), K("end_l", ")")>>, <<P(1), S("M"), Empty>>)
    [] k = "m?" -> Id("m?")
    [] k = "m!" -> Id("m!")
Callees == {"m", "M()", "m(a)", "a.m", "a&.m", "a::m", "a.()", "a[1]", "super", "super()", "K::M()", "m?", "m!"}
Block(q) ==               \* callee, brackets, parameters, body, separator
  LET o == IF q[2] = "{" THEN "{" ELSE "do"
      e == IF q[2] = "{" THEN "}" ELSE "end"
      p1 == <<Callee(q[1]), Sp, K("begin_l", o)>>
      p2 == p1 \o (IF q[3] = "" THEN <<>> ELSE <<Sp, BPrm(q[3])>>)
      p3 == p2 \o (IF Has(q[4]) THEN <<T(q[5]), Stm(q[4])>> ELSE <<>>)
  IN C(1, "Block", p3 \o <<T(q[5]), K("end_l", e)>>, <<P(1), IF q[3] = "" THEN Nil ELSE P(5), IF Has(q[4]) THEN P(Len(p3)) ELSE Nil>>)
LPrm(p) ==
  CASE p = "" -> <<>>
    [] p = "()" -> <<NoArgs>>
    [] p = " ()" -> <<Sp, NoArgs>>
    [] p = "(p)" -> <<PArg1("p")>>
    [] p = " p" -> <<Sp, BArg1("p")>>
    [] p = "p" -> <<BArg1("p")>>
    [] p = "(;x)" -> <<C(1, "Args", <<K("begin_l", "("), T(";"), Shad("x"), K("end_l", ")")>>, <<PL(<<3>>)>>)>>
    [] p = "(p;x)" -> <<C(1, "Args", <<K("begin_l", "("), ArgN("p"), T(";"), Shad("x"), K("end_l", ")")>>, <<PL(<<2, 4>>)>>)>>
    [] p = "(p; x, y)" -> <<C(1, "Args", <<K("begin_l", "("), ArgN("p"), T("; "), Shad("x"), T(", "), Shad("y"), K("end_l", ")")>>, <<PL(<<2, 4, 6>>)>>)>>
    [] p = "(p nl;x)" -> <<C(1, "Args", <<K("begin_l", "("), ArgN("p"), T("\n;"), Shad("x"), T("\n"), K("end_l", ")")>>, <<PL(<<2, 4>>)>>)>>
    [] p = " p, q" -> <<Sp, C(1, "Args", <<ArgN("p"), T(", "), ArgN("q")>>, <<PL(<<1, 3>>)>>)>>
    [] p = "(nl)" -> <<C(1, "Args", <<K("begin_l", "("), T("\n"), ArgN("p"), T(",\n"), ArgN("q"), T("\n"), K("end_l", ")")>>, <<PL(<<3, 5>>)>>)>>
Lam(q) ==                 \* parameters, brackets, body, separator
  LET o == IF q[2] = "{" THEN "{" ELSE "do"
      e == IF q[2] = "{" THEN "}" ELSE "end"
      p1 == <<LambdaN>> \o LPrm(q[1])
      p2 == p1 \o <<Sp, K("begin_l", o)>>
      p3 == p2 \o (IF Has(q[3]) THEN <<T(q[4]), Stm(q[3])>> ELSE <<>>)
  IN C(1, "Block", p3 \o <<T(q[4]), K("end_l", e)>>, <<P(1), IF q[1] = "" THEN Nil ELSE P(Len(p1)), IF Has(q[3]) THEN P(Len(p3)) ELSE Nil>>)

(* ------------------------------------- calls --------------------------------------- *)
Kw1 == Kws(LPair("k", b))
PArgs(x) ==               \* what is between the parentheses: <<parts, indices of arguments>>
  CASE x = "" -> <<<<>>, <<>>>>
    [] x = " " -> <<<<Sp>>, <<>>>>
    [] x = "nl" -> <<<<T("\n")>>, <<>>>>
    [] x = "a" -> <<<<a>>, <<1>>>>
    [] x = "a," -> <<<<a, T(",")>>, <<1>>>>
    [] x = "nl a,nl" -> <<<<T("\n"), a, T(",\n")>>, <<2>>>>
    [] x = "a,1" -> <<<<a, T(", "), b>>, <<1, 3>>>>
    [] x = "a,1,nl" -> <<<<a, T(",\n"), b, T(",\n")>>, <<1, 3>>>>
    [] x = "k" -> <<<<Kw1>>, <<1>>>>
    [] x = "k," -> <<<<Kw1, T(",")>>, <<1>>>>
    [] x = "a,k" -> <<<<a, T(", "), Kw1>>, <<1, 3>>>>
    [] x = "a,k," -> <<<<a, T(", "), Kw1, T(",")>>, <<1, 3>>>>
    [] x = "*a" -> <<<<SplatN(a)>>, <<1>>>>
    [] x = "*a," -> <<<<SplatN(a), T(",")>>, <<1>>>>
    [] x = "*a,1" -> <<<<SplatN(a), T(", "), b>>, <<1, 3>>>>
    [] x = "1,*a" -> <<<<b, T(", "), SplatN(a)>>, <<1, 3>>>>
    [] x = "*a,*a" -> <<<<SplatN(a), T(", "), SplatN(a)>>, <<1, 3>>>>
    [] x = "*a,k" -> <<<<SplatN(a), T(", "), Kw1>>, <<1, 3>>>>
    [] x = "**a" -> <<<<Kws(KwSplat(a))>>, <<1>>>>
    [] x = "a,**a," -> <<<<a, T(", "), Kws(KwSplat(a)), T(",")>>, <<1, 3>>>>
    [] x = "&a" -> <<<<BPass(a)>>, <<1>>>>
    [] x = "a,&c" -> <<<<a, T(", "), BPass(c)>>, <<1, 3>>>>
    [] x = "*a,&c" -> <<<<SplatN(a), T(", "), BPass(c)>>, <<1, 3>>>>
    [] x = "k,&c" -> <<<<Kw1, T(", "), BPass(c)>>, <<1, 3>>>>
    [] x = "a,k,&c" -> <<<<a, T(", "), Kw1, T(", "), BPass(c)>>, <<1, 3, 5>>>>
    [] x = "a,*a,k,&c" -> <<<<a, T(", "), SplatN(a), T(", "), Kw1, T(", "), BPass(c)>>, <<1, 3, 5, 7>>>>
    [] x = "n c" -> <<<<Cmd1("n", c)>>, <<1>>>>
    [] x = "a=>1" -> <<<<Kws(Pair(a, b))>>, <<1>>>>
    [] x = "a,a=>1,k" -> <<<<a, T(", "), Kws2(Pair(a, b), LPair("k", b))>>, <<1, 3>>>>
    [] x = "\"k\":1" -> <<<<Kws(QPair("k", b))>>, <<1>>>>
PAll == {"", " ", "nl", "a", "a,", "nl a,nl", "a,1", "a,1,nl", "k", "k,", "a,k", "a,k,", "*a", "*a,", "*a,1", "1,*a", "*a,*a", "*a,k", "**a", "a,**a,", "&a", "a,&c", "*a,&c", "k,&c", "a,k,&c", "a,*a,k,&c", "n c", "a=>1", "a,a=>1,k", "\"k\":1"}
(* without parentheses or between brackets there is no block argument, no trailing newline *)
CAll == {"a", "a,1", "k", "a,k", "1,*a", "a,&c", "k,&c", "a,k,&c", "a,*a,k,&c", "n c", "a=>1", "a,a=>1,k", "\"k\":1"}
IAll == {"", "a", "a,", "a,1", "k", "k,", "a,k", "a,k,", "*a", "*a,", "*a,1", "1,*a", "*a,k", "**a", "a=>1", "a,a=>1,k"}
Shift(is, o) == [i \in DOMAIN is |-> is[i] + o]
Heads == {"m", "M", "a.m", "a&.m", "a::m", "K::M", "a.", "a&.", "a::", "m?", "super", "yield"}
HeadP(h) ==
  CASE h \in {"m", "M", "m?"} -> <<"Send", <<K("selector_l", h)>>, <<Nil, S(h)>>>>
    [] h = "a.m" -> <<"Send", <<a, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m")>>>>
    [] h = "a&.m" -> <<"CSend", <<a, K("dot_l", "&."), K("selector_l", "m")>>, <<P(1), S("m")>>>>
    [] h = "a::m" -> <<"Send", <<a, K("dot_l", "::"), K("selector_l", "m")>>, <<P(1), S("m")>>>>
    [] h = "K::M" -> <<"Send", <<kN, K("dot_l", "::"), K("selector_l", "M")>>, <<P(1), S("M")>>>>
    [] h = "a." -> <<"Send", <<a, K("dot_l", ".")>>, <<P(1), S("call")>>>>
    [] h = "a&." -> <<"CSend", <<a, K("dot_l", "&.")>>, <<P(1), S("call")>>>>
    [] h = "a::" -> <<"Send", <<a, K("dot_l", "::")>>, <<P(1), S("call")>>>>
    [] h = "super" -> <<"Super", <<K("keyword_l", "super")>>, <<>>>>
    [] h = "yield" -> <<"Yield", <<K("keyword_l", "yield")>>, <<>>>>
Call(q) ==                \* callee, style, arguments
  LET h == HeadP(q[1])
      g == PArgs(q[3])
      o == Len(h[2])
  IN IF q[2] = "("
     THEN C(1, h[1], h[2] \o <<K("begin_l", "(")>> \o g[1] \o <<K("end_l", ")")>>, Append(h[3], PL(Shift(g[2], o + 1))))
     ELSE C(3, h[1], h[2] \o <<Sp>> \o g[1], Append(h[3], PL(Shift(g[2], o + 1))))
CallOk(q) == IF q[2] = "(" THEN ~(q[1] = "yield" /\ q[3] \in {"a,", "nl a,nl", "a,1,nl", "k,", "a,k,", "*a,", "a,**a,", "&a", "a,&c", "*a,&c", "k,&c", "a,k,&c", "a,*a,k,&c"})
             ELSE /\ q[3] \in CAll /\ q[1] \notin {"a.", "a&.", "a::"}
                  /\ ~(q[1] = "yield" /\ q[3] \in {"a,&c", "k,&c", "a,k,&c", "a,*a,k,&c"})
(* keyword arguments of an element that is assigned to are a hash *)
Hashed(g, w) == IF w \in {"read", "brace", "op"} THEN g ELSE <<[i \in DOMAIN g[1] |-> IF "n" \in DOMAIN g[1][i] THEN (IF g[1][i].n.ty = "Kwargs" THEN [g[1][i] EXCEPT !.n.ty = "Hash"] ELSE g[1][i]) ELSE g[1][i]], g[2]>>
Index(q) ==               \* arguments, form
  LET g == Hashed(PArgs(q[1]), q[2])
      ps == <<a, K("begin_l", "[")>> \o g[1] \o <<K("end_l", "]")>>
      is == PL(Shift(g[2], 2))
      n == Len(ps)
  IN CASE q[2] = "read" -> C(1, "Index", ps, <<P(1), is>>)
       [] q[2] = "asgn" -> C(2, "IndexAsgn", ps \o <<Sp, K("operator_l", "="), Sp, c>>, <<P(1), is, P(n + 4)>>)
       [] q[2] = "op" -> C(2, "OpAsgn", <<C(1, "IndexAsgn", ps, <<P(1), is, Nil>>), Sp, K("operator_l", "+="), Sp, c>>, <<P(1), S("+"), P(5)>>)
       [] q[2] = "mlhs" -> C(4, "Masgn", <<C(4, "Mlhs", <<C(1, "IndexAsgn", ps, <<P(1), is, Nil>>), T(", "), LvT("v")>>, <<PL(<<1, 3>>)>>), Sp, K("operator_l", "="), Sp, c>>, <<P(1), P(5)>>)
       [] q[2] = "brace" -> C(1, "Block", <<C(1, "Index", ps, <<P(1), is>>), Sp, K("begin_l", "{"), Sp, c, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)
(* elements of an array or hash literal *)
ArrayN(x) ==
  LET e == CASE x = "" -> <<<<>>, <<>>>> [] x = " " -> <<<<Sp>>, <<>>>> [] x = "nl" -> <<<<T("\n")>>, <<>>>>
             [] x = "a" -> <<<<a>>, <<1>>>> [] x = "a," -> <<<<a, T(",")>>, <<1>>>> [] x = "nl a,nl" -> <<<<T("\n"), a, T(",\n")>>, <<2>>>>
             [] x = "a,1" -> <<<<a, T(", "), b>>, <<1, 3>>>> [] x = "*a" -> <<<<SplatN(a)>>, <<1>>>> [] x = "*a,1," -> <<<<SplatN(a), T(", "), b, T(",")>>, <<1, 3>>>>
             [] x = "k" -> <<<<HashBare(LPair("k", b))>>, <<1>>>> [] x = "k," -> <<<<HashBare(LPair("k", b)), T(",")>>, <<1>>>>
             [] x = "a,k," -> <<<<a, T(", "), HashBare(LPair("k", b)), T(",")>>, <<1, 3>>>> [] x = "a,**a" -> <<<<a, T(", "), HashBare(KwSplat(a))>>, <<1, 3>>>>
  IN C(1, "Array", <<K("begin_l", "[")>> \o e[1] \o <<K("end_l", "]")>>, <<PL(Shift(e[2], 1))>>)
HashN(x) ==
  LET sh == C(2, "Pair", <<LabelKey("a"), K("operator_l", ":")>>, <<P(1), <<"n", a.n>>>>)
      shK == C(2, "Pair", <<LabelKey("K"), K("operator_l", ":")>>, <<P(1), <<"n", kN.n>>>>)
      e == CASE x = "" -> <<<<>>, <<>>>> [] x = " " -> <<<<Sp>>, <<>>>> [] x = "nl" -> <<<<T("\n")>>, <<>>>>
             [] x = "k" -> <<<<LPair("k", b)>>, <<1>>>> [] x = "k," -> <<<<LPair("k", b), T(",")>>, <<1>>>> [] x = "nl k,nl" -> <<<<T("\n"), LPair("k", b), T(",\n")>>, <<2>>>>
             [] x = "a:" -> <<<<sh>>, <<1>>>> [] x = "a:," -> <<<<sh, T(",")>>, <<1>>>> [] x = "a:,k" -> <<<<sh, T(", "), LPair("k", b)>>, <<1, 3>>>> [] x = "K:,a:" -> <<<<shK, T(", "), sh>>, <<1, 3>>>>
             [] x = "a=>1" -> <<<<Pair(a, b)>>, <<1>>>> [] x = "a=>1,k,**a," -> <<<<Pair(a, b), T(", "), LPair("k", b), T(", "), KwSplat(a), T(",")>>, <<1, 3, 5>>>>
             [] x = "\"k\":" -> <<<<QPair("k", b)>>, <<1>>>> [] x = "**a" -> <<<<KwSplat(a)>>, <<1>>>>
  IN C(1, "Hash", <<K("begin_l", "{")>> \o e[1] \o <<K("end_l", "}")>>, <<PL(Shift(e[2], 1))>>)

(* ----------------------------- statement sequences --------------------------------- *)
StmN(i) == IF i = 1 THEN a ELSE IF i = 2 THEN b ELSE c
Ss(q) ==                  \* container, leading separator, number of statements, separators between, trailing
  LET n == q[3]
      mid == (IF n >= 1 THEN <<StmN(1)>> ELSE <<>>) \o (IF n >= 2 THEN <<T(q[4]), StmN(2)>> ELSE <<>>) \o (IF n >= 3 THEN <<T(q[4]), StmN(3)>> ELSE <<>>)
      is(o) == [i \in 1..n |-> o + 2 * i - 1]
      inner == <<T(q[2])>> \o mid \o <<T(q[5])>>
      seq == C(4, "Begin", mid, <<PL(is(0))>>)
      one == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<a>> ELSE <<seq>>
      hole == <<T(q[2])>> \o one \o <<T(q[5])>>
      ref(o) == IF n = 0 THEN Nil ELSE P(o + 2)
  IN CASE q[1] = "(" -> C(1, "Begin", <<K("begin_l", "(")>> \o inner \o <<K("end_l", ")")>>, <<PL(is(2))>>)
       [] q[1] = "begin" -> C(1, "KwBegin", <<K("begin_l", "begin")>> \o inner \o <<K("end_l", "end")>>, <<PL(is(2))>>)
       [] q[1] = "m{" -> C(1, "Block", <<Id("m"), Sp, K("begin_l", "{")>> \o hole \o <<K("end_l", "}")>>, <<P(1), Nil, ref(3)>>)
       [] q[1] = "->{" -> C(1, "Block", <<LambdaN, Sp, K("begin_l", "{")>> \o hole \o <<K("end_l", "}")>>, <<P(1), Nil, ref(3)>>)
       [] q[1] = "m do" -> C(1, "Block", <<Id("m"), Sp, K("begin_l", "do")>> \o hole \o <<K("end_l", "end")>>, <<P(1), Nil, ref(3)>>)
       [] q[1] = "def" -> C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), T(";")>> \o hole \o <<K("end_l", "end")>>, <<S("m"), Nil, ref(4)>>)
       [] q[1] = "END" -> C(4, "Postexe", <<K("keyword_l", "END"), Sp, K("begin_l", "{")>> \o hole \o <<K("end_l", "}")>>, <<ref(3)>>)
       [] q[1] = "BEGIN" -> C(5, "Preexe", <<K("keyword_l", "BEGIN"), Sp, K("begin_l", "{")>> \o hole \o <<K("end_l", "}")>>, <<ref(3)>>)
       [] q[1] = "#{" -> C(1, "Dstr", <<K("begin_l", "\""), C(1, "Begin", <<K("begin_l", "#{")>> \o inner \o <<K("end_l", "}")>>, <<PL(is(2))>>), K("end_l", "\"")>>, <<PL(<<2>>)>>)
       [] q[1] = "else" -> C(1, "If", <<K("keyword_l", "if"), Sp, c, K("begin_l", ";"), Sp, K("else_l", "else")>> \o hole \o <<K("end_l", "end")>>, <<P(3), Nil, ref(6)>>)

(* ------------------------------- what is rejected ---------------------------------- *)
Reject == {"alias $a $1", "def m; BEGIN { a }; end", "class k; end", "module k; end", "class a::k; end", "begin; a; else; b; end", "def m; a; else; end",
  "$& = 1", "$1 = a", "$1, a = 1", "$& += 1", "$1 ||= a", "nil = 1", "self += 1", "__FILE__ ||= 1", "true, a = 1", "a, nil = 1",
  "*nil = 1", "a, (nil, c) = 1", "m { |p; @x| }", "m { |p; X| }", "m { |p, p| }", "m { |;x, x| }", "m { |p; p| }", "->(p; p) {}",
  "yield(&a)", "yield a, &c", "yield(a,)", "yield(k: 1,)", "m(a, &c, 1)", "m(&a, &c)", "m(k: 1, *a, &c, a)", "case; end", "case a; end", "case a; else; end", "case a; else; b; end",
  "if a", "if a then b", "if a; else; else; end", "unless a; elsif c; end", "while a; b", "for a in; end", "for in a; end", "begin; rescue", "begin; ensure; ensure; end", "begin; ensure; rescue; end",
  "begin; else; rescue; end", "begin; rescue; else; else; end", "m { |p| |q| }", "-> (p) { |q| }", "[a b]", "{a b}", "{a: 1 b: 2}", "m(@c, a b)", "m(a 1)(", "def; end", "def m(; end", "def m(a; end", "class; end", "class K <; end",
  "module K < L; end", "undef", "alias a", "alias a $b", "alias $b a", "undef 1", "a.", "a::", "a&.", "a[", "a[1", "()()", "a ? b", "a ? b :", "not", "!", "a &&", "and a", "a and", "defined?", "::", "::a = 1", "1 = a", "a + 1 = c", "m(a) = 1", "\"s\" = 1", "[a] = 1", "a() = 1", "(a).b() += 1", "->", "-> a", "m do |p", "END", "END a", "BEGIN", "BEGIN a", "when a", "in a", "then", "do", "end", "else", "elsif a", "ensure", "rescue", "}", "]", ")", "=> a", "a =>", "a in", "case a; in; end", "%w[", "/x", "\"x", "<<A", ":\"x", "`x", "?", "@", "@@", "$", "@1", "@@1"}

(* ---------------------------------- the machine ------------------------------------ *)
Cl0 == {<<>>}
Slots(f) ==
  CASE f = "body" -> <<Wrs, Bds, Clauses, Clauses2, Elses, Elses, SepSet \ {" "}>>
    [] f = "if" -> <<{"if", "unless"}, Thens, Bds, Cl0 \cup (Thens \X {"", "a"}), Elses, SepSet>>
    [] f = "loop" -> <<{"while", "until"}, {"do", "\n", ";"}, Bds, SepSet>>
    [] f = "for" -> <<{"do", "\n", ";"}, Bds, SepSet>>
    [] f = "case" -> <<{"", "a"}, {"1", "1,K", "*a", "1,*a", "*a,1", "*a,*a", "1,K,nl"} \X Thens \X {"", "b"}, Cl0 \cup ({"1", "*a,1"} \X Thens \X {"", "b"}), Elses, SepSet>>
    [] f = "match" -> <<{"1", "x", "[]", "K", "%w", "%W", "%i", "%I"} \X {"", "if", "unless"} \X Thens \X {"", "b"}, Cl0 \cup ({"1", "x"} \X {"", "if"} \X {"then", "\n"} \X {"", "b"}), Elses, SepSet>>
    [] f = "def" -> <<{"", "self.", "self::", "a.", "@c.", "K.", "(a).", "(nl)."}, {"m", "m?", "m!", "m=", "M", "+", "[]=", "if"}, {"", "()", "( )", " ()", "(p)", "(nl)", " p", " *p"}, Bds, SepSet \ {" "}>>
    [] f = "endless" -> <<{"", ".", "::"}, {"", "()", "(p)", " ()"}, {"a", "a resc b", "cmd", "cmd resc b", "begin", "()"}>>
    [] f = "class" -> <<{"class", "module"}, {"K", "::K", "K::L", "a::L", "::K::L"}, {"", "<", "<2"}, Bds, SepSet \ {" "}>>
    [] f = "block" -> <<Callees, {"{", "do"}, BPrms, Bds, SepSet>>
    [] f = "lambda" -> <<{"", "()", " ()", "(p)", " p", "p", "(;x)", "(p;x)", "(p; x, y)", "(p nl;x)", " p, q", "(nl)"}, {"{", "do"}, Bds, SepSet>>
    [] f = "call" -> <<Heads, {"(", " "}, PAll>>
    [] f = "index" -> <<IAll, {"read", "asgn", "op", "mlhs", "brace"}>>
    [] f = "array" -> <<{"", " ", "nl", "a", "a,", "nl a,nl", "a,1", "*a", "*a,1,", "k", "k,", "a,k,", "a,**a"}>>
    [] f = "hash" -> <<{"", " ", "nl", "k", "k,", "nl k,nl", "a:", "a:,", "a:,k", "K:,a:", "a=>1", "a=>1,k,**a,", "\"k\":", "**a"}>>
    [] f = "seq" -> <<{"(", "begin", "m{", "->{", "m do", "def", "END", "BEGIN", "#{", "else"}, {"", " ", "\n", ";", "; ;", "\n\n", " \n ;\n "}, 0..3, {"\n", ";", "; ", "\n\n", ";\n", "\n;", " ; ; "}, {"", " ", "\n", ";", "; ;", " \n\n ", " ;\n"}>>
    [] f = "reject" -> <<Reject>>
Ok(f, q) ==
  CASE f = "body" -> (q[3] # <<>> \/ (q[4] = <<>> /\ q[5] = "-"))
    [] f = "if" -> q[1] = "if" \/ q[4] = <<>>
    [] f = "class" -> q[1] = "class" \/ q[3] = ""
    [] f = "call" -> CallOk(q)
    [] f = "seq" -> (q[3] >= 2 \/ q[4] = "\n")
                    /\ (q[1] \in {"(", "m{", "->{", "END", "BEGIN", "#{"} \/ (q[2] # "" /\ (q[5] # "" \/ q[3] = 0)))
                    /\ ~(q[3] = 0 /\ q[5] # "")
    [] OTHER -> TRUE
Frag(f, q) ==
  CASE f = "body" -> Body(q) [] f = "if" -> If(q) [] f = "loop" -> Loop(q) [] f = "for" -> For(q) [] f = "case" -> Case(q) [] f = "match" -> Match(q)
    [] f = "def" -> Def(q) [] f = "endless" -> Endless(q) [] f = "class" -> Class(q) [] f = "block" -> Block(q) [] f = "lambda" -> Lam(q)
    [] f = "call" -> Call(q) [] f = "index" -> Index(q) [] f = "array" -> ArrayN(q[1]) [] f = "hash" -> HashN(q[1]) [] f = "seq" -> Ss(q)
Full == Len(sl) = Len(Slots(form))
Init == form \in FormSet /\ sl = <<>>
Next == /\ ~Full
        /\ \E x \in Slots(form)[Len(sl) + 1] : sl' = Append(sl, x)
        /\ UNCHANGED form
Emit == Full /\ Ok(form, sl) =>
  CASE form = "reject" -> Out([s |-> sl[1], ok |-> FALSE])
    [] form = "def" /\ sl[3] = " ()" -> LET f == Frag(form, sl) IN Out([s |-> f.s, x |-> X(f.n), L |-> Locs(f.n)])      \* warns about the space
    [] form = "endless" /\ sl[2] = " ()" -> LET f == Frag(form, sl) IN Out([s |-> f.s, x |-> X(f.n), L |-> Locs(f.n)])
    [] OTHER -> CaseXL(Frag(form, sl))
=============================================================================
