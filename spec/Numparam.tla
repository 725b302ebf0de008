------------------------------ MODULE Numparam -------------------------------
(* C13.  Numbered block parameters.  The state is the stack of open scopes with what each of them     *)
(* knows about numbered parameters, and the statements written in each of them so far.                *)
EXTENDS Tree
CONSTANTS Openers, Stmts, Probes, MaxSteps, Decl
VARIABLES sc, bad, n       \* scopes; violated rules so far

Static == {"def", "defp", "class", "module", "sclass"}
Trans == {"if", "paren", "begin", "str"}
Ordinary == {"bracep", "bracee", "bracel", "dop", "lame", "lamp", "laml"}
Scope(c) == [c |-> c, st |-> c \in Static \cup {"top"}, ord |-> c \in Ordinary, max |-> 0, inner |-> FALSE, ss |-> <<>>]

(* the scope a statement belongs to: skipping constructs that are no scope *)
RECURSIVE Real(_)
Real(i) == IF sc[i].c \in Trans THEN Real(i - 1) ELSE i
RECURSIVE OuterUses(_)
OuterUses(i) == IF i < 1 THEN FALSE ELSE IF sc[i].c \in Trans THEN OuterUses(i - 1) ELSE IF sc[i].st THEN FALSE ELSE sc[i].max > 0 \/ OuterUses(i - 1)

Call(m) == Nd("Send", <<K("selector_l", m)>>, <<Nil, S(m), Empty>>)
Lv(x) == Nd("Lvar", <<T(x)>>, <<S(x)>>)
Digits == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>
Num(k) == Digits[k]
NumNames == {"_" \o Digits[k] : k \in 1..9}
NumV(x) == CHOOSE k \in 1..9 : x = "_" \o Digits[k]

(* reading numbered name x in statement form f *)
Ref(x) == IF sc[Real(Len(sc))].st THEN Call(x) ELSE Lv(x)
Form(c, r) ==
  CASE c = "bare" -> r
    [] c = "call" -> Nd("Send", <<K("selector_l", "m"), K("begin_l", "("), r, K("end_l", ")")>>, <<Nil, S("m"), PL(<<3>>)>>)
    [] c = "cmd" -> Nd("Send", <<K("selector_l", "m"), Sp, r>>, <<Nil, S("m"), PL(<<3>>)>>)
    [] c = "plus" -> Nd("Send", <<r, Sp, K("selector_l", "+"), Sp, r>>, <<P(1), S("+"), PL(<<5>>)>>)
    [] c = "str" -> Nd("Dstr", <<K("begin_l", "\""), Nd("Begin", <<K("begin_l", "#{"), r, K("end_l", "}")>>, <<PL(<<2>>)>>), K("end_l", "\"")>>, <<PL(<<2>>)>>)
    [] c = "asgn" -> Nd("Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, r>>, <<S("v"), P(5)>>)
    [] c = "recv" -> Nd("Send", <<r, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>)
(* statements that do not use a numbered parameter *)
Plain(c) ==
  CASE c = "z" -> Call("z")
    [] c = "_0" -> Call("_0")
    [] c = "_10" -> Call("_10")
    [] c = "_a" -> Call("_a")
    [] c = "_1()" -> Nd("Send", <<K("selector_l", "_1"), K("begin_l", "("), K("end_l", ")")>>, <<Nil, S("_1"), Empty>>)
    [] c = "z._1" -> Nd("Send", <<Call("z"), K("dot_l", "."), K("selector_l", "_1")>>, <<P(1), S("_1"), Empty>>)
    [] c = ":_1" -> Nd("Sym", <<K("begin_l", ":"), T("_1")>>, <<S("_1")>>)

Upd(i, x) == [sc EXCEPT ![i].max = IF @ < NumV(x) THEN NumV(x) ELSE @, ![Len(sc)].ss = @]
Use(c, x) ==
  LET i == Real(Len(sc))
      s == sc[i]
      v == (IF s.st THEN {} ELSE (IF s.ord THEN {"OrdinaryParamDefined"} ELSE {}) \cup (IF s.inner \/ OuterUses(i - 1) THEN {"NumparamUsed"} ELSE {}))
  IN \E f \in {Form(c, Ref(x))} :
       /\ bad' = bad \cup v
       /\ sc' = [(IF s.st THEN sc ELSE Upd(i, x)) EXCEPT ![Len(sc)].ss = Append(@, f)]

RECURSIVE JoinP(_, _)
JoinP(ss, i) == IF i > Len(ss) THEN <<>> ELSE (IF i = 1 THEN <<ss[1]>> ELSE <<Nl, ss[i]>>) \o JoinP(ss, i + 1)
Odd(k) == [i \in 1..k |-> 2 * i - 1]
(* the body as one part, or none *)
Body(ss) == IF Len(ss) = 0 THEN <<>> ELSE IF Len(ss) = 1 THEN <<ss[1]>> ELSE <<Nd("Begin", JoinP(ss, 1), <<PL(Odd(Len(ss)))>>)>>
BR(ss, i) == IF ss = <<>> THEN Nil ELSE P(i)
Args(ps, fl) == Nd("Args", ps, fl)
ArgX == Nd("Arg", <<T("x")>>, <<S("x")>>)
ShX == Nd("Shadowarg", <<T("x")>>, <<S("x")>>)
(* the construct of a closed scope *)
Close(s) ==
  LET b == Body(s.ss)
      m == Call("m")
      lam == Nd("Lambda", <<T("->")>>, <<>>)
      A == CASE s.c \in {"bracep", "dop"} -> <<Args(<<K("begin_l", "|"), Nd("Procarg0", <<ArgX>>, <<PL(<<1>>)>>), K("end_l", "|")>>, <<PL(<<2>>)>>)>>
             [] s.c = "bracee" -> <<Args(<<K("begin_l", "|"), K("end_l", "|")>>, <<Empty>>)>>
             [] s.c = "bracel" -> <<Args(<<K("begin_l", "|"), T(";"), ShX, K("end_l", "|")>>, <<PL(<<3>>)>>)>>
             [] s.c = "lame" -> <<Args(<<K("begin_l", "("), K("end_l", ")")>>, <<Empty>>)>>
             [] s.c = "laml" -> <<Args(<<K("begin_l", "("), T(";"), ShX, K("end_l", ")")>>, <<PL(<<3>>)>>)>>
             [] s.c = "lamp" -> <<Args(<<K("begin_l", "("), ArgX, K("end_l", ")")>>, <<PL(<<2>>)>>)>>
             [] OTHER -> <<>>
      ty == IF s.max > 0 THEN "Numblock" ELSE "Block"
      arg(i) == IF s.max > 0 THEN Dg(Num(s.max)) ELSE IF A = <<>> THEN Nil ELSE P(i)
      dob(h) == Nd(ty, <<h, Sp, K("begin_l", "do"), Sp>> \o A \o <<Nl>> \o b \o <<Nl, K("end_l", "end")>>, <<P(1), arg(5), BR(s.ss, 6 + Len(A))>>)
      brb(h) == Nd(ty, <<h, Sp, K("begin_l", "{"), Sp>> \o A \o <<Nl>> \o b \o <<Nl, K("end_l", "}")>>, <<P(1), arg(5), BR(s.ss, 6 + Len(A))>>)
      lamb(o, e) == Nd(ty, <<lam>> \o A \o <<Sp, K("begin_l", o), Nl>> \o b \o <<Nl, K("end_l", e)>>, <<P(1), arg(2), BR(s.ss, 5 + Len(A))>>)
  IN CASE s.c \in {"brace", "bracep", "bracee", "bracel"} -> brb(m)
       [] s.c \in {"do", "dop"} -> dob(m)
       [] s.c \in {"lam", "lame", "lamp", "laml"} -> lamb("{", "}")
       [] s.c = "lamdo" -> lamb("do", "end")
       [] s.c = "def" -> Nd("Def", <<K("keyword_l", "def"), Sp, K("name_l", "d"), Nl>> \o b \o <<Nl, K("end_l", "end")>>, <<S("d"), Nil, BR(s.ss, 5)>>)
       [] s.c = "class" -> Nd("Class", <<K("keyword_l", "class"), Sp, Nd("Const", <<K("name_l", "K")>>, <<Nil, S("K")>>), Nl>> \o b \o <<Nl, K("end_l", "end")>>, <<P(3), Nil, BR(s.ss, 5)>>)
       [] s.c = "module" -> Nd("Module", <<K("keyword_l", "module"), Sp, Nd("Const", <<K("name_l", "K")>>, <<Nil, S("K")>>), Nl>> \o b \o <<Nl, K("end_l", "end")>>, <<P(3), BR(s.ss, 5)>>)
       [] s.c = "sclass" -> Nd("SClass", <<K("keyword_l", "class"), Sp, K("operator_l", "<<"), Sp, Call("z"), Nl>> \o b \o <<Nl, K("end_l", "end")>>, <<P(5), BR(s.ss, 7)>>)
       [] s.c = "if" -> AddLoc(Nd("If", <<K("keyword_l", "if"), Sp, Call("z"), Nl>> \o b \o <<Nl, K("end_l", "end")>>, <<P(3), BR(s.ss, 5), Nil>>), "begin_l", 4, 5)
       [] s.c = "begin" -> Nd("KwBegin", <<K("begin_l", "begin"), Nl>> \o JoinP(s.ss, 1) \o <<Nl, K("end_l", "end")>>, <<PL([i \in 1..Len(s.ss) |-> 2 * i + 1])>>)
       [] s.c = "paren" -> Nd("Begin", <<K("begin_l", "("), Nl>> \o JoinP(s.ss, 1) \o <<Nl, K("end_l", ")")>>, <<PL([i \in 1..Len(s.ss) |-> 2 * i + 1])>>)
       [] s.c = "str" -> Nd("Dstr", <<K("begin_l", "\""), Nd("Begin", <<K("begin_l", "#{"), Nl>> \o JoinP(s.ss, 1) \o <<Nl, K("end_l", "}")>>, <<PL([i \in 1..Len(s.ss) |-> 2 * i + 1])>>), K("end_l", "\"")>>, <<PL(<<2>>)>>)

Pop1(x) ==     \* close the innermost scope of stack x
  LET k == Len(x)
      s == x[k]
      used == ~s.st /\ (s.max > 0 \/ s.inner)
      RECURSIVE Rl(_)
      Rl(i) == IF x[i].c \in Trans THEN Rl(i - 1) ELSE i
      y == SubSeq(x, 1, k - 1)
      y2 == IF used /\ s.c \notin Trans THEN [y EXCEPT ![Rl(k - 1)].inner = TRUE] ELSE y
  IN [y2 EXCEPT ![k - 1].ss = Append(@, Close(s))]

Init == sc = <<Scope("top")>> /\ bad = {} /\ n = 0
InDef == \E i \in DOMAIN sc : sc[i].c = "def"
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E st \in Stmts : Use(st[1], st[2])
           \/ \E c \in Openers : ((c \in {"class", "module"}) => ~InDef) /\ sc' = Append(sc, Scope(c)) /\ bad' = bad
           \/ \E c \in Probes : sc' = [sc EXCEPT ![Len(sc)].ss = Append(@, Plain(c))] /\ bad' = bad
           \/ Len(sc) > 1 /\ sc' = Pop1(sc) /\ bad' = bad
RECURSIVE CloseAll(_)
CloseAll(x) == IF Len(x) = 1 THEN x ELSE CloseAll(Pop1(x))

(* ---- assigning or declaring a numbered name: with what follows it closed ---- *)
Asg(x) == {"" \o x \o " = 1", "" \o x \o " += 1", "" \o x \o ", y = z", "y, (*" \o x \o ") = z", "for " \o x \o " in z do end"}
Dcl(x) == {"z => " \o x \o "", "z in [*" \o x \o "]", "def d(" \o x \o ") end", "m { |" \o x \o "| }", "->(" \o x \o ") { }", "m { |a; " \o x \o "| }", "def d(k, " \o x \o ": 1) end", "m { |*" \o x \o "| }", "m { |(a, " \o x \o ")| }", "def d(&" \o x \o ") end", "def " \o x \o "() end", "def z." \o x \o "() = 1", "z => {" \o x \o ":}", "z in {\"" \o x \o "\":}", "z => {k: " \o x \o ", **nil}", "z in K(a, " \o x \o ")", "z in {**" \o x \o "}", "z in [*, 1, *" \o x \o "]", "z => Integer => " \o x \o ""}
(* text of the program with statement t at the current point *)
With(t) == LET y == CloseAll([sc EXCEPT ![Len(sc)].ss = Append(@, Nd("Nil", <<T(t)>>, <<>>))])[1].ss IN Text(JoinP(y, 1))
CantAssign == LET s == sc[Real(Len(sc))] IN ~s.st /\ s.max > 0
Emit ==
  \E top \in {CloseAll(sc)[1].ss} :
    IF top = <<>> THEN TRUE
    ELSE /\ IF bad = {} THEN \A f \in {Body(top)[1]} : CaseXL(f) ELSE Out([s |-> Text(JoinP(top, 1)), e |-> bad])
         /\ (bad = {} /\ n <= 3 =>
              \A x \in Decl :
                IF x \in NumNames
                THEN /\ \A t \in Asg(x) : Out([s |-> With(t), err |-> <<IF CantAssign THEN "CantAssignToNumparam" ELSE "ReservedForNumparam">>])
                     /\ \A t \in Dcl(x) : Out([s |-> With(t), ok |-> FALSE])
                ELSE \A t \in Asg(x) \cup Dcl(x) : Out([s |-> With(t), ok |-> TRUE]))
=============================================================================
