-------------------------------- MODULE Prec --------------------------------
(* C22.  Operator expressions as the behaviours of an operator-precedence machine: every step appends *)
(* one prefix operator, operand, binary operator or modifier to the text; the stack discipline below  *)
(* (Ruby's precedence table) determines the tree.                                                     *)
EXTENDS Tree

CONSTANTS MaxOps,       \* number of operators in an expression
          BinOps,       \* binary operators in play
          PreOps        \* prefix operators in play

VARIABLES txt,          \* source text so far
          stk,          \* stack of pending operators, innermost last
          opd,          \* stack of operands (absolute-position trees)
          need,         \* TRUE: an operand must follow
          cnt, dead,    \* dead: a non-associative chain was written, position of the offending operator
          warn,         \* comparison-after-comparison warnings
          amb           \* ambiguous-first-argument warnings (a sign after `not ` or `defined? `)
vars == <<txt, stk, opd, need, cnt, dead, warn, amb>>

(* ------------------------------- precedence table -------------------------------- *)
Prec(o) ==
  CASE o \in {"if", "unless", "while", "until", "rescue!"} -> 1
    [] o \in {"and", "or"} -> 2
    [] o = "not" -> 3
    [] o = "defined?" -> 4
    [] o \in {"v =", "v +=", "v ||=", "v &&="} -> 5
    [] o = "rescue" -> 6
    [] o \in {"?", ":"} -> 7
    [] o \in {"..", "..."} -> 8
    [] o = "||" -> 9
    [] o = "&&" -> 10
    [] o \in {"<=>", "==", "===", "!=", "=~", "!~"} -> 11
    [] o \in {"<", "<=", ">", ">="} -> 12
    [] o \in {"|", "^"} -> 13
    [] o = "&" -> 14
    [] o \in {"<<", ">>"} -> 15
    [] o \in {"+", "-"} -> 16
    [] o \in {"*", "/", "%"} -> 17
    [] o = "u-" -> 18
    [] o = "**" -> 19
    [] o \in {"!", "~", "u+"} -> 20
RightAssoc(o) == o \in {"**", "?", ":"}
NonAssoc(o) == Prec(o) \in {8, 11}
Assigns == {"v =", "v +=", "v ||=", "v &&="}
Mods == {"if", "unless", "while", "until", "rescue!"}
StmtLevel == Mods \cup {"and", "or", "not"}

(* ------------------------------- tree construction ------------------------------- *)
Beg(n) == LET l == n.L[Len(n.L)] IN l[2]
End(n) == LET l == n.L[Len(n.L)] IN l[3]
Mk(ty, v, L, b, e) == [ty |-> ty, o |-> 0, v |-> v, L |-> Append(L, <<"expression_l", b, e>>)]
NF(n) == <<"n", n>>

(* A condition turns ranges into flip-flops and looks through and/or/not and parentheses. *)
RECURSIVE Cond(_)
Cond(n) ==
  CASE n.ty \in {"And", "Or"} -> [n EXCEPT !.v = <<NF(Cond(n.v[1][2])), NF(Cond(n.v[2][2]))>>]
    [] n.ty = "Irange" -> [n EXCEPT !.ty = "IFlipFlop", !.v = <<NF(Cond(n.v[1][2])), NF(Cond(n.v[2][2]))>>]
    [] n.ty = "Erange" -> [n EXCEPT !.ty = "EFlipFlop", !.v = <<NF(Cond(n.v[1][2])), NF(Cond(n.v[2][2]))>>]
    [] OTHER -> n

Bin(op, a, b, p) ==   \* p: position of the operator
  LET e == p + Len(op) IN
  CASE op \in {"&&", "and"} -> Mk("And", <<NF(a), NF(b)>>, << <<"operator_l", p, e>> >>, Beg(a), End(b))
    [] op \in {"||", "or"} -> Mk("Or", <<NF(a), NF(b)>>, << <<"operator_l", p, e>> >>, Beg(a), End(b))
    [] op = ".." -> Mk("Irange", <<NF(a), NF(b)>>, << <<"operator_l", p, e>> >>, Beg(a), End(b))
    [] op = "..." -> Mk("Erange", <<NF(a), NF(b)>>, << <<"operator_l", p, e>> >>, Beg(a), End(b))
    [] op = "if" -> Mk("IfMod", <<NF(Cond(b)), NF(a), <<"-">>>>, << <<"keyword_l", p, e>> >>, Beg(a), End(b))
    [] op = "unless" -> Mk("IfMod", <<NF(Cond(b)), <<"-">>, NF(a)>>, << <<"keyword_l", p, e>> >>, Beg(a), End(b))
    [] op = "while" -> Mk("While", <<NF(Cond(b)), NF(a)>>, << <<"keyword_l", p, e>> >>, Beg(a), End(b))
    [] op = "until" -> Mk("Until", <<NF(Cond(b)), NF(a)>>, << <<"keyword_l", p, e>> >>, Beg(a), End(b))
    [] op \in {"rescue", "rescue!"} ->
         Mk("Rescue", <<NF(a), <<"l", <<Mk("RescueBody", <<<<"-">>, <<"-">>, NF(b)>>, << <<"keyword_l", p, p + 6>> >>, p, End(b))>>>>, <<"-">>>>,
            <<>>, Beg(a), End(b))
    [] op = "!=" \/ op = "!~" \/ TRUE -> Mk("Send", <<NF(a), <<"s", op>>, <<"l", <<b>>>>>>, << <<"selector_l", p, e>> >>, Beg(a), End(b))

Pre(op, b, p) ==
  CASE op = "!" -> Mk("Send", <<NF(Cond(b)), <<"s", "!">>, <<"l", <<>>>>>>, << <<"selector_l", p, p + 1>> >>, p, End(b))
    [] op = "not" -> Mk("Send", <<NF(Cond(b)), <<"s", "!">>, <<"l", <<>>>>>>, << <<"selector_l", p, p + 3>> >>, p, End(b))
    [] op = "~" -> Mk("Send", <<NF(b), <<"s", "~">>, <<"l", <<>>>>>>, << <<"selector_l", p, p + 1>> >>, p, End(b))
    [] op = "u-" -> Mk("Send", <<NF(b), <<"s", "-@">>, <<"l", <<>>>>>>, << <<"selector_l", p, p + 1>> >>, p, End(b))
    [] op = "u+" -> Mk("Send", <<NF(b), <<"s", "+@">>, <<"l", <<>>>>>>, << <<"selector_l", p, p + 1>> >>, p, End(b))
    [] op = "defined?" -> Mk("Defined", <<NF(b)>>, << <<"keyword_l", p, p + 8>> >>, p, End(b))
    [] op = "v =" -> Mk("Lvasgn", <<<<"s", "v">>, NF(b)>>, << <<"name_l", p, p + 1>>, <<"operator_l", p + 2, p + 3>> >>, p, End(b))
    [] op = "v +=" -> Mk("OpAsgn", <<NF(Mk("Lvasgn", <<<<"s", "v">>, <<"-">>>>, << <<"name_l", p, p + 1>> >>, p, p + 1)), <<"s", "+">>, NF(b)>>,
                         << <<"operator_l", p + 2, p + 4>> >>, p, End(b))
    [] op = "v ||=" -> Mk("OrAsgn", <<NF(Mk("Lvasgn", <<<<"s", "v">>, <<"-">>>>, << <<"name_l", p, p + 1>> >>, p, p + 1)), NF(b)>>,
                         << <<"operator_l", p + 2, p + 5>> >>, p, End(b))
    [] op = "v &&=" -> Mk("AndAsgn", <<NF(Mk("Lvasgn", <<<<"s", "v">>, <<"-">>>>, << <<"name_l", p, p + 1>> >>, p, p + 1)), NF(b)>>,
                         << <<"operator_l", p + 2, p + 5>> >>, p, End(b))

(* a stack entry: [op, k ("bin" | "pre" | "tern"), p, q]   (q: position of ':' of a ternary) *)
Cmp == {"<", "<=", ">", ">="}
Reduce(st) ==   \* st: [stk, opd, warn]
  LET t == st.stk[Len(st.stk)]
      n == Len(st.opd)
      b == st.opd[n]
      st2 == SubSeq(st.stk, 1, Len(st.stk) - 1)
  IN IF t.k = "pre" THEN [stk |-> st2, opd |-> Append(SubSeq(st.opd, 1, n - 1), Pre(t.op, b, t.p)), warn |-> st.warn]
     ELSE IF t.k = "tern"
     THEN LET c == st.opd[n - 2]
              a == st.opd[n - 1]
          IN [stk |-> st2, warn |-> st.warn,
              opd |-> Append(SubSeq(st.opd, 1, n - 3),
                 Mk("IfTernary", <<NF(Cond(c)), NF(a), NF(b)>>, << <<"question_l", t.p, t.p + 1>>, <<"colon_l", t.q, t.q + 1>> >>, Beg(c), End(b)))]
     ELSE LET a == st.opd[n - 1]
          IN [stk |-> st2, opd |-> Append(SubSeq(st.opd, 1, n - 2), Bin(t.op, a, b, t.p)),
              warn |-> IF t.op \in Cmp /\ a.ty = "Send" /\ a.v[2][2] \in Cmp /\ Len(a.v[3][2]) = 1 THEN st.warn + 1 ELSE st.warn]

Top(st) == st.stk[Len(st.stk)]
(* pop everything that binds tighter than an operator of precedence p (right: equal stays) *)
RECURSIVE PopFor(_, _, _)
PopFor(st, p, right) ==
  IF st.stk = <<>> THEN st
  ELSE LET t == Top(st) IN
       IF t.k = "open" THEN st
       ELSE IF Prec(t.op) > p \/ (Prec(t.op) = p /\ ~right /\ ~NonAssoc(t.op)) THEN PopFor(Reduce(st), p, right)
       ELSE st
(* rescue after a complete operand: belongs to the innermost assignment's value if there is one *)
RECURSIVE PopRescue(_)
PopRescue(st) ==
  IF st.stk = <<>> THEN [st |-> st, inner |-> FALSE]
  ELSE LET t == Top(st) IN
       IF t.k = "pre" /\ t.op \in Assigns THEN [st |-> st, inner |-> TRUE]
       ELSE IF t.op = "rescue" THEN PopRescue(Reduce(Reduce(st)))
       ELSE IF Prec(t.op) > 1 \/ t.op \in Mods THEN PopRescue(Reduce(st))
       ELSE [st |-> st, inner |-> FALSE]

RECURSIVE PopAll(_)
PopAll(st) == IF st.stk = <<>> THEN st ELSE PopAll(Reduce(st))

St == [stk |-> stk, opd |-> opd, warn |-> warn]
OpenTern == \E i \in DOMAIN stk : stk[i].k = "open"

(* ------------------------------- transitions ------------------------------------- *)
Init == txt = "" /\ stk = <<>> /\ opd = <<>> /\ need = TRUE /\ cnt = 0 /\ dead = -1 /\ warn = 0 /\ amb = 0

Operands == {"a"}
Name == CASE cnt = 0 -> "a" [] cnt = 1 -> "b" [] cnt = 2 -> "c" [] cnt = 3 -> "e" [] cnt = 4 -> "f" [] OTHER -> "g"
Operand ==
  /\ need /\ dead = -1
  /\ LET b == Len(txt) IN
     /\ opd' = Append(opd, Mk("Send", <<<<"-">>, <<"s", Name>>, <<"l", <<>>>>>>, << <<"selector_l", b, b + 1>> >>, b, b + 1))
     /\ txt' = txt \o Name
  /\ need' = FALSE /\ UNCHANGED <<stk, cnt, dead, warn, amb>>

(* 'not' is an expression, not an argument: only at the start, or after and/or/not and modifiers *)
NotAllowed == IF stk = <<>> THEN TRUE ELSE Top(St).k # "open" /\ Top(St).op \in StmtLevel
PreText(o) == CASE o = "u-" -> "-" [] o = "u+" -> "+" [] o \in {"!", "~"} -> o [] OTHER -> o \o " "
After(os) == IF stk = <<>> THEN FALSE ELSE Top(St).k = "pre" /\ Top(St).op \in os
Prefix(o) ==
  /\ need /\ dead = -1 /\ cnt < MaxOps
  /\ o = "not" => NotAllowed
  /\ o = "~" => ~After({"!"})            \* `!~` is one token
  /\ stk' = Append(stk, [op |-> o, k |-> "pre", p |-> Len(txt), q |-> 0])
  /\ txt' = txt \o PreText(o)
  /\ cnt' = cnt + 1
  /\ amb' = IF o \in {"u-", "u+"} /\ After({"not", "defined?"}) THEN amb + 1 ELSE amb
  /\ UNCHANGED <<opd, need, dead, warn>>

Conflict(st, o) == NonAssoc(o) /\ st.stk # <<>> /\ Top(st).k = "bin" /\ Prec(Top(st).op) = Prec(o)

Push(st, o, k) ==
  /\ stk' = Append(st.stk, [op |-> o, k |-> k, p |-> Len(txt) + 1, q |-> 0])
  /\ opd' = st.opd /\ warn' = st.warn
  /\ txt' = txt \o " " \o (IF o = "rescue!" THEN "rescue" ELSE o) \o " "
  /\ need' = TRUE /\ cnt' = cnt + 1 /\ UNCHANGED amb

Binary(o) ==
  /\ ~need /\ dead = -1 /\ cnt < MaxOps
  /\ o \notin {"rescue!", "?", ":"}
  /\ OpenTern => o \notin StmtLevel
  /\ LET st == PopFor(St, Prec(o), RightAssoc(o)) IN
     /\ Push(st, o, "bin")
     /\ dead' = IF Conflict(st, o) THEN Len(txt) + 1 ELSE -1

Rescue ==
  /\ ~need /\ dead = -1 /\ cnt < MaxOps /\ ~OpenTern
  /\ LET r == PopRescue(St) IN
     /\ Push(r.st, IF r.inner THEN "rescue" ELSE "rescue!", "bin")
     /\ dead' = -1

Question ==
  /\ ~need /\ dead = -1 /\ cnt < MaxOps
  /\ LET st == PopFor(St, 7, TRUE) IN
     /\ Push(st, "?", "open") /\ dead' = -1

RECURSIVE PopOpen(_)
PopOpen(st) == IF Top(st).k = "open" THEN st ELSE PopOpen(Reduce(st))
Colon ==
  /\ ~need /\ dead = -1 /\ OpenTern
  /\ LET st == PopOpen(St)
         i == Len(st.stk) IN
     /\ stk' = [st.stk EXCEPT ![i] = [op |-> ":", k |-> "tern", p |-> st.stk[i].p, q |-> Len(txt) + 1]]
     /\ opd' = st.opd /\ warn' = st.warn
     /\ txt' = txt \o " : " /\ need' = TRUE /\ UNCHANGED <<cnt, dead, amb>>

Next == \/ Operand
        \/ \E o \in PreOps : Prefix(o)
        \/ \E o \in BinOps \ {"?", "rescue"} : Binary(o)
        \/ ("rescue" \in BinOps /\ Rescue)
        \/ ("?" \in BinOps /\ (Question \/ Colon))

(* ------------------------------- what must be observed --------------------------- *)
Complete == ~need /\ ~OpenTern
Emit ==
  IF dead # -1 THEN Out([s |-> txt \o Name, ok |-> FALSE])
  ELSE IF Complete
       THEN LET r == PopAll(St)
                t == r.opd[1]
            IN Out([s |-> txt, x |-> X(t), L |-> Locs(t), d |-> [i \in 1..r.warn |-> "warning ComparisonAfterComparison"] \o [i \in 1..amb |-> "warning AmbiguousFirstArgument"]])
       ELSE TRUE
=============================================================================
