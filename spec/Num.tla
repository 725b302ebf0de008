-------------------------------- MODULE Num ---------------------------------
(* C21.  Numeric literals as an automaton over characters.  Every reachable text is judged: it is one *)
(* literal (kind, value = its text, extent = all of it), a call on a literal, or rejected.            *)
EXTENDS Tree
CONSTANTS Chars, MaxLen, Signs
VARIABLES q, txt, sg, dot

Dec == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Oct == {"0", "1", "2", "3", "4", "5", "6", "7"}
Hex == Dec \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
Alpha == {"a", "b", "c", "d", "e", "f", "x", "o", "r", "i", "n", "u", "w", "_", "A", "B", "D", "E", "F", "X", "O", "R", "I"}
Rd(base) == CASE base = "x" -> Hex [] base = "b" -> {"0", "1"} [] base = "o" -> Oct [] base = "d" -> Dec

(* suffixes, calls and everything else that may follow a complete body *)
Tail0(ch, allowR) ==
  CASE ch = "r" /\ allowR -> "r"
    [] ch = "i" -> "i"
    [] ch = "." -> "pt0"          \* only a method call (or range) may follow
    [] OTHER -> "bad"

Step(s, ch) ==
  CASE s = "start" -> IF ch = "0" THEN "zero" ELSE IF ch \in Dec THEN "dec" ELSE "skip"
    [] s = "zero" -> CASE ch \in {"x", "X"} -> "x?" [] ch \in {"b", "B"} -> "b?" [] ch \in {"d", "D"} -> "d?" [] ch \in {"o", "O"} -> "o?"
                       [] ch = "_" -> "oU" [] ch \in Oct -> "o" [] ch \in Dec -> "bad"
                       [] ch = "." -> "pt" [] ch \in {"e", "E"} -> "e" [] OTHER -> Tail0(ch, TRUE)
    [] s \in {"x?", "b?", "d?", "o?"} -> IF ch \in Rd(SubSeq(s, 1, 1)) THEN SubSeq(s, 1, 1) ELSE "bad"
    [] s \in {"x", "b", "d", "o"} -> IF ch \in Rd(s) THEN s ELSE IF ch = "_" THEN s \o "U" ELSE Tail0(ch, TRUE)
    [] s \in {"xU", "bU", "dU", "oU"} -> IF ch \in Rd(SubSeq(s, 1, 1)) THEN SubSeq(s, 1, 1) ELSE "bad"
    [] s = "dec" -> CASE ch \in Dec -> "dec" [] ch = "_" -> "decU" [] ch = "." -> "pt" [] ch \in {"e", "E"} -> "e" [] OTHER -> Tail0(ch, TRUE)
    [] s = "decU" -> IF ch \in Dec THEN "dec" ELSE "bad"
    [] s = "pt" -> IF ch \in Dec THEN "frac" ELSE IF ch \in Alpha THEN "call" ELSE "skip"
    [] s = "frac" -> CASE ch \in Dec -> "frac" [] ch = "_" -> "fracU" [] ch \in {"e", "E"} -> "e" [] OTHER -> Tail0(ch, TRUE)
    [] s = "fracU" -> IF ch \in Dec THEN "frac" ELSE "bad"
    [] s = "e" -> IF ch \in Dec THEN "exp" ELSE IF ch \in {"+", "-"} THEN "e+" ELSE "bad"
    [] s = "e+" -> IF ch \in Dec THEN "exp" ELSE "bad"
    [] s = "exp" -> CASE ch \in Dec -> "exp" [] ch = "_" -> "expU" [] OTHER -> Tail0(ch, FALSE)
    [] s = "expU" -> IF ch \in Dec THEN "exp" ELSE "bad"
    [] s = "r" -> CASE ch = "i" -> "ri" [] ch = "." -> "pt0" [] OTHER -> "bad"
    [] s = "i" -> CASE ch = "." -> "pt0" [] ch \in {"f", "n"} -> "skip" [] OTHER -> "bad"       \* 1if, 1in
    [] s = "ri" -> IF ch = "." THEN "pt0" ELSE "bad"
    [] s = "pt0" -> IF ch \in Alpha THEN "call" ELSE IF ch = "." THEN "skip" ELSE "bad"     \* 1.5.5
    [] s = "call" -> IF ch \in Alpha \cup Dec THEN "call" ELSE "skip"
    [] s = "bad" -> "bad"
    [] s = "skip" -> "skip"

Accept == {"zero", "x", "b", "d", "o", "dec", "frac", "exp", "r", "i", "ri"}
Last(s) == SubSeq(s, Len(s), Len(s))
Kind(s, t) == CASE s \in {"zero", "x", "b", "d", "o", "dec"} -> "Int"
                [] s \in {"frac", "exp"} -> "Float"
                [] s = "r" -> "Rational"
                [] s \in {"i", "ri"} -> "Complex"

Init == q = "start" /\ sg \in Signs /\ txt = "" /\ dot = [n |-> 0, k |-> ""]
Next == /\ Len(txt) < MaxLen /\ q # "skip"
        /\ \E ch \in Chars \cup (IF q = "e" THEN {"+", "-"} ELSE {}) :
             /\ q' = Step(q, ch)
             /\ txt' = txt \o ch
             /\ dot' = IF q' \in {"pt", "pt0"} THEN [n |-> Len(txt), k |-> Kind(q, txt)] ELSE dot
        /\ UNCHANGED sg

(* the literal as a fragment *)
LitF(k, t) == IF sg = "-" THEN Nd(k, <<K("operator_l", "-"), T(t)>>, <<S("-" \o t)>>) ELSE Nd(k, <<T(sg \o t)>>, <<S(sg \o t)>>)
NameF(m) == Nd("Send", <<K("selector_l", m)>>, <<Nil, S(m), Empty>>)
Ctx(f) == {
  f,
  Nd("Begin", <<f, T("\n"), f>>, <<PL(<<1, 3>>)>>),
  Nd("Array", <<K("begin_l", "["), f, T(","), f, K("end_l", "]")>>, <<PL(<<2, 4>>)>>),
  Nd("Send", <<f, K("dot_l", "."), K("selector_l", "abs")>>, <<P(1), S("abs"), Empty>>),
  Nd("Irange", <<f, K("operator_l", ".."), f>>, <<P(1), P(3)>>),
  Nd("Erange", <<f, K("operator_l", "..."), f>>, <<P(1), P(3)>>),
  Nd("Send", <<f, K("selector_l", "<"), f>>, <<P(1), S("<"), PL(<<3>>)>>),
  Nd("IfTernary", <<f, K("question_l", "?"), f, K("colon_l", ":"), f>>, <<P(1), P(3), P(5)>>),
  Nd("IfMod", <<f, K("keyword_l", "if"), Sp, NameF("a")>>, <<P(4), P(1), Nil>>),
  Nd("Or", <<f, K("operator_l", "or"), Sp, f>>, <<P(1), P(4)>>),
  Nd("Rescue", <<f, Nd("RescueBody", <<K("keyword_l", "rescue"), Sp, f>>, <<Nil, Nil, P(3)>>)>>, <<P(1), PL(<<2>>), Nil>>),
  Nd("Dstr", <<K("begin_l", "\""), Nd("Begin", <<K("begin_l", "#{"), f, K("end_l", "}")>>, <<PL(<<2>>)>>), K("end_l", "\"")>>, <<PL(<<2>>)>>)
}
(* the letters of `if`, `or`, `rescue` directly after a hexadecimal or suffixed literal belong to it or spoil it; *)
(* after a plain body they start the keyword                                                                      *)
Glue(f) == IF q \in {"r", "i", "ri"} \/ q = "x" \/ (q = "zero") THEN {} ELSE {f.n.ty}
PowCtx(t, k) ==
  IF sg = "-"
  THEN {Nd("Send", <<K("selector_l", "-"), Nd("Send", <<Nd(k, <<T(t)>>, <<S(t)>>), K("selector_l", "**"), NameF("a")>>, <<P(1), S("**"), PL(<<3>>)>>)>>, <<P(2), S("-@"), Empty>>)}
  ELSE {Nd("Send", <<LitF(k, t), K("selector_l", "**"), NameF("a")>>, <<P(1), S("**"), PL(<<3>>)>>)}

All(S1) == \A f \in S1 : CaseXL(f)
Emit ==
  CASE q \in Accept ->
         LET f == LitF(Kind(q, txt), txt)
         IN All({c \in Ctx(f) : c.n.ty \in {"IfMod", "Or", "Rescue"} => q \in {"b", "d", "o", "dec", "frac", "exp"}})
            /\ All(PowCtx(txt, Kind(q, txt)))
    [] q = "call" ->
         LET k == dot.k
             m == SubSeq(txt, dot.n + 2, Len(txt))
         IN CaseXL(Nd("Send", <<LitF(k, SubSeq(txt, 1, dot.n)), K("dot_l", "."), K("selector_l", m)>>, <<P(1), S(m), Empty>>))
    [] q = "skip" \/ txt = "" -> TRUE
    [] OTHER -> /\ Out([s |-> sg \o txt, ok |-> FALSE])
                /\ Out([s |-> "[" \o sg \o txt \o "]", ok |-> FALSE])
                /\ Out([s |-> "def m\n " \o sg \o txt \o "\nend", ok |-> FALSE])
=============================================================================
