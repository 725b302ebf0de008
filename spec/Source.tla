------------------------------- MODULE Source -------------------------------
(* C10.  Positions.  The machine reads a text byte by byte and keeps the line table: the current line *)
(* and column, where each line starts, and what every position read so far maps to.  From it follow   *)
(* the line of a position, the text of a range and the rendering of a diagnostic.                     *)
EXTENDS Tree
CONSTANTS Chars, MaxLen, Names
VARIABLES bs,     \* the characters read (a character of two bytes counts twice)
          txt, line, col, starts, lc, bound, name
Width(c) == Len(c)
Init == /\ bs = <<>> /\ txt = "" /\ line = 0 /\ col = 0 /\ starts = <<0>> /\ lc = <<>> /\ bound = {0} /\ name \in Names
Read(c) == /\ Len(bs) < MaxLen
           /\ bs' = Append(bs, c) /\ txt' = txt \o c
           /\ lc' = lc \o [i \in 1..Width(c) |-> <<line, col + i - 1>>]
           /\ IF c = "\n" THEN line' = line + 1 /\ col' = 0 /\ starts' = Append(starts, Len(txt) + 1)
                          ELSE line' = line /\ col' = col + Width(c) /\ starts' = starts
           /\ bound' = bound \cup {Len(txt) + Width(c)}
           /\ UNCHANGED name
Next == \E c \in Chars : Read(c)

N == Len(txt)
EndOf(i) == IF i = Len(starts) THEN N ELSE starts[i + 1]           \* with the newline
LineEnd(i) == IF i = Len(starts) THEN N ELSE starts[i + 1] - 1     \* without it
Lines == [i \in DOMAIN starts |-> <<starts[i], EndOf(i), LineEnd(i), EndOf(i) - starts[i], i = Len(starts)>>]
Lc == Append(Append(lc, <<line, col>>), "-")                        \* the end of the text is a position, beyond it is none
LineOf(p) == Lc[p + 1][1]
Xl == [p \in 1..(N + 1) |-> <<LineOf(p - 1), starts[LineOf(p - 1) + 1], LineEnd(LineOf(p - 1) + 1)>>]
Sub(b, e) == SubSeq(txt, b + 1, e)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)
Render(b, e, level) ==
  LET l == LineOf(b)  p == name \o ":" \o ToString(l + 1)
  IN p \o ":" \o ToString(Lc[b + 1][2]) \o ": " \o level \o ": numeric literal without digits\n"
     \o p \o ": " \o Sub(starts[l + 1], LineEnd(l + 1)) \o "\n"
     \o p \o ": " \o Rep(" ", Lc[b + 1][2]) \o "^" \o Rep("~", e - b - 1)
Pairs == {<<b, e>> \in (0..(N + 1)) \X (0..(N + 1)) : TRUE}
SubOf(p) == IF p[1] > p[2] \/ p[2] > N THEN << <<p[1], p[2], "-">> >>
            ELSE IF {p[1], p[2]} \subseteq bound THEN << <<p[1], p[2], Sub(p[1], p[2])>> >> ELSE <<>>
RdOf(p) == IF p[1] > N THEN << <<p[1], p[2], "-">> >> ELSE << <<p[1], p[2], Render(p[1], p[2], IF (p[1] + p[2]) % 2 = 0 THEN "error" ELSE "warning")>> >>
RECURSIVE All(_, _)
All(F(_), S0) == IF S0 = {} THEN <<>> ELSE LET p == CHOOSE p \in S0 : TRUE IN F(p) \o All(F, S0 \ {p})
Emit == /\ Out([s |-> txt, o |-> "name=" \o name, lines |-> Lines, lc |-> Lc, xl |-> Xl, bt |-> txt])   \* the input a parse returns
        /\ Out([s |-> txt, o |-> "api=input,name=" \o name, lines |-> Lines, lc |-> Lc, xl |-> Xl,
             sub |-> All(SubOf, Pairs), rd |-> All(RdOf, {p \in Pairs : p[1] <= p[2] /\ p[2] <= N})])

(* the lines partition the text, and every position lies in the line it maps to *)
Partition == /\ starts[1] = 0 /\ EndOf(Len(starts)) = N
             /\ \A i \in DOMAIN starts : i > 1 => starts[i] > starts[i - 1] /\ SubSeq(txt, starts[i], starts[i]) = "\n"
             /\ \A i \in 1..N : (SubSeq(txt, i, i) = "\n") => \E j \in DOMAIN starts : starts[j] = i
             /\ \A p \in 0..(N - 1) : /\ starts[LineOf(p) + 1] + Lc[p + 1][2] = p /\ p < EndOf(LineOf(p) + 1)
=============================================================================
