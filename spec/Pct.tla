-------------------------------- MODULE Pct ---------------------------------
(* C19.  Percent literals: where they end (nesting of their own brackets, escapes) and how word and   *)
(* symbol arrays are split.  The state is the literal kind and delimiters, the nesting depth, the     *)
(* items read so far and whether a backslash is pending.                                              *)
EXTENDS Bytes
CONSTANTS Kinds, Delims, Chars, MaxLen
VARIABLES kind, dl, q, nest, items, n

Closer == [d \in {"(", "[", "{", "<"} |-> CASE d = "(" -> ")" [] d = "[" -> "]" [] d = "{" -> "}" [] d = "<" -> ">"]
Bracket == dl \in DOMAIN Closer
Close == IF Bracket THEN Closer[dl] ELSE dl
Expand == kind \in {"", "Q", "W", "I", "x", "r"}
Words == kind \in {"W", "w", "I", "i"}
Blank == {" ", "\n"}
Meta == {"$", "*", "+", ".", "?", "^", "|", ")", "]", "}", ">"}

Bs(ch) == <<Ord(ch)>>
(* the value of an escaped character *)
Escaped(ch) ==
  CASE kind = "r" -> IF ch = "\n" THEN <<>> ELSE IF ch = Close /\ ch \notin Meta THEN Bs(ch) ELSE <<92>> \o Bs(ch)
    [] Expand -> IF ch = "\n" /\ ~Words THEN <<>> ELSE Bs(ch)
    [] OTHER -> IF ch \in {"\\", dl, Close} \/ (Words /\ ch \in Blank) THEN Bs(ch) ELSE <<92>> \o Bs(ch)

AddText(its, s, v) ==
  IF its # <<>> /\ its[Len(its)][1] = "t"
  THEN [its EXCEPT ![Len(its)] = <<"t", @[2] \o s, @[3] \o v>>]
  ELSE Append(its, <<"t", s, v>>)
AddBlank(its, s) ==
  IF its # <<>> /\ its[Len(its)][1] = "b" THEN [its EXCEPT ![Len(its)] = <<"b", @[2] \o s>>] ELSE Append(its, <<"b", s>>)

Init == kind \in Kinds /\ dl \in Delims /\ q = "N" /\ nest = 0 /\ items = <<>> /\ n = 0
LastText == IF items # <<>> /\ items[Len(items)][1] = "t" THEN items[Len(items)][2] ELSE ""
Step(ch) ==
  CASE q = "E" -> q' = "N" /\ nest' = nest /\ items' = AddText(items, ch, Escaped(ch))
    [] ch = "\\" -> q' = "E" /\ nest' = nest /\ items' = AddText(items, "\\", <<>>)
    [] ch = Close /\ nest = 0 -> q' = "closed" /\ UNCHANGED <<nest, items>>
    [] ch = Close -> q' = q /\ nest' = nest - 1 /\ items' = AddText(items, ch, Bs(ch))
    [] Bracket /\ ch = dl -> q' = q /\ nest' = nest + 1 /\ items' = AddText(items, ch, Bs(ch))
    [] Words /\ ch \in Blank -> q' = q /\ nest' = nest /\ items' = AddBlank(items, ch)
    [] ch = "#{a}" -> q' = q /\ nest' = nest /\ items' = (IF Expand THEN Append(items, <<"i">>) ELSE AddText(items, ch, StrBytes(ch)))
    [] OTHER -> q' = q /\ nest' = nest /\ items' = AddText(items, ch, Bs(ch))
Next == /\ n < MaxLen /\ q # "closed"
        /\ \E ch \in Chars \cup {dl, Close} :
             /\ (q = "E" => Len(ch) = 1) /\ (ch = "#{a}" => dl \notin {"#", "a"})
             /\ Step(ch)
        /\ n' = n + 1 /\ UNCHANGED <<kind, dl>>

(* ---- the tree ---- *)
Aid == Nd("Send", <<K("selector_l", "a")>>, <<Nil, S("a"), Empty>>)
IntNode == Nd("Begin", <<K("begin_l", "#{"), Aid, K("end_l", "}")>>, <<PL(<<2>>)>>)
PartF(it) == IF it[1] = "i" THEN IntNode ELSE Nd("Str", <<T(it[2])>>, <<S(BytesR(it[3]))>>)
Ko == K("begin_l", "%" \o kind \o dl)
Kc == K("end_l", Close)
Parts == [i \in DOMAIN items |-> PartF(items[i])]
Idx(k) == [i \in 1..k |-> i + 1]
(* words: maximal runs of text and interpolation *)
RECURSIVE Group(_, _)
Word(ps) ==
  LET fs == [i \in DOMAIN ps |-> PartF(ps[i])]
  IN IF Len(ps) = 1 /\ ps[1][1] = "t"
     THEN Nd(IF kind \in {"W", "w"} THEN "Str" ELSE "Sym", <<T(ps[1][2])>>, <<S(BytesR(ps[1][3]))>>)
     ELSE Nd(IF kind = "W" THEN "Dstr" ELSE "Dsym", fs, <<PL([i \in DOMAIN fs |-> i])>>)
Group(its, cur) ==
  IF its = <<>> THEN IF cur = <<>> THEN <<>> ELSE <<Word(cur)>>
  ELSE IF Head(its)[1] = "b" THEN (IF cur = <<>> THEN <<>> ELSE <<Word(cur)>>) \o <<T(Head(its)[2])>> \o Group(Tail(its), <<>>)
  ELSE Group(Tail(its), Append(cur, Head(its)))
RECURSIVE NodeIdx(_, _)
NodeIdx(ps, i) == IF i > Len(ps) THEN <<>> ELSE (IF "n" \in DOMAIN ps[i] THEN <<i>> ELSE <<>>) \o NodeIdx(ps, i + 1)
Lit ==
  LET all == <<Ko>> \o Parts \o <<Kc>>
      k == Len(items)
      one == k = 1 /\ items[1][1] = "t"
  IN CASE Words -> LET ps == <<Ko>> \o Group(items, <<>>) \o <<Kc>> IN Nd("Array", ps, <<PL(NodeIdx(ps, 1))>>)
       [] kind \in {"", "Q", "q"} -> IF k = 0 THEN Nd("Str", <<Ko, Kc>>, <<S("")>>)
                                     ELSE IF one THEN Nd("Str", <<Ko, T(items[1][2]), Kc>>, <<S(BytesR(items[1][3]))>>)
                                     ELSE Nd("Dstr", all, <<PL(Idx(k))>>)
       [] kind = "s" -> IF k = 0 THEN Nd("Dsym", <<Ko, Kc>>, <<Empty>>) ELSE Nd("Sym", <<Ko, T(items[1][2]), Kc>>, <<S(BytesR(items[1][3]))>>)
       [] kind = "x" -> Nd("Xstr", all, <<PL(Idx(k))>>)
       [] kind = "r" -> Nd("Regexp", all, <<PL(Idx(k)), Nil>>)
Degenerate == \E i \in DOMAIN items : items[i][1] = "t" /\ items[i][3] = <<>>
Z == Nd("Send", <<K("selector_l", "z")>>, <<Nil, S("z"), Empty>>)
RECURSIVE Src(_)
Src(its) == IF its = <<>> THEN "" ELSE (IF Head(its)[1] = "i" THEN "#{a}" ELSE Head(its)[2]) \o Src(Tail(its))
Emit ==
  CASE q = "closed" -> IF Degenerate THEN TRUE
                       ELSE /\ CaseXL(Nd("Begin", <<Lit, T(";"), Z>>, <<PL(<<1, 3>>)>>))
                            /\ (n <= 3 => CaseXL(Nd("Send", <<Lit, K("dot_l", "."), K("selector_l", "z"), K("begin_l", "("), Lit, K("end_l", ")")>>, <<P(1), S("z"), PL(<<5>>)>>)))
    [] OTHER -> Out([s |-> "%" \o kind \o dl \o Src(items), ok |-> FALSE])
=============================================================================
