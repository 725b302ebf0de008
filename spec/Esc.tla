-------------------------------- MODULE Esc ---------------------------------
(* C18.  How the text of a literal becomes its value, for every kind of literal, as an automaton over *)
(* characters.  The state is the literal kind, the text read, the value so far, and the position      *)
(* inside an escape sequence.                                                                         *)
EXTENDS Bytes
CONSTANTS Kinds, Chars, MaxLen, Pre
VARIABLES kind, txt, val, q, w

(* ---- literal kinds: opening, closing, how escapes are treated ---- *)
(* d: decoded; s: only delimiters and backslash; w: as s, plus blanks; r: kept (regexp); raw: nothing *)
KindOf == [
  dq |-> [o |-> "\"", c |-> "\"", m |-> "d"],
  pc |-> [o |-> "%(", c |-> ")", m |-> "d"],
  pQ |-> [o |-> "%Q|", c |-> "|", m |-> "d"],
  xq |-> [o |-> "`", c |-> "`", m |-> "d"],
  px |-> [o |-> "%x<", c |-> ">", m |-> "d"],
  dsym |-> [o |-> ":\"", c |-> "\"", m |-> "d"],
  label |-> [o |-> "\"", c |-> "\"", m |-> "d"],
  W |-> [o |-> "%W[", c |-> "]", m |-> "d"],
  I |-> [o |-> "%I{", c |-> "}", m |-> "d"],
  hd |-> [o |-> "<<A\n", c |-> "\nA\n", m |-> "d"],
  char |-> [o |-> "?", c |-> "", m |-> "d"],
  sq |-> [o |-> "'", c |-> "'", m |-> "s"],
  q |-> [o |-> "%q(", c |-> ")", m |-> "s"],
  q2 |-> [o |-> "%q!", c |-> "!", m |-> "s"],
  ssym |-> [o |-> ":'", c |-> "'", m |-> "s"],
  slabel |-> [o |-> "'", c |-> "'", m |-> "s"],
  s |-> [o |-> "%s<", c |-> ">", m |-> "s"],
  w |-> [o |-> "%w[", c |-> "]", m |-> "w"],
  i |-> [o |-> "%i(", c |-> ")", m |-> "w"],
  raw |-> [o |-> "<<'A'\n", c |-> "\nA\n", m |-> "raw"],
  re |-> [o |-> "/", c |-> "/", m |-> "r"],
  r |-> [o |-> "%r{", c |-> "}", m |-> "r"],
  r2 |-> [o |-> "%r!", c |-> "!", m |-> "r"]
]
Opener == [pc |-> "(", W |-> "[", I |-> "{", px |-> "<", q |-> "(", s |-> "<", w |-> "[", i |-> "(", r |-> "{"]
Delims(k) == {KindOf[k].c} \cup (IF k \in DOMAIN Opener THEN {Opener[k]} ELSE {})
Mode == KindOf[kind].m

Oct == {"0", "1", "2", "3", "4", "5", "6", "7"}
Hex == DOMAIN HexVal
Blank == {" ", "\n", "\t"}
Simple == [n |-> 10, t |-> 9, r |-> 13, f |-> 12, v |-> 11, a |-> 7, e |-> 27, b |-> 8, s |-> 32]
Bytes1(ch) == IF ch = EAcute THEN <<195, 169>> ELSE <<Ord(ch)>>

(* control and meta, innermost first: a byte x under prefixes fl (outermost first) *)
RECURSIVE Apply(_, _)
And9f(x) == (x % 32) + (IF (x \div 128) % 2 = 1 THEN 128 ELSE 0)
Or80(x) == IF x >= 128 THEN x ELSE x + 128
Apply(fl, x) == IF fl = <<>> THEN x
                ELSE LET y == Apply(Tail(fl), x) IN IF Head(fl) = "C" THEN And9f(y) ELSE Or80(y)
(* \C-? and \c? are DEL, whatever surrounds them is applied to that *)
N0 == [m |-> "N", f |-> <<>>, n |-> 0, k |-> 0]
Bad == [N0 EXCEPT !.m = "bad"]
Skip == [N0 EXCEPT !.m = "skip"]
Esc0(fl) == [N0 EXCEPT !.m = "E", !.f = fl]

(* an escape is complete with byte x (decoding literals and prefixed escapes of regexps) *)
Done(fl, x) == [q |-> N0, v |-> IF Mode = "r" THEN StrBytes("\\x" \o HX(Apply(fl, x) \div 16) \o HX(Apply(fl, x) % 16)) ELSE <<Apply(fl, x)>>, w |-> <<>>]
Go(s) == [q |-> s, v |-> <<>>, w |-> <<>>]
Lits(bs) == [q |-> N0, v |-> bs, w |-> <<>>]

(* the character after a backslash, under prefixes fl (decoding) *)
AfterBs(fl, ch) ==
  CASE ch = "\\" -> Done(fl, 92)
    [] ch \in DOMAIN Simple -> Done(fl, Simple[ch])
    [] ch \in Oct -> Go([m |-> "O", f |-> fl, n |-> Ord(ch) - 48, k |-> 1])
    [] ch = "x" -> Go([m |-> "X", f |-> fl, n |-> 0, k |-> 0])
    [] ch = "u" -> IF fl = <<>> THEN Go([N0 EXCEPT !.m = "U"]) ELSE Go(Bad)
    [] ch = "U" /\ fl # <<>> -> Go(Bad)
    [] ch = "M" -> IF \E i \in DOMAIN fl : fl[i] = "M" THEN Go(Bad) ELSE Go([N0 EXCEPT !.m = "M-", !.f = fl])
    [] ch = "C" -> IF \E i \in DOMAIN fl : fl[i] = "C" THEN Go(Bad) ELSE Go([N0 EXCEPT !.m = "C-", !.f = fl])
    [] ch = "c" -> IF \E i \in DOMAIN fl : fl[i] = "C" THEN Go(Bad) ELSE Go([N0 EXCEPT !.m = "P", !.f = Append(fl, "C")])
    [] ch = "\n" -> IF fl = <<>> /\ kind \in {"W", "I"} THEN Done(fl, 10) ELSE IF fl = <<>> /\ kind # "char" THEN Lits(<<>>) ELSE Go(Skip)
    [] ch = EAcute -> IF fl = <<>> THEN Lits(Bytes1(ch)) ELSE Go(Skip)
    [] OTHER -> Done(fl, Ord(ch))

(* the character after \M- or \C- or \c *)
Prefixed(fl, ch) ==
  LET last == fl[Len(fl)]
      only == \A i \in DOMAIN fl : fl[i] = last
      both == Len(fl) > 1
      name == IF ch = " " THEN "s" ELSE IF ch = "\t" THEN "t" ELSE ""
      hint == IF ch = " " THEN (IF ~both THEN "\\" \o last \o "-\\s" ELSE IF last = "M" THEN "\\C-\\M-\\s" ELSE "\\M-\\C-\\s")
              ELSE IF last = "M" THEN "\\M-\\t" ELSE IF both THEN "\\M-\\t" ELSE "\\t"
  IN CASE ch = "\\" -> Go(Esc0(fl))
       [] ch = "?" /\ last = "C" -> LET fl2 == SubSeq(fl, 1, Len(fl) - 1) IN Done(fl2, 127)
       [] ch = EAcute -> Go(Bad)
       [] ch \in {" ", "\t"} -> [Done(fl, Ord(ch)) EXCEPT !.w = <<"warning invalid character syntax; use " \o hint>>]
       [] ch = "\n" -> Go(Skip)
       [] OTHER -> Done(fl, Ord(ch))

CodeBad(n) == n > 1114111 \/ (n >= 55296 /\ n <= 57343)
(* one more character: new state and what it adds to the value *)
Normal(ch) ==
  CASE ch = "\\" /\ Mode = "raw" -> Lits(<<92>>)
    [] ch = "\\" -> Go(Esc0(<<>>))
    [] OTHER -> Lits(Bytes1(ch))
KeepU(s) == IF Mode = "r" THEN StrBytes(s) ELSE <<>>
Step(ch) ==
  CASE q.m = "N" -> Normal(ch)
    [] q.m = "E" /\ Mode = "s" ->
         IF ch \in {"\\"} \cup Delims(kind) THEN Lits(<<Ord(ch)>>) ELSE Lits(<<92>> \o Bytes1(ch))
    [] q.m = "E" /\ Mode = "w" ->
         IF ch \in {"\\"} \cup Delims(kind) \cup Blank THEN Lits(<<Ord(ch)>>) ELSE Lits(<<92>> \o Bytes1(ch))
    [] q.m = "E" /\ Mode = "r" /\ q.f = <<>> ->
         CASE ch = "\n" -> Lits(<<>>)
           [] ch \in Oct -> [q |-> [m |-> "O", f |-> <<>>, n |-> 0, k |-> 1], v |-> <<92, Ord(ch)>>, w |-> <<>>]
           [] ch = "x" -> [q |-> [m |-> "X", f |-> <<>>, n |-> 0, k |-> 0], v |-> <<92, 120>>, w |-> <<>>]
           [] ch = "u" -> [q |-> [N0 EXCEPT !.m = "U"], v |-> <<92, 117>>, w |-> <<>>]
           [] ch \in {"c", "C", "M"} -> AfterBs(<<>>, ch)
           [] ch \in {"/", "!"} /\ ch = KindOf[kind].c -> Lits(<<Ord(ch)>>)
           [] OTHER -> Lits(<<92>> \o Bytes1(ch))
    [] q.m = "E" -> AfterBs(q.f, ch)
    [] q.m = "M-" -> IF ch = "-" THEN Go([N0 EXCEPT !.m = "P", !.f = Append(q.f, "M")]) ELSE Go(Bad)
    [] q.m = "C-" -> IF ch = "-" THEN Go([N0 EXCEPT !.m = "P", !.f = Append(q.f, "C")]) ELSE Go(Bad)
    [] q.m = "P" -> Prefixed(q.f, ch)
    [] q.m = "O" -> (* up to three digits; Flush is what an unfinished number is worth *)
         IF ch \in Oct /\ q.k < 3
         THEN [q |-> [q EXCEPT !.n = @ * 8 + Ord(ch) - 48, !.k = @ + 1], v |-> IF Mode = "r" /\ q.f = <<>> THEN <<Ord(ch)>> ELSE <<>>, w |-> <<>>]
         ELSE LET r == Normal(ch)
              IN [r EXCEPT !.v = (IF Mode = "r" /\ q.f = <<>> THEN <<>> ELSE Done(q.f, q.n % 256).v) \o @]
    [] q.m = "X" ->
         IF ch \in Hex /\ q.k < 2
         THEN [q |-> [q EXCEPT !.n = @ * 16 + HexVal[ch], !.k = @ + 1], v |-> IF Mode = "r" /\ q.f = <<>> THEN <<Ord(ch)>> ELSE <<>>, w |-> <<>>]
         ELSE IF q.k = 0 THEN Go(Bad)
         ELSE LET r == Normal(ch)
              IN [r EXCEPT !.v = (IF Mode = "r" /\ q.f = <<>> THEN <<>> ELSE Done(q.f, q.n).v) \o @]
    [] q.m = "U" ->
         CASE ch \in Hex -> [q |-> [m |-> "U4", f |-> <<>>, n |-> HexVal[ch], k |-> 1], v |-> KeepU(ch), w |-> <<>>]
           [] ch = "{" -> [q |-> [N0 EXCEPT !.m = "U{"], v |-> KeepU(ch), w |-> <<>>]
           [] OTHER -> Go(Bad)
    [] q.m = "U4" ->
         IF ch \notin Hex THEN Go(Bad)
         ELSE LET n == q.n * 16 + HexVal[ch]
              IN IF q.k < 3 THEN [q |-> [q EXCEPT !.n = n, !.k = @ + 1], v |-> KeepU(ch), w |-> <<>>]
                 ELSE IF CodeBad(n) THEN Go(Bad)
                 ELSE IF Mode = "r" THEN Lits(<<Ord(ch)>>) ELSE Lits(Utf8(n))
    [] q.m \in {"U{", "U{ "} ->                     \* before a code point
         CASE ch \in {" ", "\t"} -> Go(IF q.m = "U{" THEN q ELSE [q EXCEPT !.f = <<ch>>])
           [] ch \in Hex -> [q |-> [m |-> "U{h", f |-> q.f, n |-> HexVal[ch], k |-> 1],
                             v |-> IF Mode = "r" THEN (IF q.f = <<>> THEN <<>> ELSE <<Ord(q.f[1])>>) \o <<Ord(ch)>> ELSE <<>>, w |-> <<>>]
           [] ch = "}" -> IF q.m = "U{" THEN Go(Skip) ELSE IF kind = "char" /\ q.n = 2 THEN Go(Bad) ELSE [q |-> N0, v |-> KeepU("}"), w |-> <<>>]
           [] OTHER -> Go(Bad)
    [] q.m = "U{h" ->
         CASE ch \in Hex -> IF q.k >= 6 THEN Go(Bad) ELSE [q |-> [q EXCEPT !.n = @ * 16 + HexVal[ch], !.k = @ + 1], v |-> KeepU(ch), w |-> <<>>]
           [] ch \in {" ", "\t"} /\ ~CodeBad(q.n) -> [q |-> [N0 EXCEPT !.m = "U{ ", !.f = <<ch>>, !.n = IF q.f = <<>> THEN 1 ELSE 2], v |-> IF Mode = "r" THEN <<>> ELSE Utf8(q.n), w |-> <<>>]
           [] ch = "}" /\ ~CodeBad(q.n) -> IF kind = "char" /\ q.f # <<>> THEN Go(Bad) ELSE [q |-> N0, v |-> IF Mode = "r" THEN <<125>> ELSE Utf8(q.n), w |-> <<>>]
           [] OTHER -> Go(Bad)
    [] OTHER -> Go(q)

(* what the text is worth if it ends here *)
Complete == q.m = "N" \/ q.m = "O" \/ (q.m = "X" /\ q.k > 0)
Final == IF q.m \in {"O", "X"} /\ ~(Mode = "r" /\ q.f = <<>>) THEN val \o Done(q.f, q.n % 256).v ELSE val
Units == Len(val)

(* texts start with a given prefix, so that deep escapes are reached *)
Init == /\ kind \in Kinds /\ txt = "" /\ val = <<>> /\ q = N0 /\ w = <<>>
Allowed(ch) ==
  /\ q.m \in {"N", "O", "X"} => ch \notin Delims(kind) \* delimiters only inside escapes
  /\ q.m \notin {"N", "O", "X", "E"} => ch \notin Delims(kind) \/ (ch \in {"{"} /\ q.m = "U")
  /\ (q.m = "N" /\ Mode \in {"w"}) => ch \notin Blank
  /\ (Mode \in {"d", "r"} /\ q.m = "N" /\ txt # "" /\ kind # "char") => ~(SubSeq(txt, Len(txt), Len(txt)) = "#" /\ ch \in {"{", "$", "@"})   \* interpolation: see Interp
  /\ (kind \in {"W", "I"} /\ q.m \in {"N", "O", "X"}) => ch \notin Blank
  /\ kind = "char" => /\ ~(q.m = "N" /\ txt # "") /\ ch \notin {"\n"} /\ (txt = "" => ch \notin Blank) /\ ~(q.m = "X" /\ q.k > 0 /\ (q.k = 2 \/ ch \notin Hex))
                      /\ ~(q.m = "O" /\ (q.k = 3 \/ ch \notin Oct))
Next == /\ Len(txt) < MaxLen
        /\ q.m \notin {"bad", "skip"}
        /\ \E ch \in (IF Len(txt) < Len(Pre) THEN {SubSeq(Pre, Len(txt) + 1, Len(txt) + 1)} ELSE Chars) :
             /\ Allowed(ch)
             /\ \E r \in {Step(ch)} : q' = r.q /\ val' = val \o r.v /\ w' = w \o r.w
             /\ txt' = txt \o ch
             /\ UNCHANGED kind

(* ---- the literal as a program ---- *)
V == BytesR(Final)
B(t) == Nd("Str", <<T(t)>>, <<S(V)>>)
Ko == K("begin_l", KindOf[kind].o)
Kc == K("end_l", KindOf[kind].c)
Lit ==
  CASE kind \in {"dq", "pc", "pQ", "sq", "q", "q2"} -> Nd("Str", <<Ko, T(txt), Kc>>, <<S(V)>>)
    [] kind \in {"xq", "px"} -> Nd("Xstr", <<Ko, B(txt), Kc>>, <<PL(<<2>>)>>)
    [] kind \in {"dsym", "ssym", "s"} -> Nd("Sym", <<Ko, T(txt), Kc>>, <<S(V)>>)
    [] kind \in {"re", "r", "r2"} -> Nd("Regexp", <<Ko, B(txt), Kc>>, <<PL(<<2>>), Nil>>)
    [] kind \in {"W", "w"} -> Nd("Array", <<Ko, B(txt), Kc>>, <<PL(<<2>>)>>)
    [] kind \in {"I", "i"} -> Nd("Array", <<Ko, Nd("Sym", <<T(txt)>>, <<S(V)>>), Kc>>, <<PL(<<2>>)>>)
    [] kind = "char" -> Nd("Str", <<Ko, T(txt)>>, <<S(V)>>)
    [] kind \in {"label", "slabel"} ->
         Nd("Hash", <<K("begin_l", "{"),
                      AddLoc(Nd("Pair", <<Nd("Sym", <<Ko, T(txt), Kc>>, <<S(V)>>), T(":1")>>, <<P(1), <<"n", [ty |-> "Int", o |-> Len(txt) + 3, v |-> <<S("1")>>, L |-> <<<<"expression_l", 0, 1>>>>]>>>>),
                             "operator_l", Len(txt) + 2, Len(txt) + 3),
                      K("end_l", "}")>>, <<PL(<<2>>)>>)
    [] kind \in {"hd", "raw"} -> Nd("Heredoc", <<T("<<A"), B(txt), Kc>>, <<PL(<<2>>)>>)

Ends == CASE kind = "hd" -> SubSeq(txt, Len(txt), Len(txt)) # "\n" [] OTHER -> TRUE
HdVal == <<"Heredoc([Str('", BytesR(Final \o <<10>>), "')])">>
Emit ==
  CASE q.m = "skip" \/ txt = "" \/ Len(txt) < Len(Pre) -> TRUE
    [] kind \in {"hd", "raw"} /\ (txt = "A" \/ txt = "\nA" \/ txt = "A\n" \/ (Len(txt) > 2 /\ (SubSeq(txt, 1, 2) = "A\n" \/ SubSeq(txt, Len(txt) - 1, Len(txt)) = "\nA"))) -> TRUE   \* the terminator
    [] Complete /\ kind \in {"hd", "raw"} ->
         Out([s |-> KindOf[kind].o \o txt \o KindOf[kind].c, x |-> HdVal, g |-> w])
    [] Complete /\ Final = <<>> -> TRUE
    [] Complete /\ kind = "dsym" /\ ~ValidUtf8(Final) -> Out([s |-> Lit.s, err |-> <<"InvalidSymbol">>])
    [] Complete /\ kind \in {"label", "I"} /\ ~ValidUtf8(Final) -> TRUE
    [] Complete -> Out([s |-> Lit.s, x |-> X(Lit.n), L |-> Locs(Lit.n), g |-> w])
    [] q.m = "bad" -> Out([s |-> (IF kind \in {"label", "slabel"} THEN "{" ELSE "") \o KindOf[kind].o \o txt \o KindOf[kind].c \o (IF kind \in {"label", "slabel"} THEN ": 1}" ELSE ""), ok |-> FALSE])
    [] kind \in {"hd"} -> TRUE
    [] OTHER -> Out([s |-> (IF kind \in {"label", "slabel"} THEN "{" ELSE "") \o KindOf[kind].o \o txt \o KindOf[kind].c \o (IF kind \in {"label", "slabel"} THEN ": 1}" ELSE ""), ok |-> FALSE])
=============================================================================
