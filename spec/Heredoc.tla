------------------------------ MODULE Heredoc --------------------------------
(* C20.  Heredocs: which lines are the body, where the code continues, what the body is worth.        *)
(* The state is a head line (a context with one or two openings) and the body lines written so far.   *)
EXTENDS Bytes
CONSTANTS Styles, Quotes, Lines, MaxLines, Ctxs, TermInds, Styles2, Eols
VARIABLES ctx, style, quote, ti, st2, body, eol

(* ---- lines: indentation and items; <<"t", source, value>>, <<"i">>, <<"c">> (backslash newline) ---- *)
Tx(s) == <<"t", s, StrBytes(s)>>
LineT == [
  empty |-> [ind |-> "", its |-> <<>>],
  blank2 |-> [ind |-> "  ", its |-> <<>>],
  blanktab |-> [ind |-> "\t", its |-> <<>>],
  x0 |-> [ind |-> "", its |-> <<Tx("x")>>],
  x2 |-> [ind |-> "  ", its |-> <<Tx("x")>>],
  x3 |-> [ind |-> "   ", its |-> <<Tx("x y ")>>],
  x4 |-> [ind |-> "    ", its |-> <<Tx("x'\"`")>>],
  xt |-> [ind |-> "\t", its |-> <<Tx("x")>>],
  xt2 |-> [ind |-> "\t  ", its |-> <<Tx("x")>>],
  x2t |-> [ind |-> "  \t", its |-> <<Tx("x")>>],
  x8 |-> [ind |-> "        ", its |-> <<Tx("x")>>],
  i0 |-> [ind |-> "", its |-> <<<<"i">>>>],
  i2 |-> [ind |-> "  ", its |-> <<<<"i">>>>],
  i2x |-> [ind |-> "  ", its |-> <<<<"i">>, Tx("  y")>>],
  xi |-> [ind |-> "    ", its |-> <<Tx("x"), <<"i">>, Tx(" y")>>],
  ii |-> [ind |-> " ", its |-> <<<<"i">>, <<"i">>>>],
  esc |-> [ind |-> "  ", its |-> <<<<"t", "\\tx\\x41", <<9, 120, 65>>>>>>],
  esc0 |-> [ind |-> "   ", its |-> <<<<"t", "\\x20x", <<32, 120>>>>>>],
  nl |-> [ind |-> "  ", its |-> <<<<"t", "a\\nb", <<97, 10, 98>>>>>>],
  noint |-> [ind |-> "  ", its |-> <<<<"t", "\\#{a}", StrBytes("#{a}")>>>>],
  hash |-> [ind |-> " ", its |-> <<Tx("x # y #")>>],
  cont |-> [ind |-> "  ", its |-> <<Tx("x"), <<"c">>>>],
  cont0 |-> [ind |-> "    ", its |-> <<<<"c">>>>],
  long |-> [ind |-> "", its |-> <<Tx("AA")>>],
  trail |-> [ind |-> "", its |-> <<Tx("A ")>>],
  Aind |-> [ind |-> " ", its |-> <<Tx("A")>>],
  Bline |-> [ind |-> "", its |-> <<Tx("B")>>],
  Zend |-> [ind |-> "", its |-> <<Tx("__END__")>>],
  v2 |-> [ind |-> "  ", its |-> <<<<"v">>, Tx(" w")>>],
  mi |-> [ind |-> "    ", its |-> <<Tx("x "), <<"m">>, Tx("  y")>>],
  m1 |-> [ind |-> " ", its |-> <<<<"m">>>>],
  beg |-> [ind |-> "", its |-> <<Tx("=begin")>>]
]

Raw(h) == h.quote = "'"
Squig(h) == h.style = "~"
SrcIt(it) == CASE it[1] = "t" -> it[2] [] it[1] = "i" -> "#{a}" [] it[1] = "c" -> "\\" [] it[1] = "v" -> "#@a" [] it[1] = "m" -> "#{" \o eol \o "  a" \o eol \o " }"
Code == {"i", "v", "m"}
RECURSIVE SrcIts(_)
SrcIts(its) == IF its = <<>> THEN "" ELSE SrcIt(Head(its)) \o SrcIts(Tail(its))
LineSrc(l) == LineT[l].ind \o SrcIts(LineT[l].its) \o eol          \* a CR before the newline is no part of the value
RECURSIVE LinesSrc(_)
LinesSrc(ls) == IF ls = <<>> THEN "" ELSE LineSrc(Head(ls)) \o LinesSrc(Tail(ls))

(* ---- indentation of squiggly heredocs ---- *)
RECURSIVE Width(_, _)
Width(s, w) == IF s = "" THEN w ELSE Width(SubSeq(s, 2, Len(s)), IF SubSeq(s, 1, 1) = " " THEN w + 1 ELSE 8 * (w \div 8 + 1))
MinWidth(ls) ==
  LET ws == {Width(LineT[ls[i]].ind, 0) : i \in {j \in DOMAIN ls : LineT[ls[j]].its # <<>>}}
  IN IF ws = {} THEN 1000 ELSE CHOOSE m \in ws : \A k \in ws : m <= k
(* blanks of v removed up to width w; a tab that reaches beyond stays *)
RECURSIVE Strip(_, _, _)
Strip(v, col, w) ==
  IF v = <<>> \/ col >= w THEN v
  ELSE IF Head(v) = 32 THEN Strip(Tail(v), col + 1, w)
  ELSE IF Head(v) = 9 /\ 8 * (col \div 8 + 1) <= w THEN Strip(Tail(v), 8 * (col \div 8 + 1), w)
  ELSE v

(* ---- segments of one line: <<"t", source, value>> and <<"i">> ---- *)
RECURSIVE Merge(_, _)
Merge(its, cur) ==      \* cur is the pending text <<source, value>>
  IF its = <<>> THEN IF cur[1] = "" THEN <<>> ELSE <<<<"t", cur[1], cur[2]>>>>
  ELSE IF Head(its)[1] \in Code THEN (IF cur[1] = "" THEN <<>> ELSE <<<<"t", cur[1], cur[2]>>>>) \o <<Head(its)>> \o Merge(Tail(its), <<"", <<>>>>)
  ELSE Merge(Tail(its), <<cur[1] \o Head(its)[2], cur[2] \o Head(its)[3]>>)
LineItems(h, l) ==
  IF Raw(h) THEN <<<<"t", LineSrc(l), StrBytes(LineT[l].ind \o SrcIts(LineT[l].its)) \o <<10>>>>>>
  ELSE LET ln == LineT[l]
           c == ln.its # <<>> /\ ln.its[Len(ln.its)][1] = "c"
           its == IF c THEN SubSeq(ln.its, 1, Len(ln.its) - 1) ELSE ln.its
       IN <<<<"t", ln.ind, StrBytes(ln.ind)>>>> \o its \o <<IF c THEN <<"t", "\\" \o eol, <<>>>> ELSE <<"t", eol, <<10>>>>>>
RECURSIVE AllItems(_, _)
AllItems(h, ls) == IF ls = <<>> THEN <<>> ELSE LineItems(h, Head(ls)) \o AllItems(h, Tail(ls))
RECURSIVE Ded(_, _)
Ded(segs, w) == [i \in DOMAIN segs |-> IF i = 1 /\ segs[1][1] = "t" THEN <<"t", segs[1][2], Strip(segs[1][3], 0, w)>> ELSE segs[i]]
RECURSIVE SqItems(_, _, _)
SqItems(h, ls, w) == IF ls = <<>> THEN <<>> ELSE Ded(Merge(LineItems(h, Head(ls)), <<"", <<>>>>), w) \o SqItems(h, Tail(ls), w)
Segs(h) == IF Squig(h) THEN SqItems(h, h.lines, MinWidth(h.lines)) ELSE Merge(AllItems(h, h.lines), <<"", <<>>>>)

Aid == Nd("Send", <<K("selector_l", "a")>>, <<Nil, S("a"), Empty>>)
IntNode == Nd("Begin", <<K("begin_l", "#{"), Aid, K("end_l", "}")>>, <<PL(<<2>>)>>)
SegF(sg) == IF sg[1] = "i" THEN IntNode ELSE IF sg[1] = "v" THEN NdR("Ivar", <<T("#"), T("@a")>>, <<S("@a")>>, 2, 2)
            ELSE IF sg[1] = "m" THEN Nd("Begin", <<K("begin_l", "#{"), T(eol \o "  "), Aid, T(eol \o " "), K("end_l", "}")>>, <<PL(<<3>>)>>) ELSE Nd("Str", <<T(sg[2])>>, <<S(BytesR(sg[3]))>>)
Opening(h) == "<<" \o h.style \o h.quote \o h.id \o h.quote
TermSrc(h) == (IF h.style = "" THEN "" ELSE h.ti) \o h.id
BodySrc(h) == LinesSrc(h.lines)
(* heredoc node whose body starts d bytes after the opening *)
Hd(h, d) ==
  LET segs == Segs(h)
      ps == <<T("")>> \o [i \in DOMAIN segs |-> SegF(segs[i])]
      bl == Len(BodySrc(h))
      tl == Len(TermSrc(h))
      keep == {i \in DOMAIN segs : segs[i][1] \in Code \/ segs[i][3] # <<>>}
      offs == [i \in DOMAIN segs |-> d + OffTo(ps, i + 1)]
      RECURSIVE Kids(_)
      Kids(i) == IF i > Len(segs) THEN <<>> ELSE (IF i \in keep \/ ~Squig(h) THEN <<At(ps[i + 1].n, offs[i])>> ELSE <<>>) \o Kids(i + 1)
  IN [s |-> Opening(h),
      n |-> [ty |-> IF h.quote = "`" THEN "XHeredoc" ELSE "Heredoc", o |-> 0,
             L |-> << <<"heredoc_body_l", IF bl = 0 THEN d ELSE d, IF bl = 0 THEN d + tl ELSE d + bl>>,
                      <<"heredoc_end_l", d + bl, d + bl + tl>>, <<"expression_l", 0, Len(Opening(h))>> >>,
             v |-> <<<<"l", Kids(1)>>>>]]

(* ---- contexts ---- *)
One(n) == Nd("Int", <<T(n)>>, <<S(n)>>)
Id(m) == Nd("Send", <<K("selector_l", m)>>, <<Nil, S(m), Empty>>)
(* text before, between and after the openings *)
CtxT == [
  plain |-> <<"", "", "">>, asgn |-> <<"v = ", "", "">>, paren |-> <<"m(", "", ", 1)">>, cmd |-> <<"m ", "", "">>,
  recv |-> <<"", "", ".m(1)">>, arr |-> <<"[1, ", "", "]">>, mod |-> <<"", "", " if a">>, comment |-> <<"", "", " # c">>,
  interp |-> <<"\"p#{", "", "}q\"">>, block |-> <<"m(", "", ") { 1 }">>, hash |-> <<"{ k: ", "", " }">>, semi |-> <<"", "", "; 1">>,
  spaces |-> <<"", "", "  ">>, str |-> <<"", "", " 's'">>, str2 |-> <<"", "", " \"  s\"">>, arrstr |-> <<"[", "", ", \"  b\"]">>, arrx |-> <<"[", "", ", `  b`]">>, arrint |-> <<"[", "", ", \"  b#{c}  d\"]">>,
  two |-> <<"m(", ", ", ")">>, twocmd |-> <<"m ", ", ", "">>, plus |-> <<"", " + ", "">>, twointerp |-> <<"[", ", \"#{", "}\"]">>
]
IsTwo(c) == c \in {"two", "twocmd", "plus", "twointerp"}
Build(c, f, g) ==
  CASE c \in {"plain", "comment", "spaces"} -> f
    [] c = "asgn" -> Nd("Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, f>>, <<S("v"), P(5)>>)
    [] c = "paren" -> Nd("Send", <<K("selector_l", "m"), K("begin_l", "("), f, T(", "), One("1"), K("end_l", ")")>>, <<Nil, S("m"), PL(<<3, 5>>)>>)
    [] c = "cmd" -> Nd("Send", <<K("selector_l", "m"), Sp, f>>, <<Nil, S("m"), PL(<<3>>)>>)
    [] c = "recv" -> Nd("Send", <<f, K("dot_l", "."), K("selector_l", "m"), K("begin_l", "("), One("1"), K("end_l", ")")>>, <<P(1), S("m"), PL(<<5>>)>>)
    [] c = "arr" -> Nd("Array", <<K("begin_l", "["), One("1"), T(", "), f, K("end_l", "]")>>, <<PL(<<2, 4>>)>>)
    [] c = "mod" -> Nd("IfMod", <<f, Sp, K("keyword_l", "if"), Sp, Id("a")>>, <<P(5), P(1), Nil>>)
    [] c = "interp" -> Nd("Dstr", <<K("begin_l", "\""), Nd("Str", <<T("p")>>, <<S("p")>>), Nd("Begin", <<K("begin_l", "#{"), f, K("end_l", "}")>>, <<PL(<<2>>)>>), Nd("Str", <<T("q")>>, <<S("q")>>), K("end_l", "\"")>>, <<PL(<<2, 3, 4>>)>>)
    [] c = "block" -> Nd("Block", <<Nd("Send", <<K("selector_l", "m"), K("begin_l", "("), f, K("end_l", ")")>>, <<Nil, S("m"), PL(<<3>>)>>), Sp, K("begin_l", "{"), Sp, One("1"), Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)
    [] c = "hash" -> Nd("Hash", <<K("begin_l", "{"), Sp, AddLoc(Nd("Pair", <<Nd("Sym", <<T("k")>>, <<S("k")>>), T(": "), f>>, <<P(1), P(3)>>), "operator_l", 1, 2), Sp, K("end_l", "}")>>, <<PL(<<3>>)>>)
    [] c = "str" -> Nd("Dstr", <<f, Sp, Nd("Str", <<K("begin_l", "'"), T("s"), K("end_l", "'")>>, <<S("s")>>)>>, <<PL(<<1, 3>>)>>)
    [] c = "str2" -> Nd("Dstr", <<f, Sp, Nd("Str", <<K("begin_l", "\""), T("  s"), K("end_l", "\"")>>, <<S("  s")>>)>>, <<PL(<<1, 3>>)>>)
    [] c = "arrstr" -> Nd("Array", <<K("begin_l", "["), f, T(", "), Nd("Str", <<K("begin_l", "\""), T("  b"), K("end_l", "\"")>>, <<S("  b")>>), K("end_l", "]")>>, <<PL(<<2, 4>>)>>)
    [] c = "arrx" -> Nd("Array", <<K("begin_l", "["), f, T(", "), Nd("Xstr", <<K("begin_l", "`"), Nd("Str", <<T("  b")>>, <<S("  b")>>), K("end_l", "`")>>, <<PL(<<2>>)>>), K("end_l", "]")>>, <<PL(<<2, 4>>)>>)
    [] c = "arrint" -> Nd("Array", <<K("begin_l", "["), f, T(", "), Nd("Dstr", <<K("begin_l", "\""), Nd("Str", <<T("  b")>>, <<S("  b")>>), Nd("Begin", <<K("begin_l", "#{"), Id("c"), K("end_l", "}")>>, <<PL(<<2>>)>>), Nd("Str", <<T("  d")>>, <<S("  d")>>), K("end_l", "\"")>>, <<PL(<<2, 3, 4>>)>>), K("end_l", "]")>>, <<PL(<<2, 4>>)>>)
    [] c = "two" -> Nd("Send", <<K("selector_l", "m"), K("begin_l", "("), f, T(", "), g, K("end_l", ")")>>, <<Nil, S("m"), PL(<<3, 5>>)>>)
    [] c = "twocmd" -> Nd("Send", <<K("selector_l", "m"), Sp, f, T(", "), g>>, <<Nil, S("m"), PL(<<3, 5>>)>>)
    [] c = "plus" -> Nd("Send", <<f, Sp, K("selector_l", "+"), Sp, g>>, <<P(1), S("+"), PL(<<5>>)>>)
    [] c = "twointerp" -> Nd("Array", <<K("begin_l", "["), f, T(", "), Nd("Dstr", <<K("begin_l", "\""), Nd("Begin", <<K("begin_l", "#{"), g, K("end_l", "}")>>, <<PL(<<2>>)>>), K("end_l", "\"")>>, <<PL(<<2>>)>>), K("end_l", "]")>>, <<PL(<<2, 4>>)>>)
    [] OTHER -> f
Extra(c) == IF c = "comment" THEN " # c" ELSE IF c = "spaces" THEN "  " ELSE ""

H1 == [style |-> style, quote |-> quote, ti |-> ti, id |-> "A", lines |-> body]
H2 == [style |-> st2, quote |-> IF quote = "'" THEN "" ELSE "'", ti |-> "  ", id |-> "B", lines |-> <<"x2", "i2", "x3">>]
Program ==
  LET t == CtxT[ctx]
      o2 == IF IsTwo(ctx) THEN Opening(H2) ELSE ""
      rest2 == Len(o2) + Len(t[3])
      rest1 == Len(Opening(H1)) + Len(t[2]) + rest2
      el == Len(eol)
      b1 == Len(BodySrc(H1)) + Len(TermSrc(H1)) + el
      f == Hd(H1, rest1 + el)
      g == Hd(H2, rest2 + el + b1)
      bodies == Extra(ctx) \o eol \o BodySrc(H1) \o TermSrc(H1) \o eol \o (IF IsTwo(ctx) THEN BodySrc(H2) \o TermSrc(H2) \o eol ELSE "")
      e == Build(ctx, f, g)
  IN IF ctx = "semi" THEN Nd("Begin", <<f, T("; "), One("1"), T(bodies), Id("z")>>, <<PL(<<1, 3, 5>>)>>)
     ELSE Nd("Begin", <<e, T(bodies), Id("z")>>, <<PL(<<1, 3>>)>>)

Init == /\ ctx \in Ctxs /\ style \in Styles /\ quote \in Quotes /\ ti \in TermInds /\ st2 \in (IF IsTwo(ctx) THEN Styles2 ELSE {"-"}) /\ body = <<>> /\ eol \in Eols
        /\ (quote = "`" => ctx \notin {"str", "str2"})
        /\ (style = "" => ti = CHOOSE x \in TermInds : TRUE)
Next == /\ Len(body) < MaxLines
        /\ \E l \in Lines : body' = Append(body, l) /\ (l = "Aind" => style = "") /\ (l \in {"mi", "m1"} => quote # "'")
        /\ UNCHANGED <<ctx, style, quote, ti, st2, eol>>
(* a continuation as last line would continue into the terminator *)
Joins == body # <<>> /\ quote # "'" /\ LineT[body[Len(body)]].its # <<>> /\ LineT[body[Len(body)]].its[Len(LineT[body[Len(body)]].its)][1] = "c"
EmptyPart == \E i \in DOMAIN Segs(H1) : Segs(H1)[i][1] = "t" /\ Segs(H1)[i][3] = <<>> /\ ~Squig(H1)
Emit == IF Joins \/ EmptyPart THEN TRUE
        ELSE /\ CaseXLm(Program)
             (* without its terminator (a second heredoc keeps its own) *)
             /\ (ctx \in {"plain", "cmd"} /\ Len(body) <= 1 =>
                   /\ Out([s |-> CtxT[ctx][1] \o Opening(H1) \o eol \o BodySrc(H1), err |-> <<"UnterminatedHeredoc">>])
                   /\ Out([s |-> CtxT[ctx][1] \o Opening(H1) \o eol \o BodySrc(H1) \o " A x\nz", err |-> <<"UnterminatedHeredoc">>])
                   /\ (style = "" => Out([s |-> CtxT[ctx][1] \o Opening(H1) \o eol \o BodySrc(H1) \o "  A\nz", err |-> <<"UnterminatedHeredoc">>])))
=============================================================================
