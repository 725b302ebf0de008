------------------------------- MODULE Comment -------------------------------
(* C07.  Where comments are.  A program is a sequence of pieces; a piece is text with slots in which  *)
(* a comment (to the end of its line) or an embedded document may stand.  The state keeps the list of *)
(* comments in reading order (the body of a heredoc is read right after its opening).  Text in        *)
(* strings, heredocs, patterns, word lists and after the end of the program is never a comment.       *)
EXTENDS Tree
CONSTANTS Pieces, Texts, Docs, Modes, Wrappers, MaxPieces, NL, Ends
VARIABLES src, cs, n, w

C0 == [k |-> "C"]                 \* a comment or a document may stand here; then the line ends
D0 == [k |-> "D"]                 \* only a comment
                                  \* k = "B": a line that is a comment, or a document
O0 == [k |-> "O"]                 \* a line with a comment, or nothing (not even an empty line)
N0 == [k |-> "N"]                 \* the line ends
Tx(s) == [k |-> "T", s |-> s]
(* pieces: elements, and the order in which the slots are read when it is not the textual one *)
Pc(p) ==
  CASE p = "stmt" -> <<Tx("a "), C0>>
    [] p = "tight" -> <<Tx("a"), C0>>
    [] p = "empty" -> <<C0>>
    [] p = "blank" -> <<Tx("  \t"), C0>>
    [] p = "ff" -> <<Tx("\f "), C0>>
    [] p = "semi" -> <<Tx("a; "), C0, Tx(";"), C0>>
    [] p = "call" -> <<Tx("m(1, "), C0, Tx("  2 "), C0, Tx(")"), C0>>
    [] p = "callc" -> <<Tx("m(1, 2,"), C0, Tx(")"), C0>>
    [] p = "cmd" -> <<Tx("m 1, "), C0, Tx("b: "), C0, Tx(" 2"), C0>>
    [] p = "op" -> <<Tx("a + "), C0, Tx("b"), C0>>
    [] p = "and" -> <<Tx("a and "), C0, C0, Tx("b"), C0>>
    [] p = "asgn" -> <<Tx("a = "), C0, Tx(" b"), C0>>
    [] p = "tern" -> <<Tx("a ? "), C0, Tx("b : "), C0, Tx("c"), C0>>
    [] p = "chain" -> <<Tx("a "), D0, O0, Tx("  .b"), C0>>
    [] p = "chain&" -> <<Tx("a"), D0, Tx(" "), O0, O0, Tx("&.b"), C0>>
    [] p = "chaindot" -> <<Tx("a."), C0, Tx("b"), C0>>
    [] p = "colon2" -> <<Tx("a::"), C0, Tx("B"), C0>>
    [] p = "arr" -> <<Tx("["), C0, Tx("1, "), C0, Tx("]"), C0>>
    [] p = "hash" -> <<Tx("z({"), C0, Tx("a: 1, "), C0, Tx("\"k\" => "), C0, Tx("2"), C0, Tx("})"), C0>>
    [] p = "idx" -> <<Tx("a["), C0, Tx("1"), C0, Tx("]"), C0>>
    [] p = "paren" -> <<Tx("("), C0, Tx("a"), C0, Tx(")"), C0>>
    [] p = "str" -> <<Tx("\"# no\" "), C0>>
    [] p = "sqnl" -> <<Tx("'x # y"), N0, Tx("# z' "), C0>>
    [] p = "dqdoc" -> <<Tx("\"x"), N0, Tx("=begin"), N0, Tx("=end"), N0, Tx("__END__"), N0, Tx("\" "), C0>>
    [] p = "intp" -> <<Tx("\"x #{a "), C0, Tx("} # no\" "), C0>>
    [] p = "intp2" -> <<Tx("\"#{"), C0, Tx("a"), C0, C0, Tx("}#\" "), C0>>
    [] p = "intp3" -> <<Tx("\"#{\"#{a "), C0, Tx("}# no\" "), C0, Tx("}# no\" "), C0>>
    [] p = "char" -> <<Tx("?# "), C0>>
    [] p = "sym" -> <<Tx(":\"#\" "), C0>>
    [] p = "label" -> <<Tx("z \"#\": 1, "), C0, Tx("b: 2"), C0>>
    [] p = "re" -> <<Tx("/# x/ "), C0>>
    [] p = "rex" -> <<Tx("/x # no"), N0, Tx(" # no"), N0, Tx("/x "), C0>>
    [] p = "pctw" -> <<Tx("%w[# a #b"), N0, Tx("# c] "), C0>>
    [] p = "pctW" -> <<Tx("%W[# a#{b "), C0, Tx("} #b] "), C0>>
    [] p = "pcth" -> <<Tx("%(# #"), N0, Tx("=begin"), N0, Tx(") "), C0>>
    [] p = "pctq" -> <<Tx("%q{"), N0, Tx("# no"), N0, Tx("} "), C0>>
    [] p = "pct#" -> <<Tx("%q# no# "), C0>>
    [] p = "xs" -> <<Tx("`# no` "), C0>>
    [] p = "ivar" -> <<Tx("\"#@x # no\" "), C0>>
    [] p = "gvar" -> <<Tx("$; "), C0>>
    [] p = "hd" -> <<Tx("<<A "), D0, Tx("# no"), N0, Tx("=begin"), N0, Tx("#{a}# no"), N0, Tx("A"), N0>>
    [] p = "hdraw" -> <<Tx("m(<<'A', "), D0, Tx("# no"), N0, Tx("#{"), N0, Tx("A"), N0, Tx("2 "), C0, Tx(") "), C0>>
    [] p = "hdi" -> <<Tx("<<-A.m "), D0, Tx("x #{b "), C0, Tx("} # no"), N0, Tx("  A"), N0>>
    [] p = "hd2" -> <<Tx("<<~A + <<B "), D0, Tx("  # no #{b "), C0, Tx("}"), N0, Tx("  A"), N0, Tx("# no"), N0, Tx("#{"), C0, Tx("}"), N0, Tx("B"), N0>>
    [] p = "def" -> <<Tx("def m "), C0, Tx("a "), C0, Tx("end "), C0>>
    [] p = "defp" -> <<Tx("def m(a, "), C0, Tx("b = 1, "), C0, Tx("c:"), C0, Tx(") "), C0, Tx("end "), C0>>
    [] p = "defbare" -> <<Tx("def m a, "), C0, Tx("b"), C0, Tx("end "), C0>>
    [] p = "deflab" -> <<Tx("def m b: "), C0, Tx("a "), C0, Tx("end "), C0>>
    [] p = "endless" -> <<Tx("def m = "), C0, Tx("a "), C0>>
    [] p = "class" -> <<Tx("class K < "), C0, Tx("L "), C0, Tx("end "), C0>>
    [] p = "sclass" -> <<Tx("class << a "), C0, Tx("b"), C0, Tx("end"), C0>>
    [] p = "module" -> <<Tx("module "), C0, Tx("K"), C0, Tx("end"), C0>>
    [] p = "if" -> <<Tx("if a "), C0, Tx("b "), C0, Tx("elsif c "), C0, Tx("else "), C0, Tx("end "), C0>>
    [] p = "unless" -> <<Tx("unless "), C0, Tx("a then "), C0, Tx("end "), C0>>
    [] p = "while" -> <<Tx("while a "), C0, Tx("b "), C0, Tx("end "), C0>>
    [] p = "for" -> <<Tx("for a in "), C0, Tx("b do "), C0, Tx("end "), C0>>
    [] p = "case" -> <<Tx("case a "), C0, C0, Tx("when 1, "), C0, Tx("2 "), C0, Tx("b "), C0, Tx("else "), C0, Tx("end "), C0>>
    [] p = "casein" -> <<Tx("case a "), C0, Tx("in {a: 1, "), C0, Tx("b:} "), C0, Tx("in [1, "), C0, Tx("*] then "), C0, Tx("end "), C0>>
    [] p = "caselab" -> <<Tx("case a "), C0, Tx("in b: "), C0, Tx("end "), C0>>
    [] p = "begin" -> <<Tx("begin "), C0, Tx("a "), C0, Tx("rescue K, "), C0, Tx("L => e "), C0, Tx("else "), C0, Tx("ensure "), C0, Tx("end "), C0>>
    [] p = "brace" -> <<Tx("m { |x| "), C0, Tx("a "), C0, Tx("} "), C0>>
    [] p = "do" -> <<Tx("m do "), C0, Tx("|x, "), C0, Tx("y| "), C0, Tx("end "), C0>>
    [] p = "lam" -> <<Tx("-> (a, "), C0, Tx("b) { "), C0, Tx("} "), C0>>
    [] p = "bs" -> <<Tx("a \\"), N0, Tx("+ b "), C0>>
    [] p = "alias" -> <<Tx("alias a "), C0, Tx("b "), C0>>
    [] p = "undef" -> <<Tx("undef a, "), C0, Tx("b "), C0>>
    [] p = "pin" -> <<Tx("a => ^( "), C0, Tx("b)"), C0>>
    [] p = "mod" -> <<Tx("a if "), C0, Tx("b "), C0>>
    [] p = "ret" -> <<Tx("m "), C0, Tx("-1 "), C0>>
    [] p = "label2" -> <<Tx("m(a: "), C0, Tx("1)"), C0>>
    [] p = "curry" -> <<Tx("a.("), C0, Tx("1) "), C0>>
    [] p = "first" -> <<[k |-> "B"]>>
    [] p = "notend" -> <<Tx("__END__ x "), C0, Tx(" __END__ "), C0>>
Ordr(p) == CASE p = "hdi" -> <<2, 1>> [] p = "hd2" -> <<2, 3, 1>> [] OTHER -> <<>>

(* one slot at offset o: <<text, comments>> *)
SlotT(el, ch, o) ==
  IF ch[1] = "d"
  THEN IF el.k = "B" THEN LET d == Join(ch[2], NL) \o NL IN <<d, << <<o, o + Len(d), "document">> >> >>
       ELSE IF el.k = "C" THEN LET d == Join(ch[2], NL) \o NL IN <<NL \o d, << <<o + Len(NL), o + Len(NL) + Len(d), "document">> >> >>
       ELSE <<IF el.k = "O" THEN "" ELSE NL, <<>>>>
  ELSE IF ch[2] = "" THEN <<IF el.k = "O" THEN "" ELSE NL, <<>>>> ELSE <<ch[2] \o NL, << <<o, o + Len(ch[2]) + Len(NL), "inline">> >> >>
RECURSIVE Build(_, _, _, _, _, _, _)
(* elements i.., source so far, slots so far (a sequence of comment lists), number of slots *)
Build(els, i, s, sl, ch, mode, k) ==
  IF i > Len(els) THEN <<s, sl>>
  ELSE IF els[i].k = "T" THEN Build(els, i + 1, s \o els[i].s, sl, ch, mode, k)
  ELSE IF els[i].k = "N" THEN Build(els, i + 1, s \o NL, sl, ch, mode, k)
  ELSE LET on == mode = "all" \/ (mode = "odd" /\ k % 2 = 1) \/ (mode = "even" /\ k % 2 = 0)
           r == SlotT(els[i], IF on THEN ch ELSE <<"i", "">>, Len(s))
       IN Build(els, i + 1, s \o r[1], Append(sl, r[2]), ch, mode, k + 1)
InOrder(sl, od) == Flat(IF od = <<>> THEN sl ELSE [i \in DOMAIN od |-> sl[od[i]]])

Bom == "ï»¿"
Wr(x) == CASE x = "" -> <<"", "">>
           [] x = "bom" -> <<Bom, "">>
           [] x = "def" -> <<"def w" \o NL, "end" \o NL>>
           [] x = "do" -> <<"w do" \o NL, "end" \o NL>>
           [] x = "brace" -> <<"w(1) {" \o NL, "}" \o NL>>
           [] x = "class" -> <<"class W" \o NL, "end" \o NL>>
           [] x = "str" -> <<"\"x#{" \o NL, "}# no\"" \o NL>>
           [] x = "hd" -> <<"<<W" \o NL \o "# no #{" \o NL, "} # no" \o NL \o "W" \o NL>>
           [] x = "arg" -> <<"m(->() {" \o NL, "}, 2)" \o NL>>
           [] x = "if" -> <<"if 1" \o NL, "else" \o NL \o "end" \o NL>>
           [] x = "paren" -> <<"(" \o NL, ")" \o NL>>
Init == w \in Wrappers /\ src = Wr(w)[1] /\ cs = <<>> /\ n = 0
(* constructs that may not stand in a method body *)
Next == /\ n < MaxPieces /\ n' = n + 1 /\ w' = w
        /\ \E p \in Pieces : \E ch \in {<<"i", x>> : x \in Texts} \cup {<<"d", x>> : x \in Docs} : \E md \in Modes :
             /\ (w = "def" => p \notin {"class", "module"}) /\ (w = "def" => p # "sclass")
             /\ (p = "notend" => w \in {"", "bom"})
             /\ LET r == Build(Pc(p), 1, src, <<>>, ch, md, 1) IN src' = r[1] /\ cs' = cs \o InOrder(r[2], Ordr(p))

EndT(e) == CASE e = "nl" -> "" [] e = "eof" -> "" [] e = "end" -> "__END__" \o NL \o "# no" \o NL \o "=begin" \o NL [] e = "endeof" -> "__END__"
             [] e = "nul" -> "Ā# no" \o NL \o "=begin" [] e = "^D" -> "Ą" \o NL \o "# no" [] e = "^Z" -> "a Ě # no" \o NL
(* without its last line terminator *)
Cut(s) == SubSeq(s, 1, Len(s) - Len(NL))
Cases(e) ==
  LET full == src \o Wr(w)[2]
      L == Len(full)
  IN IF e = "eof"
     THEN (n > 0 => Out([s |-> Cut(full), c |-> [i \in DOMAIN cs |-> IF cs[i][2] = L THEN <<cs[i][1], L - Len(NL), cs[i][3]>> ELSE cs[i]], d |-> <<>>]))
     ELSE (e \in {"nl"} \/ w \in {"", "bom"}) => Out([s |-> full \o EndT(e), c |-> cs, d |-> <<>>])
Emit == \A e \in Ends : Cases(e)
(* comments never overlap *)
Disjoint == \A i, j \in DOMAIN cs : i # j => cs[i][2] <= cs[j][1] \/ cs[j][2] <= cs[i][1]
=============================================================================
