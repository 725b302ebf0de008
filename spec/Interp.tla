------------------------------- MODULE Interp -------------------------------
(* C28.  Interpolation.  A program is grown from the inside out: what has been built so far becomes   *)
(* the interpolated code of another literal, between pieces of text that look like delimiters, braces *)
(* and interpolations, possibly inside further code (blocks, hashes, statements, comments).  The      *)
(* variables #@x, #@@x, #$x stand for themselves; every other use of # is text.                       *)
EXTENDS Ruby
CONSTANTS Kinds, Codes, Pres, Posts, MaxDepth, Raws
VARIABLES f, d

(* ---- pieces of text: <<source, value>> ---- *)
Piece(p) ==
  CASE p = "" -> <<"", "">>
    [] p = "x" -> <<"x", "x">>
    [] p = "}" -> <<"}", "}">>
    [] p = "{" -> <<"{", "{">>
    [] p = "{}" -> <<"{}", "{}">>
    [] p = "()" -> <<"(y)", "(y)">>
    [] p = "#" -> <<"#", "#">>
    [] p = "#x" -> <<"#x", "#x">>
    [] p = "##" -> <<"##", "##">>
    [] p = "#}" -> <<"#}", "#}">>
    [] p = "#@1" -> <<"#@1", "#@1">>
    [] p = "#@@1" -> <<"#@@1", "#@@1">>
    [] p = "#@" -> <<"#@-", "#@-">>
    [] p = "#$" -> <<"#$%", "#$%">>
    [] p = "#$-" -> <<"#$-%", "#$-%">>
    [] p = "$#" -> <<"$#", "$#">>
    [] p = "@x" -> <<"@x", "@x">>
    [] p = "{#" -> <<"{#", "{#">>
    [] p = "esc{" -> <<"\\#{", "#{">>
    [] p = "esc@" -> <<"\\#@x", "#@x">>
    [] p = "esc$" -> <<"\\#$x", "#$x">>
    [] p = "q'" -> <<"y'", "y\\x27">>
    [] p = "utf" -> <<"Ã©", "Ã©">>
    [] OTHER -> <<p, p>>
(* variables: <<source without #, kind, value>> *)
Vars == {<<"@x", "Ivar", "@x">>, <<"@_1", "Ivar", "@_1">>, <<"@X", "Ivar", "@X">>, <<"@@x", "Cvar", "@@x">>, <<"$x", "Gvar", "$x">>, <<"$_", "Gvar", "$_">>, <<"$X9", "Gvar", "$X9">>,
         <<"$0", "Gvar", "$0">>, <<"$!", "Gvar", "$!">>, <<"$,", "Gvar", "$,">>, <<"$~", "Gvar", "$~">>, <<"$*", "Gvar", "$*">>, <<"$$", "Gvar", "$$">>, <<"$?", "Gvar", "$?">>,
         <<"$-w", "Gvar", "$-w">>, <<"$1", "NthRef", "1">>, <<"$10", "NthRef", "10">>, <<"$&", "BackRef", "$&">>, <<"$+", "BackRef", "$+">>, <<"@Ã©", "Ivar", "@Ã©">>}
TextN(p) == C(1, "Str", <<T(Piece(p)[1])>>, <<S(Piece(p)[2])>>)
NoText(p) == Piece(p)[1] = ""
Embed(g) == C(1, "Begin", <<K("begin_l", "#{"), g, K("end_l", "}")>>, <<PL(<<2>>)>>)

(* ---- interpolated code around what has been built ---- *)
Code(k, g) ==     \* a fragment of kind Begin holding the statements
  CASE k = "f" -> Embed(g)
    [] k = " f " -> C(1, "Begin", <<K("begin_l", "#{"), Sp, g, Sp, K("end_l", "}")>>, <<PL(<<3>>)>>)
    [] k = "nl" -> C(1, "Begin", <<K("begin_l", "#{"), T("\n"), g, T("\n"), K("end_l", "}")>>, <<PL(<<3>>)>>)
    [] k = "cmt" -> C(1, "Begin", <<K("begin_l", "#{"), g, T(" # }\"\n"), K("end_l", "}")>>, <<PL(<<2>>)>>)
    [] k = "f;1" -> C(1, "Begin", <<K("begin_l", "#{"), g, T("; "), b, K("end_l", "}")>>, <<PL(<<2, 4>>)>>)
    [] k = "1;f" -> C(1, "Begin", <<K("begin_l", "#{"), b, T("\n"), g, K("end_l", "}")>>, <<PL(<<2, 4>>)>>)
    [] k = "[f]" -> Embed(C(1, "Array", <<K("begin_l", "["), g, K("end_l", "]")>>, <<PL(<<2>>)>>))
    [] k = "{k}" -> Embed(C(1, "Hash", <<K("begin_l", "{"), Pair(SymN("k"), g), K("end_l", "}")>>, <<PL(<<2>>)>>))
    [] k = "{}[f]" -> Embed(C(1, "Index", <<C(1, "Hash", <<K("begin_l", "{"), K("end_l", "}")>>, <<Empty>>), K("begin_l", "["), g, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>))
    [] k = "blk" -> Embed(C(1, "Block", <<Id("m"), Sp, K("begin_l", "{"), Sp, g, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>))
    [] k = "lam" -> Embed(C(1, "Block", <<LambdaN, Sp, K("begin_l", "{"), Sp, g, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>))
    [] k = "m(f)" -> Embed(Call1("m", g))
    [] k = "cmd" -> Embed(Cmd1("m", g))
    [] k = "do" -> Embed(C(1, "Block", <<Id("m"), Sp, K("begin_l", "do"), Sp, g, Sp, K("end_l", "end")>>, <<P(1), Nil, P(5)>>))
    [] k = "if" -> Embed(C(1, "If", <<K("keyword_l", "if"), Sp, a, Sp, K("begin_l", "then"), Sp, g, Sp, K("end_l", "end")>>, <<P(3), P(7), Nil>>))
    [] k = "def" -> Embed(C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "d"), T("; "), g, T("; "), K("end_l", "end")>>, <<S("d"), Nil, P(5)>>))
    [] k = "str" -> C(1, "Begin", <<K("begin_l", "#{"), StrN("'", "}{\"", "'"), T("; "), g, K("end_l", "}")>>, <<PL(<<2, 4>>)>>)
    [] k = "sym" -> C(1, "Begin", <<K("begin_l", "#{"), g, T("; "), C(1, "Sym", <<K("begin_l", ":\""), T("}"), K("end_l", "\"")>>, <<S("}")>>), K("end_l", "}")>>, <<PL(<<2, 4>>)>>)
    [] k = "asgn" -> Embed(C(2, "Lvasgn", <<K("name_l", "v"), Sp, K("operator_l", "="), Sp, g>>, <<S("v"), P(5)>>))
    [] k = "(f)" -> Embed(C(1, "Begin", <<K("begin_l", "("), g, K("end_l", ")")>>, <<PL(<<2>>)>>))
    [] k = "char" -> C(1, "Begin", <<K("begin_l", "#{"), C(1, "Str", <<K("begin_l", "?"), T("}")>>, <<S("}")>>), T("; "), g, K("end_l", "}")>>, <<PL(<<2, 4>>)>>)

(* ---- literals: delimiters, kind, text that may not stand in them ---- *)
Open(k) == CASE k = "dq" -> "\"" [] k = "%(" -> "%(" [] k = "%Q[" -> "%Q[" [] k = "%{" -> "%{" [] k = "%Q|" -> "%Q|" [] k = "`" -> "`" [] k = "%x(" -> "%x("
             [] k = "/" -> "/" [] k = "%r{" -> "%r{" [] k = ":\"" -> ":\"" [] k = "%W[" -> "%W[" [] k = "%W{" -> "%W{" [] k = "%I(" -> "%I("
             [] k = "<<A" -> "<<A" [] k = "<<~A" -> "<<~A" [] k = "<<-A" -> "<<-A" [] k = "<<`A`" -> "<<`A`" [] k = "label" -> "\"" [] k = "cat" -> "\""
Close(k) == CASE k \in {"dq", ":\"", "label", "cat"} -> "\"" [] k \in {"%(", "%x(", "%I("} -> ")" [] k \in {"%Q[", "%W["} -> "]" [] k \in {"%{", "%r{", "%W{"} -> "}"
              [] k = "%Q|" -> "|" [] k = "`" -> "`" [] k = "/" -> "/"
Hd(k) == k \in {"<<A", "<<-A", "<<`A`", "<<~A"}
(* the text a line of a squiggly heredoc begins with, in front of which its indentation stands *)
Indented(g) == IF g.n.ty = "Str" THEN [g EXCEPT !.s = "  " \o @, !.n.L = << <<"expression_l", 0, Len(g.s) + 2>> >>] ELSE g
Ty(k) == CASE k \in {"dq", "%(", "%Q[", "%{", "%Q|", "cat"} -> "Dstr" [] k \in {"`", "%x("} -> "Xstr" [] k \in {"/", "%r{"} -> "Regexp" [] k \in {":\"", "label"} -> "Dsym" [] OTHER -> "Heredoc"
Bracy(k) == k \in {"%{", "%r{", "%W{"}
(* braces count inside brace delimited literals; escapes stay escapes in regexps *)
PieceOk(k, p) == /\ (Bracy(k) => p \notin {"}", "{", "#}", "{#", "esc{"})
                 /\ (k \in {"/", "%r{"} => p \notin {"esc{", "esc@", "esc$", "()"})
                 /\ (k \in {"%(", "%x(", "%I("} => TRUE)
(* the items of a literal, in order *)
Items(pre, mid, post) == (IF NoText(pre) THEN <<>> ELSE <<TextN(pre)>>) \o mid \o (IF NoText(post) THEN <<>> ELSE <<TextN(post)>>)
Ix(n, o) == [i \in 1..n |-> i + o]
LitN(k, its) ==
  LET m == Len(its) IN
  CASE Ty(k) \in {"Dstr", "Xstr", "Dsym"} /\ k \notin {"label", "cat"} -> C(1, Ty(k), <<K("begin_l", Open(k))>> \o its \o <<K("end_l", Close(k))>>, <<PL(Ix(m, 1))>>)
    [] Ty(k) = "Regexp" -> C(1, "Regexp", <<K("begin_l", Open(k))>> \o its \o <<K("end_l", Close(k))>>, <<PL(Ix(m, 1)), Nil>>)
    [] k = "label" -> C(1, "Hash", <<K("begin_l", "{"), C(2, "Pair", <<C(1, "Dsym", <<K("begin_l", "\"")>> \o its \o <<K("end_l", "\"")>>, <<PL(Ix(m, 1))>>), K("operator_l", ":"), Sp, b>>, <<P(1), P(4)>>), K("end_l", "}")>>, <<PL(<<2>>)>>)
    [] k = "cat" -> C(1, "Dstr", <<StrN("'", "#{x}", "'"), Sp, C(1, "Dstr", <<K("begin_l", "\"")>> \o its \o <<K("end_l", "\"")>>, <<PL(Ix(m, 1))>>)>>, <<PL(<<1, 3>>)>>)
    [] k \in {"%W[", "%W{"} -> C(1, "Array", <<K("begin_l", Open(k)), C(1, "Dstr", its, <<PL(Ix(m, 0))>>), Sp, BareStr("w"), K("end_l", Close(k))>>, <<PL(<<2, 4>>)>>)
    [] k = "%I(" -> C(1, "Array", <<K("begin_l", Open(k)), BareSym("w"), Sp, C(1, "Dsym", its, <<PL(Ix(m, 0))>>), K("end_l", Close(k))>>, <<PL(<<2, 4>>)>>)
    [] Hd(k) ->
         LET sq == k = "<<~A"
             gap == sq /\ its[1].n.ty # "Str"
             its1 == IF sq THEN <<Indented(its[1])>> \o Tail(its) ELSE its
             last == IF sq THEN <<C(1, "Str", <<T("\n")>>, <<S("\\x0a")>>), C(1, "Str", <<T("   z\n")>>, <<S(" z\\x0a")>>)>> ELSE <<C(1, "Str", <<T("\n")>>, <<S("\\x0a")>>)>>
             ps == <<K("expression_l", Open(k)), T("\n"), T(IF gap THEN "  " ELSE "")>> \o its1 \o last \o <<K("heredoc_end_l", "A"), T("\n")>>
             g == NdR(IF k = "<<`A`" THEN "XHeredoc" ELSE "Heredoc", ps, <<PL(Ix(m + Len(last), 3))>>, 3, m + Len(last) + 3)
         IN [s |-> g.s, n |-> [g.n EXCEPT !.L = [i \in DOMAIN g.n.L |-> IF i = Len(g.n.L) THEN <<"heredoc_body_l", g.n.L[i][2], g.n.L[i][3]>> ELSE g.n.L[i]]], lv |-> 1, g |-> {"hd"}, h |-> {}]
HasHd == "hd" \in f.g
(* after a heredoc's last line nothing of the same line can follow *)
CodeOk(k) == /\ (k = "cmd" => SafeFirst(f))
             /\ HasHd => k \in {"f", "nl", "1;f", "[f]", "blk", "lam", "m(f)", "(f)", "str", "char", "{}[f]"}
Starts == {Id("a"), b, C(1, "Hash", <<K("begin_l", "{"), K("end_l", "}")>>, <<Empty>>), StrN("'", "}", "'"), StrN("%q{", "{}", "}"), C(1, "Str", <<K("begin_l", "?"), T("}")>>, <<S("}")>>), StrN("\"", "\\x22", "\"")}
S0 == {x \in Starts : x.s # "\"\\x22\""}
(* a variable: the node covers the name, the # in front of it belongs to the literal *)
VarP(v) == CR(1, v[2], <<T("#"), T(v[1])>>, <<S(v[3])>>, 2, 2)
Init == d = 0 /\ f \in S0
Next == /\ d < MaxDepth /\ d' = d + 1
        /\ \E k \in Kinds : \E c1 \in Codes : \E p \in Pres : \E q \in Posts :
             /\ CodeOk(c1) /\ PieceOk(k, p) /\ PieceOk(k, q)
             (* whether the indentation in front of a piece that begins with # counts to it is left open *)
             /\ (k = "<<~A" /\ p # "" => SubSeq(p, 1, 1) # "#")
             /\ \E e \in {Code(c1, f)} : f' = LitN(k, Items(p, <<e>>, q))
(* ---- further statements, about the state reached ---- *)
EmptyN(t) == C(1, "Begin", <<K("begin_l", "#{"), T(t), K("end_l", "}")>>, <<Empty>>)
Several(k) == /\ CaseXLm(LitN(k, <<Embed(f), Embed(b)>>))
              /\ CaseXLm(LitN(k, <<TextN("x"), Embed(f), TextN("{}"), Embed(f), TextN("#")>>))
              /\ CaseXLm(LitN(k, <<EmptyN(""), Embed(f), EmptyN(" ")>>))
              /\ CaseXLm(LitN(k, <<TextN("x"), EmptyN("\n")>>))
              /\ CaseXLm(LitN(k, <<Embed(f), VarP(<<"@x", "Ivar", "@x">>), Embed(f)>>))
VarCases(k) == \A v \in Vars : \A pre \in {"", "x", "#", "{}"} : \A post \in {"", "-", "{}", "#", "#x"} :
                 /\ CaseXLm(LitN(k, Items(pre, <<VarP(v)>>, post)))
                 /\ (post = "" => CaseXLm(LitN(k, Items(pre, <<VarP(v), Embed(b), VarP(v), VarP(<<"@y", "Ivar", "@y">>)>>, post))))
(* literals that do not interpolate keep the text *)
RawTexts == {"#{a}", "#@x", "#@@x", "#$x", "x#{", "#{a", "#", "#$1", "#{{}}", "#@x#{b}#$y", "#{\"x\"}", "#$&", "#{#{a}}", "#@1"}
BracesOk(t) == t \notin {"x#{", "#{a"}
RawN(k, t) ==
  CASE k = "sq" -> StrN("'", t, "'")
    [] k = "%q(" -> StrN("%q(", t, ")")
    [] k = "%q{" -> StrN("%q{", t, "}")
    [] k = "%q!" -> StrN("%q!", t, "!")
    [] k = "%w[" -> C(1, "Array", <<K("begin_l", "%w["), BareStr(t), Sp, BareStr("w"), K("end_l", "]")>>, <<PL(<<2, 4>>)>>)
    [] k = "%i(" -> C(1, "Array", <<K("begin_l", "%i("), BareSym("w"), Sp, BareSym(t), K("end_l", ")")>>, <<PL(<<2, 4>>)>>)
    [] k = "%s(" -> C(1, "Sym", <<K("begin_l", "%s("), T(t), K("end_l", ")")>>, <<S(t)>>)
    [] k = ":'" -> C(1, "Sym", <<K("begin_l", ":'"), T(t), K("end_l", "'")>>, <<S(t)>>)
    [] k = "label'" -> C(1, "Hash", <<K("begin_l", "{"), C(2, "Pair", <<C(1, "Sym", <<K("begin_l", "'"), T(t), K("end_l", "'")>>, <<S(t)>>), K("operator_l", ":"), Sp, b>>, <<P(1), P(4)>>), K("end_l", "}")>>, <<PL(<<2>>)>>)
    [] k = "<<'A'" -> LET g == NdR("Heredoc", <<K("expression_l", "<<'A'"), T("\n"), C(1, "Str", <<T(t \o "\n")>>, <<S(t \o "\\x0a")>>), K("heredoc_end_l", "A"), T("\n")>>, <<PL(<<3>>)>>, 3, 3)
                      IN [s |-> g.s, n |-> [g.n EXCEPT !.L = [i \in DOMAIN g.n.L |-> IF i = Len(g.n.L) THEN <<"heredoc_body_l", g.n.L[i][2], g.n.L[i][3]>> ELSE g.n.L[i]]], lv |-> 1, g |-> {"hd"}, h |-> {}]
RawCases == \A k \in Raws : \A t \in RawTexts : (k = "%q{" => BracesOk(t)) =>
              /\ CaseXLm(RawN(k, t))
              /\ CaseXLm(LitN("dq", Items("x", <<Embed(RawN(k, t))>>, "}")))
              /\ CaseXLm(LitN("%{", Items("{}", <<Embed(RawN(k, t))>>, "y")))
              /\ (k # "%i(" => CaseXLm(LitN("<<A", Items("", <<Embed(RawN(k, t))>>, "#"))))
(* interpolated code that is not closed *)
Opened == {"\"#{a", "\"#{", "\"#{a\"", "\"x#{m { a }\"", "%(#{a)", "%(#{(a})", "\"#{[a}]\"", "`#{a`", "/#{a/", ":\"#{a\"", "%W[#{a]", "%I[a#{b]", "<<A\n#{a\nA\n", "\"#{\"#{a}\"", "\"#{'}'\"", "\"#{a # }\"",
           "\"#{a}", "\"#@x", "\"#{{}\"", "{\"#{a\": 1}", "\"#{<<A}\n}\"\nA\n#{", "\"#{def a}\"", "\"#{if a}\"", "\"#{\"}", "\"#{%w[}]\"", "%r{#{a}"}
Emit == /\ CaseXLm(f)
        /\ (~HasHd => \A k \in Kinds : (d > 0 /\ f.s # "a") \/ Several(k))
        /\ (f.s = "a" => (\A k \in Kinds : VarCases(k)) /\ RawCases /\ \A t \in Opened : Out([s |-> t, ok |-> FALSE]))
=============================================================================
