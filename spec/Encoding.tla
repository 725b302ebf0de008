------------------------------ MODULE Encoding ------------------------------
(* C09.  The source encoding.  The state machine reads the head of a file line by line.  It is        *)
(* `top' while an encoding declaration would still count: on the first line, or on the second when    *)
(* the first is a shebang.  The first declaration found there settles the encoding: the built-in      *)
(* encodings leave the bytes alone, any other name calls the decoder, once, with all raw bytes.       *)
(* Text contains a byte h above 127; Hi says what each decoder makes of it, so that raw and decoded   *)
(* text are built side by side and everything reported must refer to the decoded one.                 *)
EXTENDS Tree
CONSTANTS Lines, DeclForms, Names, Bodies, Decs, MaxLines, Eols, Boms
VARIABLES dec, eol, raw, txt, line, sheb, calls, fail, settled, cm, mg, st, diag, eof

vars == <<dec, eol, raw, txt, line, sheb, calls, fail, settled, cm, mg, st, diag, eof>>

RawHi == "é"
Hi(d) == CASE d = "latin1" -> "Ã©" [] d = "drop" -> "" [] d = "id" -> RawHi [] OTHER -> RawHi
BuiltIn == {"utf-8", "UTF-8", "Utf-8", "ascii-8bit", "ASCII-8BIT", "Binary", "BINARY", "utf-8-unix", "UTF-8-Mac", "utf-8-dos"}
(* the name the decoder is given: without the end-of-line suffix *)
Plain(n) == CASE n = "koi8-r-unix" -> "koi8-r" [] n = "KOI8-R-dos" -> "KOI8-R" [] n = "x-mac" -> "x" [] OTHER -> n

(* header lines that declare nothing *)
LineT(l, h) == CASE l = "note" -> "# " \o h [] l = "sheb" -> "#!ruby" [] l = "shebh" -> "#!/" \o h [] l = "empty" -> "" [] l = "blank" -> " \t" [] l = "sheb2" -> " #!ruby"
                 [] l = "doc" -> "=begin\n" \o h \o "\n=end" [] l = "code" -> "q" [] l = "almost" -> "# coding koi8-r" \o h [] l = "str" -> "'# coding: x'"
(* declarations: text before the name and after it, and the offset of the key in it and its length *)
DeclT(f, h) == CASE f = "p" -> <<"# coding: ", "", 2, 6>> [] f = "e" -> <<"#Encoding:", " ", 1, 8>> [] f = "i" -> <<"\t # coding : ", "", 4, 6>>
                 [] f = "em" -> <<"# -*- coding: ", " -*-", 6, 6>> [] f = "emh" -> <<"# " \o h \o " -*- coding:", "-*- " \o h, 7 + Len(h), 6>>
                 [] f = "q" -> <<"# coding: \"", "\"", 2, 6>> [] f = "qe" -> <<"# -*- encoding:\"", "\"; -*-", 6, 8>>
                 [] f = "c" -> <<"q # coding: ", "", 4, 6>>
                 (* not a magic comment, but a declaration: `coding' and a separator somewhere in the comment *)
                 [] f = "vim" -> <<"# vim: set fileencoding=", " :", 0, 0>> [] f = "free" -> <<"# the CODING: ", " is old", 0, 0>> [] f = "freeb" -> <<"# " \o h \o "y Coding : ", "", 0, 0>>
                 [] f = "trail" -> <<"#encoding: ", " (old)", 0, 0>> [] f = "eq" -> <<"#coding=", " !", 0, 0>> [] f = "eqb" -> <<"# transcoding = ", ", x", 0, 0>>
Free == {"vim", "free", "freeb", "trail", "eq", "eqb"}
Cm(f) == IF f = "c" THEN 2 ELSE IF f = "i" THEN 2 ELSE 0

Init == /\ dec \in Decs /\ eol \in Eols /\ eof \in {TRUE, FALSE}
        /\ (\E m \in Boms : raw = m /\ txt = m) /\ line = 1 /\ sheb = FALSE /\ calls = <<>> /\ fail = FALSE /\ settled = FALSE
        /\ cm = <<>> /\ mg = <<>> /\ st = <<>> /\ diag = <<>>

StrF(b, s, e, v) == Nd("Str", <<K("begin_l", b), T(s), K("end_l", e)>>, <<S(v)>>)
Q == NdR("Send", <<K("selector_l", "q")>>, <<Nil, S("q"), Empty>>, 1, 1)
AtF(f, o) == [n |-> At(f.n, o), o |-> o, e |-> o + Len(f.s)]

(* a comment is reported from its `#' through the end of its line *)
Read(l) == /\ ~fail /\ line <= MaxLines
           /\ raw' = raw \o LineT(l, RawHi) \o eol
           /\ txt' = txt \o LineT(l, Hi(dec)) \o eol
           /\ line' = line + (IF l = "doc" THEN 3 ELSE 1)
           /\ sheb' = (sheb \/ (line = 1 /\ l \in {"sheb", "shebh"}))
           /\ cm' = CASE l \in {"note", "sheb", "shebh", "almost"} -> Append(cm, <<Len(txt), Len(txt'), "inline">>)
                      [] l = "sheb2" -> Append(cm, <<Len(txt) + 1, Len(txt'), "inline">>)
                      [] l = "doc" -> Append(cm, <<Len(txt), Len(txt'), "document">>) [] OTHER -> cm
           /\ st' = CASE l = "code" -> Append(st, AtF(Q, Len(txt)))
                      [] l = "str" -> Append(st, AtF(StrF("'", "# coding: x", "'", "# coding: x"), Len(txt))) [] OTHER -> st
           /\ UNCHANGED <<dec, eol, calls, fail, settled, mg, diag, eof>>
Top(f) == f # "c" /\ line = (IF sheb THEN 2 ELSE 1)
(* every text before the point of decision is decoded too: positions are those of the decoded text *)
Decl(f, n) ==
  /\ ~fail /\ line <= MaxLines
  /\ LET dr == DeclT(f, RawHi)  dd == DeclT(f, Hi(dec))
         counts == Top(f) /\ ~settled
         err == counts /\ n \notin BuiltIn /\ dec \in {"none", "err", "unsup"}
     IN /\ raw' = raw \o dr[1] \o n \o dr[2] \o eol
        /\ txt' = txt \o dd[1] \o n \o dd[2] \o eol
        /\ line' = line + 1
        /\ settled' = (settled \/ counts)
        /\ calls' = IF counts /\ n \notin BuiltIn /\ dec # "none" THEN Append(calls, Plain(n)) ELSE calls
        /\ fail' = err
        /\ diag' = IF err THEN <<"error EncodingError@" \o ToString(Len(raw \o dr[1])) \o "-" \o ToString(Len(raw \o dr[1] \o n))>> ELSE diag
        /\ cm' = IF err THEN cm ELSE Append(cm, <<Len(txt) + Cm(f), Len(txt'), "inline">>)
        /\ mg' = IF f \in Free THEN mg ELSE IF f = "c" THEN Append(mg, <<"open", 0, 0, 0, 0>>)
                 ELSE Append(mg, <<"encoding", Len(txt) + dd[3], Len(txt) + dd[3] + dd[4], Len(txt \o dd[1]), Len(txt \o dd[1] \o n)>>)
        /\ st' = IF f = "c" THEN Append(st, AtF(Q, Len(txt))) ELSE st
  /\ UNCHANGED <<dec, eol, sheb, eof>>
Next == (\E l \in Lines : Read(l)) \/ (\E f \in DeclForms, n \in Names : Decl(f, n))

(* bodies: text and statements *)
Use(h) == NdR("Lvar", <<T("x" \o h)>>, <<S("x" \o h)>>, 1, 1)
IntF(s) == Nd("Int", <<T(s)>>, <<S(s)>>)
Asg(h) == Nd("Lvasgn", <<K("name_l", "x" \o h), T(" "), K("operator_l", "="), T(" "), IntF("1")>>, <<S("x" \o h), P(5)>>)
Hd(h) == LET b == "<<A" \o eol
             body == "z" \o h \o eol
             f == Nd("Heredoc", <<T("<<A")>>, <<<<"l", <<At(Nd("Str", <<T(body)>>, <<S("z" \o h \o "\\x0a")>>).n, Len(b))>>>>>>)
         IN AddLoc(AddLoc(f, "heredoc_body_l", Len(b), Len(b) + Len(body)), "heredoc_end_l", Len(b) + Len(body), Len(b) + Len(body) + 1)
BodyT(b, h) == CASE b = "none" -> "" [] b = "str" -> "\"z" \o h \o "\"" [] b = "id" -> "x" \o h \o " = 1" \o eol \o "x" \o h [] b = "sym" -> ":\"y" \o h \o "\""
                 [] b = "hd" -> "<<A" \o eol \o "z" \o h \o eol \o "A" [] b = "cmt" -> "q # " \o h [] b = "two" -> "\"z" \o h \o "\";q"
BodyS(b, h) == CASE b = "none" -> <<>> [] b = "str" -> << <<0, StrF("\"", "z" \o h, "\"", "z" \o h)>> >>
                 [] b = "id" -> << <<0, Asg(h)>>, <<Len("x" \o h \o " = 1" \o eol), Use(h)>> >>
                 [] b = "sym" -> << <<0, Nd("Sym", <<K("begin_l", ":\""), T("y" \o h), K("end_l", "\"")>>, <<S("y" \o h)>>)>> >>
                 [] b = "hd" -> << <<0, Hd(h)>> >> [] b = "cmt" -> << <<0, Q>> >>
                 [] b = "two" -> << <<0, StrF("\"", "z" \o h, "\"", "z" \o h)>>, <<Len("\"z" \o h \o "\";"), Q>> >>
(* in an encoding that is not decoded the byte is only valid inside strings *)
BodyOk(b) == b \in {"id", "sym"} => dec \in {"latin1", "drop"} /\ calls # <<>>
HAll == IF calls = <<>> THEN RawHi ELSE Hi(dec)
Shown == settled \/ dec \in {"none", "latin1"}
(* without a call the text is the raw one: only then do the two coincide *)
Same == calls # <<>> \/ Hi(dec) = RawHi \/ raw = txt
EndT(b) == IF eof \/ b = "hd" THEN "" ELSE eol
RECURSIVE StmtsAt(_, _)
StmtsAt(ss, o) == [i \in DOMAIN ss |-> AtF(ss[i][2], o + ss[i][1])]
Tree(ss) == IF ss = <<>> THEN <<"-", <<>>>> ELSE IF Len(ss) = 1 THEN <<X(ss[1].n), Locs(ss[1].n)>>
            ELSE LET n == [ty |-> "Begin", o |-> 0, v |-> <<<<"l", [i \in DOMAIN ss |-> ss[i].n]>>>>, L |-> <<<<"expression_l", ss[1].o, ss[Len(ss)].e>>>>] IN <<X(n), Locs(n)>>
Good(b) == LET h == HAll
               r == raw \o BodyT(b, RawHi) \o EndT(b)
               t == txt \o BodyT(b, h) \o EndT(b)
               tr == Tree(st \o StmtsAt(BodyS(b, h), Len(txt)))
               c == IF b = "cmt" THEN Append(cm, <<Len(txt) + 2, Len(t), "inline">>) ELSE cm
               base == [s |-> r, o |-> "dec=" \o dec, x |-> tr[1], L |-> tr[2], d |-> <<>>, bt |-> t, dn |-> calls, c |-> c]
           IN IF \E i \in DOMAIN mg : mg[i][1] = "open" THEN Out(base) ELSE Out([m |-> mg] @@ base)
Bad(b) == Out([s |-> raw \o BodyT(b, RawHi) \o EndT(b), o |-> "dec=" \o dec, x |-> "-", D |-> diag, bt |-> raw \o BodyT(b, RawHi) \o EndT(b), dn |-> calls])
(* the same without its last line terminator *)
Cut(x) == SubSeq(x, 1, Len(x) - Len(eol))
CutEnd == LET nc == Len(cm)
              tr == Tree(st)
              base == [s |-> Cut(raw), o |-> "dec=" \o dec, x |-> tr[1], L |-> tr[2], d |-> <<>>, bt |-> Cut(txt), dn |-> calls, c |-> [cm EXCEPT ![nc] = <<@[1], @[2] - Len(eol), @[3]>>]]
          IN Out(base)
Emit == /\ eof => IF fail THEN Out([s |-> Cut(raw), o |-> "dec=" \o dec, x |-> "-", D |-> diag, bt |-> Cut(raw), dn |-> calls])
                            ELSE (cm # <<>> /\ cm[Len(cm)][2] = Len(txt) /\ cm[Len(cm)][3] = "inline" /\ Same) => CutEnd
        /\ \A b \in Bodies : IF fail THEN Bad(b) ELSE (BodyOk(b) /\ Same) => Good(b)
(* the decoder is called at most once, and only for the line that settles the encoding *)
Once == Len(calls) <= 1 /\ (calls # <<>> => settled)
FailsOnly == fail => settled /\ Len(calls) <= 1
=============================================================================
