-------------------------------- MODULE Magic --------------------------------
(* C08.  Magic comments.  The state is a comment under construction: either a plain one               *)
(*     # key : value                                                                                  *)
(* with nothing else in it, or an Emacs style one                                                     *)
(*     # ... -*- key: value; key: value -*- ...                                                       *)
(* The settings found so far are kept as <<kind, key begin, key end, value begin, value end>>.        *)
EXTENDS Tree
CONSTANTS Forms, Keys, Vals, Blanks, MaxSet, Pres, Posts, Places
VARIABLES form, txt, found, n, ok

(* keys: the spelling and what it means ("" nothing) *)
Enc == {"encoding", "coding", "Encoding", "ENCODING", "Coding", "codinG"}
Frz == {"frozen_string_literal", "frozen-string-literal", "frozen-string_literal", "Frozen_String_Literal", "FROZEN-STRING-LITERAL"}
Wrn == {"warn_indent", "warn-indent", "Warn-Indent"}
Shr == {"shareable_constant_value", "shareable-constant_value", "Shareable-Constant-Value"}
Mean(k) == CASE k \in Enc -> "encoding" [] k \in Frz -> "frozen_string_literal" [] k \in Wrn -> "warn_indent" [] k \in Shr -> "shareable_constant_value" [] OTHER -> ""
(* values: <<text, offset of the value in it, its length>> *)
ValT(v) == CASE v = "q" -> <<"\"UTF-8\"", 1, 5>> [] v = "qe" -> <<"\"utf-8\"", 1, 5>> [] v = "qesc" -> <<"\"a\\\"b c;:\"", 1, 8>> [] v = "q0" -> <<"\"\"", 1, 0>>
             [] OTHER -> <<v, 0, Len(v)>>
ValOk(k, v) == Mean(k) = "encoding" => v \in {"utf-8", "UTF-8", "binary", "ASCII-8BIT", "utf-8-unix", "q", "qe", "Utf-8-DOS"}

(* trailing text that is blank *)
Empty1 == {"", " ", "\t", "\t ", "  ", "\f"}
Init == /\ form \in Forms /\ n = 0 /\ found = <<>> /\ ok = TRUE
        /\ \E p \in Pres : \E b \in Blanks :
             txt = IF form = "emacs" THEN "#" \o p \o "-*-" \o b ELSE "#" \o b
(* leading punctuation in front of a key is skipped *)
Plain == /\ form = "plain" /\ n = 0
         /\ \E k \in Keys : \E v \in Vals : \E b1 \in Blanks : \E b2 \in Blanks : \E q \in {"", ":", ";", "'", "\"", ": "} : \E post \in Posts :
              /\ ValOk(k, v)
              /\ (q # "" => b1 = "" /\ b2 = " ")
              /\ LET h == txt \o q
                     t == h \o k \o b1 \o ":" \o b2
                 IN /\ txt' = t \o ValT(v)[1] \o post
                    /\ found' = IF Mean(k) = "" \/ post \notin Empty1 THEN <<>>
                                ELSE << <<Mean(k), Len(h), Len(h) + Len(k), Len(t) + ValT(v)[2], Len(t) + ValT(v)[2] + ValT(v)[3]>> >>
         /\ n' = 1 /\ UNCHANGED <<form, ok>>
Emacs == /\ form = "emacs" /\ n < MaxSet
         /\ \E k \in Keys : \E v \in Vals : \E b1 \in Blanks : \E b2 \in Blanks : \E sep \in {";", "; ", " ", " ; ", ";;"} : \E junk \in {"", "foo ", "foo; "} :
              /\ ValOk(k, v)
              /\ (junk # "" => sep = ";") /\ (n > 0 => b1 = b2)
              /\ LET h == txt \o junk
                     t == h \o k \o b1 \o ":" \o b2
                 IN /\ txt' = t \o ValT(v)[1] \o sep
                    /\ found' = IF Mean(k) = "" THEN found
                                ELSE Append(found, <<Mean(k), Len(h), Len(h) + Len(k), Len(t) + ValT(v)[2], Len(t) + ValT(v)[2] + ValT(v)[3]>>)
         /\ n' = n + 1 /\ UNCHANGED <<form, ok>>
Next == Plain \/ Emacs
(* where the comment stands: text before it (without / with tokens), text after it *)
Place(p) == CASE p = "top" -> <<"", "\n">> [] p = "eof" -> <<"", "">> [] p = "ind" -> <<"  \t", "\na\n">> [] p = "second" -> <<"# x\n", "\na\n">>
              [] p = "blank" -> <<"\n\n", "\na\n">> [] p = "shebang" -> <<"#!ruby\n", "\na\n">> [] p = "doc" -> <<"=begin\n=end\n", "\na\n">> [] p = "crlf" -> <<"# y\r\n", "\r\na\r\n">>
              [] p = "later" -> <<"a\n", "\nb">> [] p = "def" -> <<"def m\n  ", "\nend\n">> [] p = "args" -> <<"m(\n", "\n1)\n">> [] p = "bom" -> <<"ï»¿", "\n">>
ShiftF(o) == [i \in DOMAIN found |-> <<found[i][1], found[i][2] + o, found[i][3] + o, found[i][4] + o, found[i][5] + o>>]
At1(p, t, f) == Out([s |-> Place(p)[1] \o t \o Place(p)[2], m |-> f, d |-> <<>>])
(* a comment at the top of the file that is not a magic one can still declare an encoding (Encoding.tla says which do) *)
AtTop == {"top", "eof", "ind", "shebang", "bom"}
At2(p, t, f) == IF f = <<>> /\ p \in AtTop THEN Out([s |-> Place(p)[1] \o t \o Place(p)[2], m |-> f]) ELSE At1(p, t, f)
(* not comments, or not magic: the same text elsewhere *)
NoMagic(t) == /\ Out([s |-> "'" \o t \o "'\n", m |-> <<>>]) /\ Out([s |-> "<<'A'\n" \o t \o "\nA\n", m |-> <<>>]) /\ Out([s |-> "=begin\n" \o t \o "\n=end\n", m |-> <<>>])
              /\ Out([s |-> "a\n__END__\n" \o t \o "\n", m |-> <<>>]) /\ Out([s |-> "%w[" \o t \o "]", m |-> <<>>])
Short == {"#", "# ", "#coding", "#coding:", "#coding: ", "# encoding", "# encoding ", "# encoding:", "# encoding: ", "# coding utf-8", "# -*- encoding: utf-8", "# encoding: utf-8 -*-", "# -*- -*-", "# -*-",
          "# -*- encoding -*-", "# -*- : -*-", "# -*- :utf-8 -*-", "# -*- encoding: -*-", "# -*-encoding:-*-", "# encoding=utf-8", "# encoding : ", "# -*- coding -*- utf-8", "# -* encoding: utf-8 -*-", "# - * - coding: utf-8 -*-",
          "# note: encoding: utf-8", "# the encoding: utf-8", "# fileencoding: utf-8", "# _encoding: utf-8", "# en-coding: utf-8", "# encoding_: utf-8", "# frozen: true", "# warn indent: true", "# see: x", "#: x", "# \\coding: utf-8"}
Emit == /\ (form = "plain" /\ n = 1) => /\ \A p \in Places : At2(p, txt, ShiftF(Len(Place(p)[1])))
                                        /\ (~("'" = SubSeq(txt, 2, 2)) => TRUE)
        /\ (form = "emacs" /\ n > 0) => \A p \in Places : \A post \in Posts : At1(p, txt \o "-*-" \o post, ShiftF(Len(Place(p)[1])))
        /\ (form = "emacs" /\ n > 0) => At2("top", txt, <<>>)            \* never closed
        /\ (n = 0 /\ form = "plain") => \A t \in Short : \A p \in Places : At2(p, t, <<>>)
        /\ (n = 0 /\ form = "plain") => \A t \in {"# encoding: binary", "# -*- warn_indent: true -*-"} : NoMagic(t)
(* settings are disjoint and in order *)
Ordered == \A i \in DOMAIN found : found[i][2] < found[i][3] /\ found[i][3] < found[i][4] /\ found[i][4] <= found[i][5] /\ (i > 1 => found[i - 1][5] <= found[i][2])
=============================================================================
