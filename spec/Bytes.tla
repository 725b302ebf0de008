-------------------------------- MODULE Bytes --------------------------------
(* Characters as byte values, and the rendering of byte strings in observed trees. *)
EXTENDS Tree

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
PrintSet == {SubSeq(Printable, i, i) : i \in 1..95}
OrdP == [ch \in PrintSet |-> 31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = ch)]
Ord(ch) == CASE ch \in PrintSet -> OrdP[ch]
             [] ch = "\n" -> 10 [] ch = "\t" -> 9 [] ch = "\r" -> 13 [] ch = "\f" -> 12
(* a character outside ASCII is written as its UTF-8 bytes; this one is e-acute *)
EAcute == "Ã©"
Chr(n) == SubSeq(Printable, n - 31, n - 31)

HexDigits == "0123456789abcdef"
Hx(n) == SubSeq(HexDigits, n + 1, n + 1)
UpHex == "0123456789ABCDEF"
HexVal == [ch \in {SubSeq(HexDigits, i, i) : i \in 1..16} \cup {SubSeq(UpHex, i, i) : i \in 1..16} |->
             (CHOOSE i \in 1..16 : SubSeq(HexDigits, i, i) = ch \/ SubSeq(UpHex, i, i) = ch) - 1]
HX(n) == SubSeq(UpHex, n + 1, n + 1)

(* how one byte appears in a rendered tree *)
ByteR(n) == IF n \in 32..126 /\ n \notin {39, 92} THEN Chr(n) ELSE "\\x" \o Hx(n \div 16) \o Hx(n % 16)
ByteT == [n \in 0..255 |-> ByteR(n)]
BytesR(v) == [i \in DOMAIN v |-> ByteT[v[i]]]
RECURSIVE StrBytes(_)
StrBytes(s) == IF s = "" THEN <<>> ELSE <<Ord(SubSeq(s, 1, 1))>> \o StrBytes(SubSeq(s, 2, Len(s)))
(* source text as it appears inside a rendered tree *)
Esc(s) == BytesR(StrBytes(s))
RECURSIVE ValidUtf8(_)
Cont(v, i) == i <= Len(v) /\ v[i] \in 128..191
Drop(v, k) == SubSeq(v, k + 1, Len(v))
ValidUtf8(v) ==
  CASE v = <<>> -> TRUE
    [] v[1] < 128 -> ValidUtf8(Tail(v))
    [] v[1] \in 194..223 -> Cont(v, 2) /\ ValidUtf8(Drop(v, 2))
    [] v[1] \in 224..239 -> Cont(v, 2) /\ Cont(v, 3) /\ (v[1] = 224 => v[2] >= 160) /\ (v[1] = 237 => v[2] < 160) /\ ValidUtf8(Drop(v, 3))
    [] v[1] \in 240..244 -> Cont(v, 2) /\ Cont(v, 3) /\ Cont(v, 4) /\ (v[1] = 240 => v[2] >= 144) /\ (v[1] = 244 => v[2] < 144) /\ ValidUtf8(Drop(v, 4))
    [] OTHER -> FALSE
(* UTF-8 *)
Utf8(n) == CASE n < 128 -> <<n>>
             [] n < 2048 -> <<192 + (n \div 64), 128 + (n % 64)>>
             [] n < 65536 -> <<224 + (n \div 4096), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
             [] OTHER -> <<240 + (n \div 262144), 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
=============================================================================
