-------------------------------- MODULE Tree --------------------------------
(* The observable result of a parse, as the specification states it: source text together with the   *)
(* tree Ruby's grammar assigns to it and the exact source range of every node and node part.          *)
(*                                                                                                    *)
(* A fragment is [s |-> text, n |-> node].  A node is                                                 *)
(*   [ty |-> kind, o |-> offset of its frame inside the parent's frame,                               *)
(*    v |-> sequence of fields, L |-> sequence of <<location field, begin, end>> (frame relative)]    *)
(* and a field is <<"n", node>>, <<"-">> (absent), <<"s", string>>, <<"l", sequence of nodes>> or     *)
(* <<"d", digits>>.  Frames make embedding a fragment in a larger text a constant-time operation.     *)
EXTENDS Integers, Sequences, TLC, Json

RECURSIVE JoinFrom(_, _, _)
JoinFrom(xs, sep, i) ==
  IF i > Len(xs) THEN "" ELSE IF i = Len(xs) THEN xs[i] ELSE xs[i] \o sep \o JoinFrom(xs, sep, i + 1)
Join(xs, sep) == JoinFrom(xs, sep, 1)

(* ---- rendering: nested sequences of text, which the binding concatenates ---- *)
RECURSIVE X(_)
Sep(xs) == [i \in 1..(2 * Len(xs)) |-> IF i % 2 = 0 THEN xs[i \div 2] ELSE IF i = 1 THEN "" ELSE " "]
XF(f) == CASE f[1] = "n" -> X(f[2])
           [] f[1] = "-" -> "-"
           [] f[1] = "s" -> <<"'", f[2], "'">>
           [] f[1] = "d" -> f[2]
           [] f[1] = "l" -> <<"[", Sep([i \in DOMAIN f[2] |-> X(f[2][i])]), "]">>
X(n) == <<n.ty, "(", Sep([i \in DOMAIN n.v |-> XF(n.v[i])]), ")">>

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE LocsAt(_, _)
LF(f, k) == CASE f[1] = "n" -> LocsAt(f[2], k)
              [] f[1] = "l" -> Flat([i \in DOMAIN f[2] |-> LocsAt(f[2][i], k)])
              [] OTHER -> <<>>
LocsAt(n, k) ==
  LET b == k + n.o
  IN [i \in DOMAIN n.L |-> <<<<n.ty, ".", n.L[i][1]>>, n.L[i][2] + b, n.L[i][3] + b>>]
     \o Flat([i \in DOMAIN n.v |-> LF(n.v[i], b)])
Locs(n) == LocsAt(n, 0)

(* ---- parts of a construct's text ---- *)
T(s) == [s |-> s, k |-> "t"]                    \* text without a role
K(f, s) == [s |-> s, k |-> "k", f |-> f]        \* text covered by location field f
Nl == T("\n")
Sp == T(" ")
Pt(f) == f                                      \* a fragment itself is a part

RECURSIVE TextFrom(_, _)
TextFrom(ps, i) == IF i > Len(ps) THEN "" ELSE ps[i].s \o TextFrom(ps, i + 1)
Text(ps) == TextFrom(ps, 1)

RECURSIVE OffTo(_, _)
OffTo(ps, i) == IF i <= 1 THEN 0 ELSE OffTo(ps, i - 1) + Len(ps[i - 1].s)

At(n, k) == [n EXCEPT !.o = k]

(* field references: P(i) the fragment at part i; PL list of parts; S string; Nil; N node literal *)
P(i) == <<"p", i>>
PL(is) == <<"pl", is>>
S(s) == <<"s", s>>
Nil == <<"-">>
Empty == <<"l", <<>>>>
Dg(d) == <<"d", d>>

Resolve(f, ps) ==
  CASE f[1] = "p" -> <<"n", At(ps[f[2]].n, OffTo(ps, f[2]))>>
    [] f[1] = "pl" -> <<"l", [j \in DOMAIN f[2] |-> At(ps[f[2][j]].n, OffTo(ps, f[2][j]))]>>
    [] OTHER -> f

RECURSIVE KwLocs(_, _, _)
KwLocs(ps, i, off) ==
  IF i > Len(ps) THEN <<>>
  ELSE LET r == KwLocs(ps, i + 1, off + Len(ps[i].s))
       IN IF "f" \in DOMAIN ps[i] THEN << <<ps[i].f, off, off + Len(ps[i].s)>> >> \o r ELSE r

(* node of kind ty whose expression range is parts a..b *)
NdR(ty, ps, flds, a, b) ==
  [s |-> Text(ps),
   n |-> [ty |-> ty, o |-> 0,
          L |-> Append(KwLocs(ps, 1, 0), <<"expression_l", OffTo(ps, a), OffTo(ps, b + 1)>>),
          v |-> [i \in DOMAIN flds |-> Resolve(flds[i], ps)]]]
Nd(ty, ps, flds) == NdR(ty, ps, flds, 1, Len(ps))

AddLoc(f, fld, b, e) == [f EXCEPT !.n.L = Append(@, <<fld, b, e>>)]

(* ---- what a test case states ---- *)
Out(r) == PrintT(ToJson(r))
CaseXL(f) == Out([s |-> f.s, x |-> X(f.n), L |-> Locs(f.n), d |-> <<>>])
(* how text is split into adjacent parts is left open *)
CaseXLm(f) == Out([s |-> f.s, xm |-> X(f.n), Lm |-> Locs(f.n), d |-> <<>>])
CaseX(f) == Out([s |-> f.s, x |-> X(f.n), d |-> <<>>])
=============================================================================
