------------------------------- MODULE Pattern -------------------------------
(* C16.  Patterns.  The state is one pattern; a transition wraps it in one of the pattern forms,      *)
(* following the grammar's levels.  A pattern knows the variables it binds, in source order, and the  *)
(* rules it breaks; every pattern is placed in case/in, => and in, followed by reads of its variables.*)
EXTENDS Tree
CONSTANTS Leaves, Wraps, Nests, MaxDepth, Naming, Places
VARIABLES p, n

NmF == <<"a", "b", "c", "d", "e", "f", "g", "h">>
Nm(i) == CASE Naming = "fresh" -> NmF[i]
           [] Naming = "same" -> "a"
           [] Naming = "under" -> "_a"
           [] Naming = "_" -> "_"
(* levels of the grammar *)
B == 1    \* basic
A == 2    \* alternative
E == 3    \* with => binding
TOP == 4  \* unbracketed list or hash

IntN(t) == Nd("Int", <<T(t)>>, <<S(t)>>)
Mv(x) == Nd("MatchVar", <<K("name_l", x)>>, <<S(x)>>)
Cst(x) == Nd("Const", <<K("name_l", x)>>, <<Nil, S(x)>>)
CstG == AddLoc(Nd("Const", <<Nd("Cbase", <<T("::")>>, <<>>), K("name_l", "K")>>, <<P(1), S("K")>>), "double_colon_l", 0, 2)
Str(t) == Nd("Str", <<K("begin_l", "\""), T(t), K("end_l", "\"")>>, <<S(t)>>)
Sym(t) == Nd("Sym", <<K("begin_l", ":"), T(t)>>, <<S(t)>>)
Send0(x) == Nd("Send", <<K("selector_l", x)>>, <<Nil, S(x), Empty>>)
Lv(x) == Nd("Lvar", <<T(x)>>, <<S(x)>>)
LKey(t) == Nd("Sym", <<T(t)>>, <<S(t)>>)
QKey(t) == Nd("Sym", <<K("begin_l", "\""), T(t), K("end_l", "\"")>>, <<S(t)>>)
LPair(t, f) == Nd("Pair", <<LKey(t), K("operator_l", ":"), Sp, f>>, <<P(1), P(4)>>)
QPair(t, f) == Nd("Pair", <<QKey(t), K("operator_l", ":"), Sp, f>>, <<P(1), P(4)>>)
LVar(x) == Nd("MatchVar", <<K("name_l", x), T(":")>>, <<S(x)>>)
QVar(x) == Nd("MatchVar", <<T("\""), K("name_l", x), T("\":")>>, <<S(x)>>)
Rest(o, x) == IF x = "" THEN Nd("MatchRest", <<K("operator_l", o)>>, <<Nil>>) ELSE Nd("MatchRest", <<K("operator_l", o), Mv(x)>>, <<P(2)>>)
NoRest == Nd("MatchNilPattern", <<K("operator_l", "**"), K("name_l", "nil")>>, <<>>)
Pin(f) == Nd("Pin", <<K("selector_l", "^"), f>>, <<P(2)>>)
Cm == T(", ")
RECURSIVE Sepd(_, _)
Sepd(fs, i) == IF i > Len(fs) THEN <<>> ELSE (IF i = 1 THEN <<fs[1]>> ELSE <<Cm, fs[i]>>) \o Sepd(fs, i + 1)
Idx(k, off) == [i \in 1..k |-> 2 * i - 1 + off]
Lst(ty, o, fs, c) == Nd(ty, <<K("begin_l", o)>> \o Sepd(fs, 1) \o <<K("end_l", c)>>, <<PL(Idx(Len(fs), 1))>>)
LstT(ty, o, fs, c) == Nd(ty, <<K("begin_l", o)>> \o Sepd(fs, 1) \o <<T(","), K("end_l", c)>>, <<PL(Idx(Len(fs), 1))>>)
Bare(ty, fs) == Nd(ty, Sepd(fs, 1), <<PL(Idx(Len(fs), 0))>>)
BareT(ty, fs) == Nd(ty, Sepd(fs, 1) \o <<T(",")>>, <<PL(Idx(Len(fs), 0))>>)
Cp(k, o, inner, c) == Nd("ConstPattern", <<k, K("begin_l", o), inner, K("end_l", c)>>, <<P(1), P(3)>>)

(* f the text, v the names it binds, bad the rules it breaks, iv the names bound by complete matches inside of it *)
R(f, v, bad, lv, open) == [f |-> f, v |-> v, bad |-> bad, lv |-> lv, open |-> open, iv |-> <<>>]
Under(x) == SubSeq(x, 1, 1) = "_"
DupV(v) == IF \E i, j \in DOMAIN v : i < j /\ v[i] = v[j] /\ ~Under(v[i]) THEN {"DuplicateVariableName"} ELSE {}
Lf(f) == R(f, <<>>, {}, B, FALSE)
Leaf(c) ==
  CASE c = "int" -> Lf(IntN("1"))
    [] c = "neg" -> Lf(Nd("Int", <<K("operator_l", "-"), T("1")>>, <<S("-1")>>))
    [] c = "float" -> Lf(Nd("Float", <<T("1.5")>>, <<S("1.5")>>))
    [] c = "str" -> Lf(Str("s"))
    [] c = "sym" -> Lf(Sym("s"))
    [] c = "nil" -> Lf(Nd("Nil", <<T("nil")>>, <<>>))
    [] c = "true" -> Lf(Nd("True", <<T("true")>>, <<>>))
    [] c = "self" -> Lf(Nd("Self_", <<T("self")>>, <<>>))
    [] c = "file" -> Lf(Nd("File", <<T("__FILE__")>>, <<>>))
    [] c = "const" -> Lf(Cst("K"))
    [] c = "gconst" -> Lf(AddLoc(Nd("Const", <<Nd("Cbase", <<T("::")>>, <<>>), K("name_l", "K")>>, <<P(1), S("K")>>), "double_colon_l", 0, 2))
    [] c = "sconst" -> Lf(Nd("Const", <<Cst("K"), K("double_colon_l", "::"), K("name_l", "L")>>, <<P(1), S("L")>>))
    [] c = "range" -> Lf(Nd("Irange", <<IntN("1"), K("operator_l", ".."), IntN("2")>>, <<P(1), P(3)>>))
    [] c = "erange" -> Lf(Nd("Erange", <<Str("a"), Sp, K("operator_l", "..."), Sp, Str("z")>>, <<P(1), P(5)>>))
    [] c = "endless" -> R(Nd("Irange", <<IntN("1"), K("operator_l", "..")>>, <<P(1), Nil>>), <<>>, {}, B, TRUE)
    [] c = "eendless" -> R(Nd("Erange", <<IntN("1"), K("operator_l", "...")>>, <<P(1), Nil>>), <<>>, {}, B, TRUE)
    [] c = "beginless" -> Lf(Nd("Irange", <<K("operator_l", ".."), IntN("2")>>, <<Nil, P(2)>>))
    [] c = "ebeginless" -> Lf(Nd("Erange", <<K("operator_l", "..."), IntN("2")>>, <<Nil, P(2)>>))
    [] c = "dstr" -> Lf(Nd("Dstr", <<K("begin_l", "\""), Nd("Begin", <<K("begin_l", "#{"), Send0("y"), K("end_l", "}")>>, <<PL(<<2>>)>>), K("end_l", "\"")>>, <<PL(<<2>>)>>))
    [] c = "words" -> Lf(Nd("Array", <<K("begin_l", "%w["), Nd("Str", <<T("u")>>, <<S("u")>>), Sp, Nd("Str", <<T("v")>>, <<S("v")>>), K("end_l", "]")>>, <<PL(<<2, 4>>)>>))
    [] c = "symbols" -> Lf(Nd("Array", <<K("begin_l", "%i["), Nd("Sym", <<T("u")>>, <<S("u")>>), K("end_l", "]")>>, <<PL(<<2>>)>>))
    [] c = "xstr" -> Lf(Nd("Xstr", <<K("begin_l", "`"), Nd("Str", <<T("u")>>, <<S("u")>>), K("end_l", "`")>>, <<PL(<<2>>)>>))
    [] c = "regexp" -> Lf(Nd("Regexp", <<K("begin_l", "/"), Nd("Str", <<T("u")>>, <<S("u")>>), K("end_l", "/")>>, <<PL(<<2>>), Nil>>))
    [] c = "lambda" -> Lf(Nd("Block", <<Nd("Lambda", <<T("->")>>, <<>>), Sp, K("begin_l", "{"), Sp, IntN("1"), Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>))
    [] c = "var" -> R(Mv(Nm(1)), <<Nm(1)>>, {}, B, FALSE)
    [] c = "pin" -> Lf(Pin(Lv("pv")))
    [] c = "pinbad" -> R(Pin(Lv("qq")), <<>>, {"NoSuchLocalVariable"}, B, FALSE)
    [] c = "piniv" -> Lf(Pin(Nd("Ivar", <<T("@i")>>, <<S("@i")>>)))
    [] c = "pingv" -> Lf(Pin(Nd("Gvar", <<T("$g")>>, <<S("$g")>>)))
    [] c = "pincv" -> Lf(Pin(Nd("Cvar", <<T("@@c")>>, <<S("@@c")>>)))
    [] c = "pinex" -> Lf(Pin(Nd("Begin", <<K("begin_l", "("), Nd("Send", <<IntN("1"), Sp, K("selector_l", "+"), Sp, Send0("y")>>, <<P(1), S("+"), PL(<<5>>)>>), K("end_l", ")")>>, <<PL(<<2>>)>>)))
    [] c = "[]" -> Lf(Nd("ArrayPattern", <<K("begin_l", "["), K("end_l", "]")>>, <<Empty>>))
    [] c = "{}" -> Lf(Nd("HashPattern", <<K("begin_l", "{"), K("end_l", "}")>>, <<Empty>>))
    [] c = "K()" -> LET e == Nd("ArrayPattern", <<K("begin_l", "("), K("end_l", ")")>>, <<Empty>>)
                    IN Lf(AddLoc(AddLoc(Nd("ConstPattern", <<Cst("K"), e>>, <<P(1), P(2)>>), "begin_l", 1, 2), "end_l", 2, 3))
    [] c = "K[]" -> LET e == Nd("ArrayPattern", <<K("begin_l", "["), K("end_l", "]")>>, <<Empty>>)
                    IN Lf(AddLoc(AddLoc(Nd("ConstPattern", <<Cst("K"), e>>, <<P(1), P(2)>>), "begin_l", 1, 2), "end_l", 2, 3))
    [] c = "star" -> Lf(Lst("ArrayPattern", "[", <<Rest("*", "")>>, "]"))
    [] c = "starv" -> R(Lst("ArrayPattern", "[", <<Rest("*", Nm(1))>>, "]"), <<Nm(1)>>, {}, B, FALSE)
    [] c = "kwnil" -> Lf(Lst("HashPattern", "{", <<NoRest>>, "}"))
    [] c = "kwrest" -> R(Lst("HashPattern", "{", <<Rest("**", Nm(1))>>, "}"), <<Nm(1)>>, {}, B, FALSE)
    [] c = "kvar" -> R(Lst("HashPattern", "{", <<LVar(Nm(1))>>, "}"), <<Nm(1)>>, {}, B, FALSE)
    [] c = "qvar" -> R(Lst("HashPattern", "{", <<QVar(Nm(1))>>, "}"), <<Nm(1)>>, {}, B, FALSE)
    [] c = "topk" -> R(Bare("HashPattern", <<LVar(Nm(1))>>), <<Nm(1)>>, {}, TOP, FALSE)
    [] c = "topq" -> R(Bare("HashPattern", <<QVar(Nm(1))>>), <<Nm(1)>>, {}, TOP, TRUE)
    [] c = "topr" -> R(Bare("ArrayPattern", <<Rest("*", Nm(1))>>), <<Nm(1)>>, {}, TOP, FALSE)
    [] c = "topkr" -> R(Bare("HashPattern", <<Rest("**", Nm(1))>>), <<Nm(1)>>, {}, TOP, FALSE)

(* a complete match pinned in another pattern has names and keys of its own *)
PinEx(e) == Pin(Nd("Begin", <<K("begin_l", "("), e, K("end_l", ")")>>, <<PL(<<2>>)>>))
YY == Send0("yy")
Nested == {"pinin", "pincase"}
WN(c, q) == LET e == CASE c = "pinin" -> Nd("MatchPatternP", <<YY, Sp, K("operator_l", "in"), Sp, q.f>>, <<P(1), P(5)>>)
                       [] c = "pincase" -> Nd("CaseMatch", <<K("keyword_l", "case"), Sp, YY, Nl,
                                              Nd("InPattern", <<K("keyword_l", "in"), Sp, q.f, Sp, K("begin_l", "then"), Sp, IntN("2")>>, <<P(3), Nil, P(7)>>), Nl, K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>)
            IN [R(PinEx(e), <<>>, q.bad \cup DupV(q.v), B, FALSE) EXCEPT !.iv = q.iv \o q.v]

(* x: fresh variable of this wrapping.  <<highest level accepted, fragment, names before, names after, own violations, level, open>> *)
W(c, q, x) ==
  LET f == q.f
      v == q.v
      arr(fs, vs) == R(Lst("ArrayPattern", "[", fs, "]"), vs, q.bad, B, FALSE)
      find(fs, vs) == R(Lst("FindPattern", "[", fs, "]"), vs, q.bad, B, FALSE)
      hash(fs, vs) == R(Lst("HashPattern", "{", fs, "}"), vs, q.bad, B, FALSE)
      cp(k, o, inner, e, vs) == R(Cp(k, o, inner, e), vs, q.bad, B, FALSE)
      top(g, vs, open) == R(g, vs, q.bad, TOP, open)
      dup(r) == [r EXCEPT !.bad = @ \cup {"DuplicateKeyName"}]
      K1 == IntN("1")
  IN CASE c = "arr1" -> arr(<<f>>, v)
       [] c = "arr2" -> arr(<<K1, f>>, v)
       [] c = "arr3" -> arr(<<f, Mv(x)>>, Append(v, x))
       [] c = "arrd" -> arr(<<Mv(x), f, Mv(x)>>, <<x>> \o v \o <<x>>)
       [] c = "hashdd" -> dup(hash(<<LPair("k", K1), LPair("j", f), LPair("k", K1)>>, v))
       [] c = "arrt" -> R(LstT("ArrayPatternWithTail", "[", <<f>>, "]"), v, q.bad, B, FALSE)
       [] c = "arrt2" -> R(LstT("ArrayPatternWithTail", "[", <<K1, f>>, "]"), v, q.bad, B, FALSE)
       [] c = "arrr" -> arr(<<f, Rest("*", x)>>, Append(v, x))
       [] c = "rarr" -> arr(<<Rest("*", x), f>>, <<x>> \o v)
       [] c = "arrm" -> arr(<<f, Rest("*", ""), K1>>, v)
       [] c = "find" -> find(<<Rest("*", ""), f, Rest("*", "")>>, v)
       [] c = "findv" -> find(<<Rest("*", x), K1, f, Rest("*", "")>>, <<x>> \o v)
       [] c = "hash" -> hash(<<LPair("k", f)>>, v)
       [] c = "hashv" -> hash(<<LVar(x), LPair("k", f)>>, <<x>> \o v)
       [] c = "hashq" -> hash(<<QPair("k", f)>>, v)
       [] c = "hashK" -> hash(<<LPair("K", f), QPair("a b", K1), LPair("if", K1)>>, v)
       [] c = "hashr" -> hash(<<LPair("k", f), Rest("**", x)>>, Append(v, x))
       [] c = "hashn" -> hash(<<LPair("k", f), NoRest>>, v)
       [] c = "hasha" -> hash(<<LPair("k", f), Rest("**", "")>>, v)
       [] c = "hasht" -> R(LstT("HashPattern", "{", <<LPair("k", f)>>, "}"), v, q.bad, B, FALSE)
       [] c = "hashd" -> dup(hash(<<LPair("k", f), LPair("k", K1)>>, v))
       [] c = "hashdq" -> dup(hash(<<LPair("k", K1), QPair("k", f)>>, v))
       [] c = "hashdv" -> dup(hash(<<LPair(x, f), LVar(x)>>, Append(v, x)))
       [] c = "hashdw" -> dup(hash(<<LVar(x), LPair("k", f), LPair(x, K1)>>, <<x>> \o v))
       [] c = "hashdx" -> dup(hash(<<QPair(x, f), QVar(x)>>, Append(v, x)))
       [] c = "cp1" -> cp(Cst("K"), "(", Bare("ArrayPattern", <<f>>), ")", v)
       [] c = "cp2" -> cp(Cst("K"), "(", Bare("ArrayPattern", <<K1, f, Rest("*", x)>>), ")", Append(v, x))
       [] c = "cpt" -> cp(Cst("K"), "(", BareT("ArrayPatternWithTail", <<f>>), ")", v)
       [] c = "cpk" -> cp(Cst("K"), "(", Bare("HashPattern", <<LPair("k", f), LVar(x)>>), ")", Append(v, x))
       [] c = "cpd" -> dup(cp(Cst("K"), "(", Bare("HashPattern", <<LPair("k", f), LPair("k", K1)>>), ")", v))
       [] c = "cpf" -> cp(Cst("K"), "(", Bare("FindPattern", <<Rest("*", ""), f, Rest("*", x)>>), ")", Append(v, x))
       [] c = "cb1" -> cp(Cst("K"), "[", Bare("ArrayPattern", <<f>>), "]", v)
       [] c = "cbk" -> cp(CstG, "[", Bare("HashPattern", <<LPair("k", f), NoRest>>), "]", v)
       [] c = "cbf" -> cp(Cst("K"), "[", Bare("FindPattern", <<Rest("*", ""), f, Rest("*", "")>>), "]", v)
       [] c = "paren" -> R(Nd("Begin", <<K("begin_l", "("), f, K("end_l", ")")>>, <<PL(<<2>>)>>), v, q.bad, B, FALSE)
       [] c = "altl" -> R(Nd("MatchAlt", <<f, Sp, K("operator_l", "|"), Sp, K1>>, <<P(1), P(5)>>), v, q.bad, A, FALSE)
       [] c = "altr" -> R(Nd("MatchAlt", <<K1, Sp, K("operator_l", "|"), Sp, f>>, <<P(1), P(5)>>), v, q.bad, A, q.open)
       [] c = "alt3" -> R(Nd("MatchAlt", <<Nd("MatchAlt", <<K1, K("operator_l", "|"), f>>, <<P(1), P(3)>>), K("operator_l", "|"), Cst("K")>>, <<P(1), P(3)>>), v, q.bad, A, FALSE)
       [] c = "as" -> R(Nd("MatchAs", <<f, Sp, K("operator_l", "=>"), Sp, Mv(x)>>, <<P(1), P(5)>>), Append(v, x), q.bad, E, FALSE)
       [] c = "top1" -> top(BareT("ArrayPatternWithTail", <<f>>), v, TRUE)
       [] c = "top2" -> top(Bare("ArrayPattern", <<f, K1>>), v, FALSE)
       [] c = "top3" -> top(Bare("ArrayPattern", <<Mv(x), f>>), <<x>> \o v, q.open)
       [] c = "topr" -> top(Bare("ArrayPattern", <<f, Rest("*", x)>>), Append(v, x), FALSE)
       [] c = "topm" -> top(Bare("ArrayPattern", <<f, Rest("*", ""), K1>>), v, FALSE)
       [] c = "rtop" -> top(Bare("ArrayPattern", <<Rest("*", x), f>>), <<x>> \o v, q.open)
       [] c = "topf" -> top(Bare("FindPattern", <<Rest("*", ""), f, Rest("*", x)>>), Append(v, x), FALSE)
       [] c = "topk" -> top(Bare("HashPattern", <<LPair("k", f)>>), v, q.open)
       [] c = "topkv" -> top(Bare("HashPattern", <<LVar(x), LPair("k", f)>>), <<x>> \o v, q.open)
       [] c = "topkn" -> top(Bare("HashPattern", <<LPair("k", f), NoRest>>), v, FALSE)
       [] c = "topkr" -> top(Bare("HashPattern", <<QPair("k", f), Rest("**", x)>>), Append(v, x), FALSE)
       [] c = "topkd" -> dup(top(Bare("HashPattern", <<LPair("k", f), LPair("k", K1)>>), v, FALSE))
MaxLv(c) == CASE c \in {"altl"} -> A [] c \in {"altr", "alt3"} -> B [] OTHER -> E

Init == n = 0 /\ p \in {Leaf(c) : c \in Leaves}
Next == n < MaxDepth /\ n' = n + 1 /\ \E c \in Wraps \cup Nests :
          IF c \in Nested THEN (~p.open \/ c = "pincase") /\ p' = WN(c, p)
          ELSE p.lv <= MaxLv(c) /\ p' = [W(c, p, Nm(n + 2)) EXCEPT !.iv = p.iv]

Bad == p.bad \cup DupV(p.v)
(* the variables the pattern binds, read afterwards *)
RECURSIVE Uniq(_)
Uniq(vs) == IF vs = <<>> THEN <<>> ELSE IF \E i \in 2..Len(vs) : vs[i] = vs[1] THEN Uniq(Tail(vs)) ELSE <<vs[1]>> \o Uniq(Tail(vs))
Reads == LET u == Uniq(p.iv \o p.v) IN Nd("Array", <<K("begin_l", "[")>> \o Sepd([i \in DOMAIN u |-> Lv(u[i])], 1) \o <<K("end_l", "]")>>, <<PL(Idx(Len(u), 1))>>)
Guard(kw, ty) == LET u == Uniq(p.iv \o p.v) IN Nd(ty, <<K("keyword_l", kw), Sp, IF u = <<>> THEN Send0("g") ELSE Lv(u[1])>>, <<P(3)>>)
In(ps, fl) == Nd("InPattern", <<K("keyword_l", "in"), Sp, p.f>> \o ps, fl)
Seq2(a, b) == Nd("Begin", <<a, Nl, b>>, <<PL(<<1, 3>>)>>)
ZZ == Send0("zz")
Case(ins, rest, fl) == Nd("CaseMatch", <<K("keyword_l", "case"), Sp, ZZ, Nl>> \o ins \o rest \o <<K("end_l", "end")>>, fl)
At1(w) ==
  CASE w = "=>" -> Seq2(Nd("MatchPattern", <<ZZ, Sp, K("operator_l", "=>"), Sp, p.f>>, <<P(1), P(5)>>), Reads)
    [] w = "in" -> Seq2(Nd("MatchPatternP", <<ZZ, Sp, K("operator_l", "in"), Sp, p.f>>, <<P(1), P(5)>>), Reads)
    [] w = "if" -> Nd("If", <<K("keyword_l", "if"), Sp, Nd("MatchPatternP", <<ZZ, Sp, K("operator_l", "in"), Sp, p.f>>, <<P(1), P(5)>>), K("begin_l", "\n"), Reads, Nl, K("end_l", "end")>>, <<P(3), P(5), Nil>>)
    [] w = "then" -> Case(<<In(<<Sp, K("begin_l", "then"), Sp, Reads>>, <<P(3), Nil, P(7)>>), Nl>>, <<>>, <<P(3), PL(<<5>>), Nil>>)
    [] w = "nl" -> Case(<<In(<<K("begin_l", "\n"), Reads>>, <<P(3), Nil, P(5)>>), Nl>>, <<>>, <<P(3), PL(<<5>>), Nil>>)
    [] w = "guard" -> Case(<<In(<<Sp, Guard("if", "IfGuard"), K("begin_l", "\n"), Reads>>, <<P(3), P(5), P(7)>>), Nl>>, <<>>, <<P(3), PL(<<5>>), Nil>>)
    [] w = "unless" -> Case(<<In(<<Sp, Guard("unless", "UnlessGuard"), Sp, K("begin_l", "then"), Sp, Reads>>, <<P(3), P(5), P(9)>>), Nl>>, <<>>, <<P(3), PL(<<5>>), Nil>>)
    [] w = "two" -> LET i == In(<<K("begin_l", "\n"), Reads>>, <<P(3), Nil, P(5)>>) IN Case(<<i, Nl, i, Nl>>, <<K("else_l", "else"), Nl, Reads, Nl>>, <<P(3), PL(<<5, 7>>), P(11)>>)
    [] w = "empty" -> Case(<<NdR("InPattern", <<K("keyword_l", "in"), Sp, p.f, K("begin_l", "\n")>>, <<P(3), Nil, Nil>>, 1, 3)>>, <<NdR("EmptyElse", <<T("else")>>, <<>>, 1, 1), Nl>>, <<P(3), PL(<<5>>), P(6)>>)
Fix(w, f) == IF w = "empty" THEN AddLoc(f, "else_l", Len("case zz\nin \n") + Len(p.f.s), Len("case zz\nin \nelse") + Len(p.f.s)) ELSE f
Judge(w) == \E f \in {Fix(w, At1(w))} :
  IF Bad = {} THEN Out([s |-> f.s, o |-> "decl=pv", x |-> X(f.n), L |-> Locs(f.n), d |-> <<>>])
  ELSE IF \E e \in Bad : Bad = {e} THEN Out([s |-> f.s, o |-> "decl=pv", err |-> Bad])
  ELSE Out([s |-> f.s, o |-> "decl=pv", ok |-> FALSE])
EndsInLabel == SubSeq(p.f.s, Len(p.f.s), Len(p.f.s)) = ":"
Emit == \A w \in Places : (EndsInLabel => w \notin {"guard", "unless"}) /\ (p.open => w \in {"then"}) => Judge(w)
=============================================================================
