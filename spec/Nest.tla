-------------------------------- MODULE Nest --------------------------------
(* C26.  Bracketing structure.  A program is a sequence of pieces with one hole; filling the hole with  *)
(* a construct adds its opening and closing tokens around a new hole.  Every filled program is well      *)
(* formed: it is accepted and leaves nothing open.  From it one damage is done: a structural token is    *)
(* removed, doubled, exchanged for a token of another kind, or exchanged with another one.  The damaged  *)
(* text is unbalanced whatever it is nested in, so it has to be rejected with an error.                  *)
(*   piece: k "S" structural, "T" plain text, "H" hole;  v its text;  c the closing token it asks for    *)
(*   ("" if it is none that asks for one);  p whether removing, doubling, exchanging it is damage        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Fill, Leaf, MinDepth, MaxDepth, Damages, Repeat
VARIABLES s, d, w, ph

Out(r) == PrintT(ToJson(r))
Pc(k, v, o, p) == [k |-> k, v |-> v, c |-> o, p |-> p]
Op(v, o) == Pc("S", v, o, {"rm", "dup", "sw"})
Cl(v) == Pc("S", v, "", {"rm", "dup", "sw", "rep"})
(* quotes, and brackets with nothing between: exchanging them with something may hide it in a string *)
Qo(v, o) == Pc("S", v, o, {"rm", "dup"})
Qc(v) == Pc("S", v, "", {"rm", "dup", "rep"})
(* brackets that are left alone *)
No(v, o) == Pc("S", v, o, {})
Nc(v) == Pc("S", v, "", {})
Mid(v) == Pc("S", v, "", {"rm", "dup", "sw"})
T(v) == Pc("T", v, "", {})
H(ty) == Pc("H", ty, "", {})
Glue == T("")                 (* the neighbours touch *)

(* constructs; hole "e": an expression, "s": a statement *)
Con(x) ==
  CASE x = "paren" -> <<Op("(", ")"), H("s"), Cl(")")>>
    [] x = "array" -> <<Op("[", "]"), H("e"), Cl("]")>>
    [] x = "array2" -> <<Op("[", "]"), T("a, *b,"), H("e"), Cl("]")>>
    [] x = "hash" -> <<Op("{", "}"), T("k:"), H("e"), Cl("}")>>
    [] x = "hashr" -> <<Op("{", "}"), H("e"), T("=> a"), Cl("}")>>
    [] x = "call" -> <<Op("m(", ")"), H("e"), Cl(")")>>
    [] x = "call2" -> <<Op("a.m(", ")"), T("b, k:"), H("e"), Cl(")")>>
    [] x = "callblock" -> <<Op("m(", ")"), T("&"), H("e"), Cl(")")>>
    [] x = "dotparen" -> <<Op("a.(", ")"), T("*"), H("e"), Cl(")")>>
    [] x = "index" -> <<Op("m[", "]"), H("e"), Cl("]")>>
    [] x = "brace" -> <<Op("m {", "}"), H("s"), Cl("}")>>
    [] x = "braceparams" -> <<Op("m {", "}"), T("|x, y = 1|"), H("s"), Cl("}")>>
    [] x = "do" -> <<Op("m do", "end"), H("s"), Cl("end")>>
    [] x = "doparams" -> <<Op("a.m do", "end"), T("|x, (y, *z)|"), H("s"), Cl("end")>>
    [] x = "dorescue" -> <<Op("m do", "end"), T("a; rescue K => e;"), H("s"), Cl("end")>>
    [] x = "lambda" -> <<Op("-> {", "}"), H("s"), Cl("}")>>
    [] x = "lambdado" -> <<Op("-> do", "end"), H("s"), Cl("end")>>
    [] x = "lambdap" -> <<Op("->(x) {", "}"), H("s"), Cl("}")>>
    [] x = "lambdadef" -> <<Op("->(x =", ") {}"), H("e"), Cl(") {}")>>
    [] x = "if" -> <<Op("if", "end"), T("a"), Mid("then"), H("s"), Cl("end")>>
    [] x = "ifcond" -> <<Op("if", "end"), H("e"), Mid("then"), T("a"), Cl("end")>>
    [] x = "ifelse" -> <<Op("if", "end"), T("a"), Mid("then"), T("b else"), H("s"), Cl("end")>>
    [] x = "elsif" -> <<Op("if", "end"), T("a"), Mid("then"), T("b elsif"), H("e"), T("then c"), Cl("end")>>
    [] x = "unless" -> <<Op("unless", "end"), T("a"), Mid("then"), H("s"), Cl("end")>>
    [] x = "while" -> <<Pc("S", "while", "end", {"dup"}), T("a"), Mid("do"), H("s"), Cl("end")>>
    [] x = "whilesemi" -> <<Op("while", "end"), T("a;"), H("s"), T(";"), Cl("end")>>
    [] x = "until" -> <<Op("until", "end"), No("(", ")"), H("e"), Nc(")"), T(";"), Cl("end")>>
    [] x = "for" -> <<Pc("S", "for", "end", {"dup", "rm"}), T("x in"), No("[", "]"), H("e"), Nc("]"), Mid("do"), T("y"), Cl("end")>>
    [] x = "begin" -> <<Op("begin", "end"), H("s"), Cl("end")>>
    [] x = "rescue" -> <<Op("begin", "end"), T("a; rescue K => e;"), H("s"), T("; ensure b;"), Cl("end")>>
    [] x = "ensure" -> <<Op("begin", "end"), T("a; rescue; b; else c; ensure"), H("s"), Cl("end")>>
    [] x = "def" -> <<Pc("S", "def", "end", {"rm", "sw"}), T("m;"), H("s"), T(";"), Cl("end")>>
    [] x = "defparams" -> <<Pc("S", "def", "end", {"rm", "sw"}), T("m(x, *y, k: 1)"), H("s"), Cl("end")>>
    [] x = "defself" -> <<Pc("S", "def", "end", {"rm", "sw"}), T("self.m;"), H("s"), T("; rescue; a;"), Cl("end")>>
    [] x = "defdefault" -> <<Pc("S", "def", "end", {"rm", "sw"}), T("m"), Op("(x =", ")"), H("e"), Cl(")"), T("a"), Cl("end")>>
    [] x = "endless" -> <<Op("(", ")"), T("def m(x) ="), H("e"), Cl(")")>>
    [] x = "sclass" -> <<Op("class", "end"), T("<< self;"), H("s"), T(";"), Cl("end")>>
    [] x = "sclass2" -> <<Op("class", "end"), T("<<"), No("(", ")"), H("e"), Nc(")"), T(";"), Cl("end")>>
    [] x = "case" -> <<Op("case", "end"), T("a"), Mid("when"), T("b"), Mid("then"), H("s"), Cl("end")>>
    [] x = "casesubj" -> <<Op("case", "end"), No("(", ")"), H("e"), Nc(")"), Mid("when"), T("b, *c"), Mid("then"), T("a"), Cl("end")>>
    [] x = "casewhen" -> <<Op("case", "end"), T("a"), Mid("when"), H("e"), Mid("then"), T("b"), Cl("end")>>
    [] x = "casein" -> <<Op("case", "end"), T("a;"), Mid("in"), T("[x, {k: y}]"), Mid("then"), H("s"), Cl("end")>>
    [] x = "caseinelse" -> <<Op("case", "end"), T("a;"), Mid("in"), T("K(x)"), Mid("then"), T("1 else"), H("s"), Cl("end")>>
    [] x = "pinexpr" -> <<Op("case", "end"), T("a;"), Mid("in"), Op("^(", ")"), H("e"), Cl(")"), Mid("then"), T("b"), Cl("end")>>
    [] x = "guard" -> <<Op("case", "end"), T("a;"), Mid("in"), T("x if"), H("e"), Mid("then"), T("b"), Cl("end")>>
    [] x = "interp" -> <<T("\"x #{"), H("s"), Pc("S", "}", "", {"rm", "rep"}), T("y\"")>>
    [] x = "interpx" -> <<T("`x #{"), H("s"), Pc("S", "}", "", {"rm", "rep"}), T("y`")>>
    [] x = "tern" -> <<Op("(", ")"), T("a ?"), H("e"), T(": b"), Cl(")")>>
    [] x = "assign" -> <<Op("(", ")"), T("v ="), H("e"), Cl(")")>>
    [] x = "masgn" -> <<Op("(", ")"), Op("(x, y", ")"), Cl(")"), T(", z ="), H("e"), Cl(")")>>
    [] x = "mod" -> <<Op("(", ")"), H("s"), T("if a"), Cl(")")>>
    [] x = "dotcall" -> <<Op("(", ")"), H("e"), T(".m"), Cl(")")>>
    [] x = "binop" -> <<Op("(", ")"), T("a +"), H("e"), T("* b"), Cl(")")>>
    [] x = "andnot" -> <<Op("(", ")"), T("a and not"), No("(", ")"), H("s"), Nc(")"), Cl(")")>>
    [] x = "defined" -> <<Op("defined?(", ")"), H("e"), Cl(")")>>
    [] x = "yield" -> <<No("m(", ")"), No("def", "end"), T("z()"), Op("yield(", ")"), H("e"), Cl(")"), Nc("end"), Nc(")")>>
    [] x = "super" -> <<No("m(", ")"), No("def", "end"), T("z()"), Op("super(", ")"), H("e"), Cl(")"), Nc("end"), Nc(")")>>
    [] x = "return" -> <<No("m(", ")"), No("def", "end"), T("z()"), Op("return (", ")"), H("s"), Cl(")"), Nc("end"), Nc(")")>>

(* what closes the innermost hole: texts whose quotes are structural *)
Lf(x) ==
  CASE x = "a" -> <<T("a")>>
    [] x = "num" -> <<T("1")>>
    [] x = "cmd" -> <<T("a.b")>>
    [] x = "sq" -> <<Qo("'", "'"), Glue, T("x"), Glue, Qc("'")>>
    [] x = "dq" -> <<Qo("\"", "\""), Glue, T("x"), Glue, Qc("\"")>>
    [] x = "bt" -> <<Qo("`", "`"), Glue, T("x"), Glue, Qc("`")>>
    [] x = "dsym" -> <<Qo(":\"", "\""), Glue, T("x"), Glue, Qc("\"")>>
    [] x = "re" -> <<Qo("/", "/"), Glue, T("x"), Glue, Qc("/")>>
    [] x = "w" -> <<Qo("%w[", "]"), T("x y"), Qc("]")>>
    [] x = "q" -> <<Qo("%q(", ")"), T("x"), Qc(")")>>
    [] x = "r" -> <<Qo("%r{", "}"), T("x"), Qc("}")>>
    [] x = "i" -> <<Qo("%I<", ">"), T("x"), Qc(">")>>
    [] x = "empty" -> <<Qo("(", ")"), Qc(")")>>
    [] x = "emptya" -> <<Qo("[", "]"), Qc("]")>>
    [] x = "emptyd" -> <<Qo("m do", "end"), Qc("end")>>
    [] x = "emptyb" -> <<Qo("begin", "end"), Qc("end")>>
    [] x = "emptyl" -> <<Qo("-> {", "}"), Qc("}")>>

Hole(q) == CHOOSE i \in DOMAIN q : q[i].k = "H"
IsInterp(x) == x \in {"interp", "interpx"}
Put(q, r) == LET i == Hole(q) IN SubSeq(q, 1, i - 1) \o r \o SubSeq(q, i + 1, Len(q))
IsGlue(p) == p.k = "T" /\ p.v = ""
RECURSIVE Text(_, _)
Text(q, i) == IF i > Len(q) THEN ""
              ELSE IF IsGlue(q[i]) THEN Text(q, i + 1)
              ELSE q[i].v \o (IF i = Len(q) \/ IsGlue(q[i + 1]) THEN "" ELSE " ") \o Text(q, i + 1)
RECURSIVE Many(_, _)
Many(x, n) == IF n = 1 THEN Con(x) ELSE Put(Many(x, n - 1), Con(x))

(* ph: "build", "done" (no hole left), "bad" (damaged);  w: built with interpolation *)
Init == s = <<H("s")>> /\ d = 0 /\ w = FALSE /\ ph = "build"
Build == /\ ph = "build" /\ d < MaxDepth
         /\ \E x \in Fill : s' = Put(s, Many(x, Repeat)) /\ d' = d + 1 /\ w' = (w \/ IsInterp(x)) /\ ph' = "build"
Finish == /\ ph = "build" /\ d >= MinDepth
          /\ \E x \in Leaf : /\ x \in {"a", "num", "cmd", "empty", "emptya", "emptyd", "emptyb", "emptyl"} \/ ~w
                             /\ s' = Put(s, Lf(x)) /\ ph' = "done" /\ UNCHANGED <<d, w>>
Structural(i) == s[i].k = "S"
Rm(i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Dup(i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
Rep(i, v) == [s EXCEPT ![i] = T(v)]
Other(i) == {")", "]", "}", "end"} \ {s[i].v}
(* (inside an interpolation one } too many ends the interpolation and is text after it) *)
(* an exchange is damage when the opening and closing tokens do not nest any more, or when it moves a   *)
(* token that stands between an opening and its closing one                                              *)
IsClose(p) == p.k = "S" /\ p.c = "" /\ p.v \in {")", "]", "}", "end", ") {}"}
RECURSIVE Nests(_, _, _)
Nests(q, i, st) == IF i > Len(q) THEN st = <<>>
                   ELSE IF q[i].c # "" THEN Nests(q, i + 1, <<q[i].c>> \o st)
                   ELSE IF IsClose(q[i]) THEN st # <<>> /\ st[1] = q[i].v /\ Nests(q, i + 1, SubSeq(st, 2, Len(st)))
                   ELSE Nests(q, i + 1, st)
IsMid(p) == p.c = "" /\ ~IsClose(p)
Swap(i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Breaks(i, j) == /\ s[i].v # s[j].v
                /\ {s[i].v, s[j].v} # {"when", "in"}
                /\ IsMid(s[i]) \/ IsMid(s[j]) \/ ~Nests(Swap(i, j), 1, <<>>)
Harm == /\ ph = "done" /\ ph' = "bad" /\ UNCHANGED <<d, w>>
        /\ \/ "rm" \in Damages /\ \E i \in DOMAIN s : "rm" \in s[i].p /\ ~(w /\ s[i].c = "}") /\ s' = Rm(i)
           \/ "dup" \in Damages /\ \E i \in DOMAIN s : "dup" \in s[i].p /\ ~(w /\ s[i].v = "}") /\ s' = Dup(i)
           \/ "rep" \in Damages /\ \E i \in DOMAIN s : "rep" \in s[i].p /\ \E v \in Other(i) : s' = Rep(i, v)
           \/ "sw" \in Damages /\ ~w /\ \E i, j \in DOMAIN s : i < j /\ "sw" \in s[i].p /\ "sw" \in s[j].p /\ Breaks(i, j) /\ s' = Swap(i, j)
Next == Build \/ Finish \/ Harm
Emit == CASE ph = "done" -> Out([s |-> Text(s, 1), o |-> "api=sum,sum=v", acc |-> TRUE, left |-> ""])
          [] ph = "bad" -> Out([s |-> Text(s, 1), o |-> "api=sum,sum=v", acc |-> FALSE])
          [] OTHER -> TRUE
=============================================================================
