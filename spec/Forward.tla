------------------------------- MODULE Forward -------------------------------
(* C15.  Forwarding all arguments (...) and the anonymous block (&).  The state is the stack of open  *)
(* scopes with what each declares; definitions and class bodies hide the outer declarations, blocks   *)
(* and lambdas do not.  At every point every forwarding call form is tried.                           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Openers, MaxSteps, Uses, Fixed
VARIABLES sc, txt, at, n

Out(r) == PrintT(ToJson(r))
Fr(c) ==    \* <<head, tail, hides outer, declares>>
  CASE c = "def" -> <<"def m\n", "end\n", TRUE, {}>>
    [] c = "def()" -> <<"def m()\n", "end\n", TRUE, {}>>
    [] c = "defa" -> <<"def m(a, b = 1, *c, k:, **o, &d)\n", "end\n", TRUE, {}>>
    [] c = "defanon" -> <<"def m(*, **)\n", "end\n", TRUE, {}>>
    [] c = "def..." -> <<"def m(...)\n", "end\n", TRUE, {"..."}>>
    [] c = "defa..." -> <<"def m(a, ...)\n", "end\n", TRUE, {"..."}>>
    [] c = "defo..." -> <<"def m(a, (b, c), d = 1, ...)\n", "end\n", TRUE, {"..."}>>
    [] c = "defs..." -> <<"def self.m(...)\n", "end\n", TRUE, {"..."}>>
    [] c = "bare..." -> <<"def m ...\n", "end\n", TRUE, {"..."}>>
    [] c = "barea..." -> <<"def m a, ...\n", "end\n", TRUE, {"..."}>>
    [] c = "def&" -> <<"def m(&)\n", "end\n", TRUE, {"&"}>>
    [] c = "defa&" -> <<"def m(a, *, k: 1, **, &)\n", "end\n", TRUE, {"&"}>>
    [] c = "defs&" -> <<"def self.m(&)\n", "end\n", TRUE, {"&"}>>
    [] c = "bare&" -> <<"def m a, &;\n", "end\n", TRUE, {"&"}>>
    [] c = "deftail" -> <<"def m(...)\nrescue\nelse\nensure\n", "end\n", TRUE, {"..."}>>
    [] c = "class" -> <<"class K\n", "end\n", TRUE, {}>>
    [] c = "module" -> <<"module K\n", "end\n", TRUE, {}>>
    [] c = "sclass" -> <<"class << self\n", "end\n", TRUE, {}>>
    [] c = "brace" -> <<"x {\n", "}\n", FALSE, {}>>
    [] c = "bracep" -> <<"x { |a, &b|\n", "}\n", FALSE, {}>>
    [] c = "do" -> <<"x.y do |*|\n", "end\n", FALSE, {}>>
    [] c = "lam" -> <<"-> {\n", "}\n", FALSE, {}>>
    [] c = "lamp" -> <<"->(a, b = 1) do\n", "end\n", FALSE, {}>>
    [] c = "brace&" -> <<"x { |a, &|\n", "}\n", FALSE, {"&"}>>
    [] c = "lam&" -> <<"->(&) {\n", "}\n", FALSE, {"&"}>>
    [] c = "if" -> <<"if x\n", "end\n", FALSE, {}>>
    [] c = "while" -> <<"while x\n", "end\n", FALSE, {}>>
    [] c = "for" -> <<"for a in x\n", "end\n", FALSE, {}>>
    [] c = "begin" -> <<"begin\nrescue\n", "end\n", FALSE, {}>>
    [] c = "case" -> <<"case x\nwhen y\n", "end\n", FALSE, {}>>
    [] c = "paren" -> <<"(\n", ")\n", FALSE, {}>>
    [] c = "str" -> <<"\"#{\n", "}\"\n", FALSE, {}>>
    [] c = "arr" -> <<"[1, (\n", ")]\n", FALSE, {}>>
    [] c = "arg" -> <<"x(1, (\n", "), 2)\n", FALSE, {}>>

(* call forms: <<what they forward, text before, text after>> *)
Us(u) ==
  CASE u = "f" -> <<"...", "n(", ")\n">>
    [] u = "fa" -> <<"...", "n(1, ", ")\n">>
    [] u = "fs" -> <<"...", "n(x, *y, ", ")\n">>
    [] u = "fself" -> <<"...", "self.n(", ")\n">>
    [] u = "frecv" -> <<"...", "x.n(y, ", ")\n">>
    [] u = "fsafe" -> <<"...", "x&.n(", ")\n">>
    [] u = "fcolon" -> <<"...", "X::n(", ")\n">>
    [] u = "fcall" -> <<"...", "x.(", ")\n">>
    [] u = "fsuper" -> <<"...", "super(", ")\n">>
    [] u = "fsupera" -> <<"...", "super(1, ", ")\n">>
    [] u = "fchain" -> <<"...", "n(", ").o\n">>
    [] u = "farg" -> <<"...", "z = o(n(", "), 1)\n">>
    [] u = "fneg" -> <<"...", "!n(", ")\n">>
    [] u = "fmod" -> <<"...", "x if n(", ")\n">>
    [] u = "ftern" -> <<"...", "x ? n(", ") : y\n">>
    [] u = "b" -> <<"&", "n(", ")\n">>
    [] u = "ba" -> <<"&", "n(1, ", ")\n">>
    [] u = "bk" -> <<"&", "x.n(*y, k: 1, **z, ", ")\n">>
    [] u = "bsuper" -> <<"&", "super(", ")\n">>
    [] u = "bcmd" -> <<"&", "n 1, ", ";\n">>
    [] u = "bcall" -> <<"&", "x.(", ")\n">>
    [] u = "barg" -> <<"&", "z = [o(n(", "), 1)]\n">>
    [] u = "bsafe" -> <<"&", "x&.n(1, ", ") if y\n">>
(* never legal *)
Never == {"n(..., 1)\n", "n(*...)\n", "[...]\n", "yield(...)\n", "n(&, 1)\n", "n(1, ..., &)\n", "n(..., &z)\n", "n(**...)\n", "n(... => 1)\n", "x[1, ...]\n"}
(* whole constructs: legal or the kind of the first error *)
Whole(w) ==
  CASE w = "endless" -> <<"def o(...) = n(...)\n", "">>
    [] w = "endless&" -> <<"def o(&) = n(&)\n", "">>
    [] w = "endlessa" -> <<"def o(a, ...) = n(a, ...)\n", "">>
    [] w = "endless0" -> <<"def o() = n(...)\n", "UnexpectedToken">>
    [] w = "endless&0" -> <<"def o(&b) = n(&)\n", "NoAnonymousBlockarg">>
    [] w = "default" -> <<"def o(a = n(...), ...) end\n", "UnexpectedToken">>
    [] w = "default&" -> <<"def o(a = n(&), &) end\n", "NoAnonymousBlockarg">>
    [] w = "defaultlam" -> <<"def o(a = ->(&) { n(&) }) end\n", "">>
    [] w = "afterblk" -> <<"def o(); x { |&| n(&) }; n(&) end\n", "NoAnonymousBlockarg">>
    [] w = "afterdef" -> <<"def o(); def p(...) n(...) end; n(...) end\n", "UnexpectedToken">>
    [] w = "afterdef&" -> <<"def o(a) def p(&) n(&) end; n(&) end\n", "NoAnonymousBlockarg">>
    [] w = "redef" -> <<"def o(...) def p(...) = q(...); n(...) end\n", "">>
    [] w = "lam...inner" -> <<"def o(...) -> { x { n(1, ...) } } end\n", "">>
    [] w = "kw" -> <<"def o(&) n(k: x(&), &) end\n", "">>

RECURSIVE Vis(_, _)
Vis(i, w) == IF i = 0 THEN FALSE ELSE LET f == Fr(sc[i]) IN w \in f[4] \/ (~f[3] /\ Vis(i - 1, w))
RECURSIVE Tails(_)
Tails(i) == IF i = 0 THEN <<>> ELSE <<Fr(sc[i])[2]>> \o Tails(i - 1)
RECURSIVE TL(_)
TL(t) == IF t = <<>> THEN 0 ELSE Len(Head(t)) + TL(Tail(t))
Defs == {"def", "def()", "defa", "defanon", "def...", "defa...", "defo...", "defs...", "bare...", "barea...", "def&", "defa&", "defs&", "bare&", "deftail"}
InDef == \E i \in DOMAIN sc : sc[i] \in Defs
Node(w) == IF w = "..." THEN "ForwardedArgs.expression_l" ELSE "BlockPass.operator_l"
UseAt(u, pos) == LET f == Us(u) IN <<Node(f[1]), pos + Len(f[2]), pos + Len(f[2]) + Len(f[1])>>
UseTxt(u) == LET f == Us(u) IN f[2] \o f[1] \o f[3]

Init == sc = <<>> /\ txt = <<>> /\ at = <<>> /\ n = 0
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E c \in Openers : (c \in {"class", "module"} => ~InDef) /\ sc' = Append(sc, c) /\ txt' = Append(txt, Fr(c)[1]) /\ at' = at
           \/ /\ sc # <<>>
              /\ sc' = SubSeq(sc, 1, Len(sc) - 1) /\ txt' = Append(txt, Fr(sc[Len(sc)])[2]) /\ at' = at
           \/ \E u \in Fixed : Vis(Len(sc), Us(u)[1]) /\ txt' = Append(txt, UseTxt(u)) /\ at' = Append(at, UseAt(u, TL(txt))) /\ sc' = sc
(* forwarding is tried at the point reached *)
Probe(u) ==
  LET f == Us(u)
      s == txt \o <<UseTxt(u)>> \o Tails(Len(sc))
      a == UseAt(u, TL(txt))
  IN IF Vis(Len(sc), f[1]) THEN Out([s |-> s, ok |-> TRUE, at |-> Append(at, a)])
     (* what `&` means where only `...` is declared is left open *)
     ELSE IF f[1] = "&" /\ Vis(Len(sc), "...") THEN TRUE
     ELSE Out([s |-> s, e1 |-> <<IF f[1] = "..." THEN "UnexpectedToken" ELSE "NoAnonymousBlockarg", a[2], a[3]>>])
Emit == /\ \A u \in Uses : Probe(u)
        /\ (n < MaxSteps => \A t \in Never : Out([s |-> txt \o <<t>> \o Tails(Len(sc)), ok |-> FALSE]))
        /\ (n < MaxSteps => \A w \in {"endless", "endless&", "endlessa", "endless0", "endless&0", "default", "default&", "defaultlam", "afterblk", "afterdef", "afterdef&", "redef", "lam...inner", "kw"} :
             LET s == txt \o <<Whole(w)[1]>> \o Tails(Len(sc)) IN Out(IF Whole(w)[2] = "" THEN [s |-> s, ok |-> TRUE] ELSE [s |-> s, err |-> <<Whole(w)[2]>>]))
        /\ Out([s |-> txt \o Tails(Len(sc)), ok |-> TRUE, at |-> at])
=============================================================================
