------------------------------- MODULE Params --------------------------------
(* C14.  Parameter lists.  The state is the list so far and the phase of the list (required, optional,*)
(* rest, post, keyword, keyword rest, block); a parameter the phase does not allow makes the list     *)
(* invalid, a repeated name is rejected unless it starts with an underscore.                          *)
EXTENDS Tree
CONSTANTS Kinds, MaxLen, Where, NameSet, Defaults
VARIABLES items, ph, ok, n

Fresh(i) == CASE i = 1 -> "p" [] i = 2 -> "q" [] i = 3 -> "r" [] i = 4 -> "t" [] i = 5 -> "w" [] i = 6 -> "x" [] i = 7 -> "y"
Arg(x) == Nd("Arg", <<T(x)>>, <<S(x)>>)
Rest(x) == IF x = "" THEN Nd("Restarg", <<K("operator_l", "*")>>, <<Nil>>) ELSE Nd("Restarg", <<K("operator_l", "*"), K("name_l", x)>>, <<S(x)>>)
Mlhs(ps, is) == Nd("Mlhs", <<K("begin_l", "(")>> \o ps \o <<K("end_l", ")")>>, <<PL(is)>>)
Cm == T(", ")
Def(d, x, prev) ==
  CASE d = "1" -> Nd("Int", <<T("1")>>, <<S("1")>>)
    [] d = "own" -> Nd("Lvar", <<T(x)>>, <<S(x)>>)
    [] d = "prev" -> IF prev = "" THEN Nd("Nil", <<T("nil")>>, <<>>) ELSE Nd("Lvar", <<T(prev)>>, <<S(prev)>>)
    [] d = "call" -> Nd("Send", <<K("selector_l", "zz")>>, <<Nil, S("zz"), Empty>>)
    [] d = "paren" -> Nd("Begin", <<K("begin_l", "("), Nd("Int", <<T("1")>>, <<S("1")>>), T("; "), Nd("Int", <<T("2")>>, <<S("2")>>), K("end_l", ")")>>, <<PL(<<2, 4>>)>>)

(* fragment of an item *)
Frag(it) ==
  CASE it.k = "req" -> Arg(it.x)
    [] it.k = "m1" -> Mlhs(<<Arg(it.x), Cm, Arg(it.x \o "a")>>, <<2, 4>>)
    [] it.k = "m2" -> Mlhs(<<Arg(it.x), Cm, Rest(it.x \o "a")>>, <<2, 4>>)
    [] it.k = "m3" -> Mlhs(<<Rest(""), Cm, Arg(it.x)>>, <<2, 4>>)
    [] it.k = "m4" -> Mlhs(<<Mlhs(<<Arg(it.x \o "a"), Cm, Rest(it.x), Cm, Arg(it.x \o "b")>>, <<2, 4, 6>>), Cm, Arg(it.x \o "c"), Cm, Rest("")>>, <<2, 4, 6>>)
    [] it.k = "m5" -> Mlhs(<<Arg(it.x)>>, <<2>>)
    [] it.k = "opt" -> Nd("Optarg", <<K("name_l", it.x), Sp, K("operator_l", "="), Sp, Def(it.d, it.x, it.prev)>>, <<S(it.x), P(5)>>)
    [] it.k = "opt2" -> Nd("Optarg", <<K("name_l", it.x), K("operator_l", "="), Def(it.d, it.x, it.prev)>>, <<S(it.x), P(3)>>)
    [] it.k = "rest" -> Rest(it.x)
    [] it.k = "arest" -> Rest("")
    [] it.k = "kw" -> AddLoc(Nd("Kwarg", <<T(it.x \o ":")>>, <<S(it.x)>>), "name_l", 0, Len(it.x))
    [] it.k = "kwopt" -> Nd("Kwoptarg", <<K("name_l", it.x), T(": "), Def(it.d, it.x, it.prev)>>, <<S(it.x), P(3)>>)
    [] it.k = "kwrest" -> Nd("Kwrestarg", <<K("operator_l", "**"), K("name_l", it.x)>>, <<S(it.x)>>)
    [] it.k = "akwrest" -> Nd("Kwrestarg", <<K("operator_l", "**")>>, <<Nil>>)
    [] it.k = "kwnil" -> AddLoc(Nd("Kwnilarg", <<T("**nil")>>, <<>>), "name_l", 2, 5)
    [] it.k = "blk" -> Nd("Blockarg", <<K("operator_l", "&"), K("name_l", it.x)>>, <<S(it.x)>>)
    [] it.k = "ablk" -> Nd("Blockarg", <<K("operator_l", "&")>>, <<Nil>>)
    [] it.k = "fwd" -> Nd("ForwardArg", <<T("...")>>, <<>>)
    (* not a local variable name *)
    [] OTHER -> Arg("Q")
Bad == [const |-> <<"Q", "ConstArgument">>, ivar |-> <<"@q", "IvarArgument">>, gvar |-> <<"$q", "GvarArgument">>, cvar |-> <<"@@q", "CvarArgument">>,
        optconst |-> <<"Q = 1", "ConstArgument">>, mconst |-> <<"(q, Q)", "ConstArgument">>, mivar |-> <<"(@q, *x)", "IvarArgument">>,
        kwq |-> <<"q?: 1", "KeyMustBeValidAsLocalVariable">>, kwb |-> <<"q!:", "KeyMustBeValidAsLocalVariable">>, kwconst |-> <<"Q: 1", "ConstArgument">>,
        kwuni |-> <<"Ã:", "ConstArgument">>, restconst |-> <<"*Q", "">>, blkconst |-> <<"&Q", "">>, kwrconst |-> <<"**Q", "">>, civar |-> <<"@q = 1", "IvarArgument">>]

Names(it) == CASE it.k \in {"req", "m3", "m5", "opt", "opt2", "rest", "kw", "kwopt", "kwrest", "blk"} -> <<it.x>>
               [] it.k \in {"m1", "m2"} -> <<it.x, it.x \o "a">>
               [] it.k = "m4" -> <<it.x \o "a", it.x, it.x \o "b", it.x \o "c">>
               [] OTHER -> <<>>
RECURSIVE AllNames(_)
AllNames(its) == IF its = <<>> THEN <<>> ELSE Names(Head(its)) \o AllNames(Tail(its))
Under(x) == SubSeq(x, 1, 1) = "_"
HasDup(ns) == \E i, j \in DOMAIN ns : i < j /\ ns[i] = ns[j] /\ ~Under(ns[i])

Phase(k) == CASE k \in {"req", "m1", "m2", "m3", "m4", "m5"} -> 1 [] k \in {"opt", "opt2"} -> 2 [] k \in {"rest", "arest"} -> 3
              [] k \in {"kw", "kwopt"} -> 5 [] k \in {"kwrest", "akwrest", "kwnil"} -> 6 [] k \in {"blk", "ablk"} -> 7 [] k = "fwd" -> 8
(* phase after adding kind k, 0 when not allowed *)
After(p, k) ==
  LET f == Phase(k)
  IN CASE f = 1 -> IF p <= 1 THEN 1 ELSE IF p \in {2, 3, 4} THEN 4 ELSE 0
       [] f = 2 -> IF p <= 2 THEN 2 ELSE 0
       [] f = 3 -> IF p <= 2 THEN 3 ELSE 0
       [] f = 5 -> IF p <= 5 THEN 5 ELSE 0
       [] f = 6 -> IF p <= (IF k = "kwnil" THEN 4 ELSE 5) THEN 6 ELSE 0
       [] f = 7 -> IF p <= 6 THEN 7 ELSE 0
       [] f = 8 -> IF p <= 4 THEN 8 ELSE 0

Init == items = <<>> /\ ph = 0 /\ ok = TRUE /\ n = 0
PrevName == LET ns == AllNames(items) IN IF ns = <<>> THEN "" ELSE ns[Len(ns)]
Next == /\ n < MaxLen /\ ok /\ n' = n + 1
        /\ \E k \in Kinds :
             /\ \E x \in (IF Names([k |-> k, x |-> "a"]) = <<>> THEN {""} ELSE {IF y = "fresh" THEN Fresh(n + 1) ELSE IF y = "first" THEN (IF AllNames(items) = <<>> THEN Fresh(n + 1) ELSE AllNames(items)[1]) ELSE y : y \in NameSet}) :
                \E d \in (IF k \in {"opt", "opt2", "kwopt"} THEN Defaults ELSE {"1"}) :
                  items' = Append(items, [k |-> k, x |-> x, d |-> d, prev |-> PrevName])
             /\ ph' = After(ph, k) /\ ok' = (After(ph, k) # 0)

RECURSIVE Sepd(_, _)
Sepd(fs, i) == IF i > Len(fs) THEN <<>> ELSE (IF i = 1 THEN <<fs[1]>> ELSE <<Cm, fs[i]>>) \o Sepd(fs, i + 1)
Frags == [i \in DOMAIN items |-> Frag(items[i])]
Idx(k, off) == [i \in 1..k |-> 2 * i - 1 + off]
Zc == Nd("Send", <<K("selector_l", "zz")>>, <<Nil, S("zz"), Empty>>)
Paren(o, fs, c) == Nd("Args", <<K("begin_l", o)>> \o Sepd(fs, 1) \o <<K("end_l", c)>>, <<PL(Idx(Len(fs), 1))>>)
Bare(fs) == Nd("Args", Sepd(fs, 1), <<PL(Idx(Len(fs), 0))>>)
Circular == \E i \in DOMAIN items : items[i].d = "own" \/ (items[i].d = "prev" /\ items[i].prev = items[i].x)
Last == items[Len(items)].k
Single == Len(items) = 1 /\ items[1].k \in {"req", "m1", "m2", "m3", "m4", "m5"}
(* a lone parameter of a block is a Procarg0 *)
Proc0(it) ==
  LET f == Frag(it)
  IN IF it.k = "req" THEN <<Nd("Procarg0", <<f>>, <<PL(<<1>>)>>)>>
     ELSE <<[f EXCEPT !.n.ty = "Procarg0"]>>
Shadow(x) == Nd("Shadowarg", <<T(x)>>, <<S(x)>>)
BArgs(w) ==
  LET fs == IF Single THEN Proc0(items[1]) ELSE Frags
      ps == <<K("begin_l", "|")>> \o Sepd(fs, 1)
      k == Len(fs)
  IN CASE w = "shadow" -> Nd("Args", ps \o <<T("; "), Shadow("u"), Cm, Shadow("v"), K("end_l", "|")>>, <<PL(Idx(k, 1) \o <<Len(ps) + 2, Len(ps) + 4>>)>>)
       [] w = "comma" -> Nd("Args", <<K("begin_l", "|")>> \o Sepd(Frags, 1) \o <<T(","), K("end_l", "|")>>, <<PL(Idx(k, 1))>>)
       [] w = "nl" -> Nd("Args", <<K("begin_l", "|"), T("\n")>> \o Sepd(fs, 1) \o <<T("\n"), K("end_l", "|")>>, <<PL(Idx(k, 2))>>)
       [] OTHER -> Nd("Args", ps \o <<K("end_l", "|")>>, <<PL(Idx(k, 1))>>)
Call == Nd("Send", <<K("selector_l", "mm")>>, <<Nil, S("mm"), Empty>>)
Lam == Nd("Lambda", <<T("->")>>, <<>>)
Has(ks) == \E i \in DOMAIN items : items[i].k \in ks
BareOk == Len(items) > 0 /\ ~Has({"fwd"}) /\ items[1].k \notin {"m1", "m2", "m3", "m4", "m5"}
(* bare lists: <<applicable, fragment>> *)
Build(w) ==
  CASE w = "def" -> Nd("Def", <<K("keyword_l", "def"), Sp, K("name_l", "mm"), Paren("(", Frags, ")"), T("; "), Zc, T("; "), K("end_l", "end")>>, <<S("mm"), P(4), P(6)>>)
    [] w = "defbare" -> Nd("Def", <<K("keyword_l", "def"), Sp, K("name_l", "mm"), Sp, Bare(Frags), T(IF Last \in {"arest", "akwrest", "ablk"} THEN "; " ELSE "\n"), Zc, T("; "), K("end_l", "end")>>, <<S("mm"), P(5), P(7)>>)
    [] w = "defs" -> Nd("Defs", <<K("keyword_l", "def"), Sp, Nd("Self_", <<T("self")>>, <<>>), K("operator_l", "."), K("name_l", "mm"), Paren("(", Frags, ")"), T("\n"), K("end_l", "end")>>, <<P(3), S("mm"), P(6), Nil>>)
    [] w = "endless" -> Nd("Def", <<K("keyword_l", "def"), Sp, K("name_l", "mm"), Paren("(", Frags, ")"), Sp, K("assignment_l", "="), Sp, Zc>>, <<S("mm"), P(4), P(8)>>)
    [] w \in {"brace", "shadow", "comma", "nl"} -> Nd("Block", <<Call, Sp, K("begin_l", "{"), Sp, BArgs(w), Sp, Zc, Sp, K("end_l", "}")>>, <<P(1), P(5), P(7)>>)
    [] w = "do" -> Nd("Block", <<Call, Sp, K("begin_l", "do"), Sp, BArgs(w), T("\n"), Zc, T("\n"), K("end_l", "end")>>, <<P(1), P(5), P(7)>>)
    [] w = "lam" -> Nd("Block", <<Lam, Paren("(", Frags, ")"), Sp, K("begin_l", "{"), Sp, Zc, Sp, K("end_l", "}")>>, <<P(1), P(2), P(6)>>)
    [] w = "lamdo" -> Nd("Block", <<Lam, Paren("(", Frags, ")"), Sp, K("begin_l", "do"), Sp, Zc, T("\n"), K("end_l", "end")>>, <<P(1), P(2), P(6)>>)
    [] w = "lambare" -> Nd("Block", <<Lam, Sp, Bare(Frags), Sp, K("begin_l", "{"), Sp, Zc, Sp, K("end_l", "}")>>, <<P(1), P(3), P(7)>>)
    [] w = "lambaredo" -> Nd("Block", <<Lam, Sp, Bare(Frags), Sp, K("begin_l", "do"), Sp, Zc, Sp, K("end_l", "end")>>, <<P(1), P(3), P(7)>>)
Applicable(w) ==
  CASE w \in {"def", "defs", "endless"} -> TRUE
    [] w = "defbare" -> BareOk
    [] w = "comma" -> ph = 1
    [] w \in {"lambare", "lambaredo"} -> BareOk /\ ~Has({"ablk"}) /\ Last \notin {"kw", "arest", "akwrest"}
    [] w \in {"brace", "do", "shadow", "nl"} -> ~Has({"fwd", "ablk"}) /\ (w = "nl" => Len(items) > 0 /\ Last \notin {"kw", "arest", "akwrest"}) /\ (w = "shadow" => Last # "kw" /\ Len(items) > 0)
    [] OTHER -> ~Has({"fwd", "ablk"})
Dup(w) == HasDup(AllNames(items) \o (IF w = "shadow" THEN <<"u", "v">> ELSE <<>>))
RestThenFwd == ph = 8 /\ Has({"rest", "arest"})
Judge(w) ==
  \E f \in {Build(w)} :
    IF ~ok THEN Out([s |-> f.s, ok |-> FALSE])
    ELSE LET es == (IF Dup(w) THEN {"DuplicatedArgumentName"} ELSE {}) \cup (IF Circular THEN {"CircularArgumentReference"} ELSE {}) \cup (IF RestThenFwd THEN {"ForwardArgAfterRestarg"} ELSE {})
         IN IF es # {} THEN Out([s |-> f.s, e |-> es]) ELSE CaseXL(f)
(* a name of the wrong sort at the end of the list *)
BadCase(b) ==
  LET pre == IF items = <<>> THEN "" ELSE Text(Sepd(Frags, 1)) \o ", "
      t == pre \o Bad[b][1]
  IN \A s \in {"def mm(" \o t \o ") end", "mm { |" \o t \o "| zz }", "->(" \o t \o ") { zz }"} :
        IF Bad[b][2] = "" THEN Out([s |-> s, ok |-> FALSE]) ELSE Out([s |-> s, err |-> <<Bad[b][2]>>])
Emit == /\ \A w \in Where : (items # <<>> \/ w \in {"def", "defs", "endless", "lam", "lamdo"}) /\ (~ok => w \in {"def", "brace", "lam"}) => (Applicable(w) => Judge(w))
        /\ (ok /\ ph <= 2 /\ ~Dup("") /\ ~Circular /\ n < 3 => \A b \in DOMAIN Bad : BadCase(b))
        /\ (ok /\ ph \in 1..7 /\ ~Circular /\ ~Has({"ablk"}) /\ Last # "kw" =>
              \A x \in {Fresh(1), "_u"} : LET l == Text(Sepd(Frags, 1)) IN
                 \A t \in {"mm { |" \o l \o ";" \o x \o "| zz }", "->(" \o l \o "; " \o x \o ") { zz }", "mm do |" \o l \o "; k, " \o x \o "| zz end"} :
                    Out(IF HasDup(AllNames(items) \o <<x>>) THEN [s |-> t, e |-> {"DuplicatedArgumentName"}] ELSE [s |-> t, ok |-> TRUE]))
=============================================================================
