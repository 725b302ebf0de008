------------------------------- MODULE DoBind -------------------------------
(* C17.  To which call a block belongs.  Programs are derived from the inside out.  A `do` after the  *)
(* innermost call is either its own (allowed only where no command call or loop header encloses it in *)
(* the same region) or pending: then it belongs to the outermost command call of the region, or is    *)
(* the loop's.  Brackets, parentheses, braces and bodies start a new region (begin and do bodies of lambdas only with  *)
(* respect to commands, not to loop headers).  Braces and lambdas always take their own.              *)
EXTENDS Ruby
CONSTANTS Leafs, Frames, MaxSteps
VARIABLES f, pend, dx, n

lv2(x) == IF x.lv <= 2 THEN 2 ELSE 4
DoB(call, body) == C(3, "Block", <<call, Sp, K("begin_l", "do"), Sp, body, Sp, K("end_l", "end")>>, <<P(1), Nil, P(5)>>)
DoP(call, body) == C(3, "Block", <<call, Sp, K("begin_l", "do"), Sp, Arg1("p"), Sp, body, T("\n"), K("end_l", "end")>>, <<P(1), P(5), P(7)>>)
DoE(call) == C(3, "Block", <<call, Sp, K("begin_l", "do"), Sp, K("end_l", "end")>>, <<P(1), Nil, Nil>>)
Prim(x) == [x EXCEPT !.lv = 1]
Br(call) == C(1, "Block", <<call, Sp, K("begin_l", "{"), Sp, b, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)
XN(dot) == C(1, IF dot = "&." THEN "CSend" ELSE "Send", <<Id("x"), K("dot_l", dot), K("selector_l", "n")>>, <<P(1), S("n"), Empty>>)
XN1 == C(1, "Send", <<Id("x"), K("dot_l", "."), K("selector_l", "n"), K("begin_l", "("), b, K("end_l", ")")>>, <<P(1), S("n"), PL(<<5>>)>>)
Sup1 == C(1, "Super", <<K("keyword_l", "super"), K("begin_l", "("), b, K("end_l", ")")>>, <<PL(<<3>>)>>)
Lam(l) == CASE l = "lam" -> C(1, "Block", <<LambdaN, Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(1), Nil, P(5)>>)
            [] l = "lamp" -> C(1, "Block", <<LambdaN, PArg1("p"), Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(1), P(2), P(6)>>)
            [] l = "lamb" -> C(1, "Block", <<LambdaN, Sp, BArg1("p"), Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(1), P(3), P(7)>>)
            [] l = "lambr" -> C(1, "Block", <<LambdaN, Sp, K("begin_l", "{"), Sp, b, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)
Call(l) == CASE l = "n" -> Id("n") [] l = "n1" -> Call1("n", b) [] l = "xn" -> XN(".") [] l = "xn1" -> XN1 [] l = "x&n" -> XN("&.") [] l = "x::n" -> XN("::")
             [] l = "super" -> Kw("ZSuper", "super") [] l = "super1" -> Sup1
             [] l = "idx" -> C(1, "Send", <<C(1, "Index", <<Id("x"), K("begin_l", "["), b, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>), K("dot_l", "."), K("selector_l", "n")>>, <<P(1), S("n"), Empty>>)
Plain(l) == CASE l = "1" -> b [] l = "@c" -> c [] l = "K" -> kN [] l = "str" -> StrN("\"", "x", "\"") [] l = "nil" -> Kw("Nil", "nil")

(* <<fragment, pending, exposed do>> *)
Both == {"cmd", "loop"}     \* what an exposed do must not stand in
Starts ==
  UNION {IF l \in {"lam", "lamp", "lamb", "lambr"} THEN {<<Lam(l), FALSE, {}>>, <<Lam(l), TRUE, {}>>}
         ELSE IF l \in {"1", "@c", "K", "str", "nil"} THEN {<<Plain(l), FALSE, {}>>, <<Plain(l), TRUE, {}>>}
         ELSE {<<Call(l), FALSE, {}>>, <<Call(l), TRUE, {}>>, <<Prim(DoB(Call(l), b)), FALSE, Both>>, <<Br(Call(l)), FALSE, {}>>, <<Br(Call(l)), TRUE, {}>>} : l \in Leafs}

(* ---- frames ---- *)
Cmd == {"m", "m2", "x.m", "x&.m", "x::m", "sup", "mk", "mk2", "ms", "m**", "x.m2", "x::M", "M", "m=>"}
CmdF(k, y) ==
  CASE k = "m" -> Cmd1("m", y)
    [] k = "M" -> Cmd1("M", y)
    [] k = "m2" -> Cmd2("m", a, y)
    [] k = "ms" -> Cmd2("m", a, SplatN(y))
    [] k = "x.m" -> C(3, "Send", <<Id("x"), K("dot_l", "."), K("selector_l", "m"), Sp, y>>, <<P(1), S("m"), PL(<<5>>)>>)
    [] k = "x.m2" -> C(3, "Send", <<Call1("x", b), K("dot_l", "."), K("selector_l", "m"), Sp, c, T(", "), y>>, <<P(1), S("m"), PL(<<5, 7>>)>>)
    [] k = "x&.m" -> C(3, "CSend", <<Id("x"), K("dot_l", "&."), K("selector_l", "m"), Sp, y>>, <<P(1), S("m"), PL(<<5>>)>>)
    [] k = "x::m" -> C(3, "Send", <<Id("x"), K("dot_l", "::"), K("selector_l", "m"), Sp, y>>, <<P(1), S("m"), PL(<<5>>)>>)
    [] k = "x::M" -> C(3, "Send", <<Id("x"), K("dot_l", "::"), K("selector_l", "M"), Sp, y>>, <<P(1), S("M"), PL(<<5>>)>>)
    [] k = "sup" -> C(3, "Super", <<K("keyword_l", "super"), Sp, y>>, <<PL(<<3>>)>>)
    [] k = "mk" -> Cmd1("m", Kws(LPair("k", y)))
    [] k = "mk2" -> Cmd2("m", a, Kws2(LPair("k", b), LPair("l", y)))
    [] k = "m=>" -> Cmd1("m", Kws(Pair(SymN("k"), y)))
    [] k = "m**" -> Cmd2("m", a, Kws(KwSplat(y)))
(* frames without effect whose text ends with their operand *)
PassF(k, y) ==
  CASE k = "y=" -> C(lv2(y), "Lvasgn", <<K("name_l", "y"), Sp, K("operator_l", "="), Sp, y>>, <<S("y"), P(5)>>)
    [] k = "@y=" -> C(lv2(y), "Ivasgn", <<K("name_l", "@y"), Sp, K("operator_l", "="), Sp, y>>, <<S("@y"), P(5)>>)
    [] k = "x.y=" -> C(lv2(y), "Send", <<Id("x"), K("dot_l", "."), K("selector_l", "y"), Sp, K("operator_l", "="), Sp, y>>, <<P(1), S("y="), PL(<<7>>)>>)
    [] k = "y+=" -> C(lv2(y), "OpAsgn", <<LvT("y"), Sp, K("operator_l", "+="), Sp, y>>, <<P(1), S("+"), P(5)>>)
    [] k = "x[]||=" -> C(lv2(y), "OrAsgn", <<C(1, "IndexAsgn", <<Id("x"), K("begin_l", "["), b, K("end_l", "]")>>, <<P(1), PL(<<3>>), Nil>>), Sp, K("operator_l", "||="), Sp, y>>, <<P(1), P(5)>>)
    [] k = "+" -> BinOp("+", a, y)
    [] k = "==" -> BinOp("==", a, y)
    [] k = "&&" -> C(2, "And", <<a, Sp, K("operator_l", "&&"), Sp, y>>, <<P(1), P(5)>>)
    [] k = "?:" -> C(2, "IfTernary", <<a, Sp, K("question_l", "?"), Sp, b, Sp, K("colon_l", ":"), Sp, y>>, <<P(1), P(5), P(9)>>)
    [] k = "|" -> BinOp("|", b, y)
    [] k = "!" -> C(IF y.lv <= 2 THEN 1 ELSE 3, "Send", <<K("selector_l", "!"), y>>, <<P(2), S("!"), Empty>>)
    [] k = "defined" -> C(2, "Defined", <<K("keyword_l", "defined?"), Sp, y>>, <<P(3)>>)
IsCommand == f.lv = 3 /\ f.n.ty \in {"Send", "CSend", "Super", "Block"} /\ ~HasPrefix(f, "!") /\ ~HasPrefix(f, "not ")
PassOk(k) == CASE k \in {"y=", "@y=", "x.y=", "y+=", "x[]||="} -> f.lv <= 2 \/ IsCommand
               [] k = "!" -> f.lv = 1 \/ IsCommand
               [] OTHER -> f.lv = 1
(* frames that take statements and are only used where no command call or loop surrounds them *)
StmtF(k, y) ==
  CASE k = "return" -> C(3, "Return", <<K("keyword_l", "return"), Sp, y>>, <<PL(<<3>>)>>)
    [] k = "and" -> C(3, "And", <<a, Sp, K("operator_l", "and"), Sp, y>>, <<P(1), P(5)>>)
    [] k = "not" -> C(3, "Send", <<K("selector_l", "not"), Sp, y>>, <<P(3), S("!"), Empty>>)
    [] k = "if" -> C(1, "If", <<K("keyword_l", "if"), Sp, y, K("begin_l", ";"), Sp, b, T("; "), K("end_l", "end")>>, <<P(3), P(6), Nil>>)
    [] k = "case" -> C(1, "Case", <<K("keyword_l", "case"), Sp, y, T("; "), C(4, "When", <<K("keyword_l", "when"), Sp, b, Sp, K("begin_l", "then"), Sp, c>>, <<PL(<<3>>), P(7)>>), T("; "), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>)
    [] k = "mod" -> C(4, "IfMod", <<y, Sp, K("keyword_l", "if"), Sp, a>>, <<P(5), P(1), Nil>>)
    [] k = "ifmod" -> C(4, "IfMod", <<a, Sp, K("keyword_l", "if"), Sp, y>>, <<P(5), P(1), Nil>>)
    [] k = "seq" -> C(5, "Begin", <<y, T("; "), c>>, <<PL(<<1, 3>>)>>)
(* a call on what has been built *)
ChainF(k, y) ==
  CASE k = ".q" -> C(y.lv, "Send", <<y, K("dot_l", "."), K("selector_l", "q")>>, <<P(1), S("q"), Empty>>)
    [] k = "&.q" -> C(y.lv, "CSend", <<y, K("dot_l", "&."), K("selector_l", "q")>>, <<P(1), S("q"), Empty>>)
    [] k = ".q1" -> C(y.lv, "Send", <<y, K("dot_l", "."), K("selector_l", "q"), K("begin_l", "("), b, K("end_l", ")")>>, <<P(1), S("q"), PL(<<5>>)>>)
    [] k = "::q1" -> C(y.lv, "Send", <<y, K("dot_l", "::"), K("selector_l", "q"), K("begin_l", "("), b, K("end_l", ")")>>, <<P(1), S("q"), PL(<<5>>)>>)
    [] k = ".q{" -> [Br(C(1, "Send", <<y, K("dot_l", "."), K("selector_l", "q")>>, <<P(1), S("q"), Empty>>)) EXCEPT !.lv = y.lv]
    [] k = ".q c" -> C(3, "Send", <<y, K("dot_l", "."), K("selector_l", "q"), Sp, c>>, <<P(1), S("q"), PL(<<5>>)>>)
    [] k = ".q do" -> DoB(C(1, "Send", <<y, K("dot_l", "."), K("selector_l", "q")>>, <<P(1), S("q"), Empty>>), b)
    [] k = ".q c do" -> DoB(C(3, "Send", <<y, K("dot_l", "."), K("selector_l", "q"), Sp, c>>, <<P(1), S("q"), PL(<<5>>)>>), b)
(* new regions; those of `args` take argument expressions only *)
ResetF(k, y) ==
  CASE k = "(" -> C(1, "Begin", <<K("begin_l", "("), y, K("end_l", ")")>>, <<PL(<<2>>)>>)
    [] k = "[" -> C(1, "Array", <<K("begin_l", "["), y, T(", "), b, K("end_l", "]")>>, <<PL(<<2, 4>>)>>)
    [] k = "z(" -> Call1("z", y)
    [] k = "z(," -> Call2("z", a, y)
    [] k = "z[" -> C(1, "Index", <<Call1("z", b), K("begin_l", "["), y, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>)
    [] k = "z({" -> Call1("z", C(1, "Hash", <<K("begin_l", "{"), LPair("k", y), K("end_l", "}")>>, <<PL(<<2>>)>>))
    [] k = "str" -> C(1, "Dstr", <<K("begin_l", "\""), C(1, "Begin", <<K("begin_l", "#{"), y, K("end_l", "}")>>, <<PL(<<2>>)>>), K("end_l", "\"")>>, <<PL(<<2>>)>>)
    [] k = "begin" -> C(1, "KwBegin", <<K("begin_l", "begin"), T("; "), y, T("; "), c, T("; "), K("end_l", "end")>>, <<PL(<<3, 5>>)>>)
    [] k = "q{" -> C(1, "Block", <<Call1("q", b), Sp, K("begin_l", "{"), Sp, y, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)
    [] k = "q{p" -> C(1, "Block", <<Id("q"), Sp, K("begin_l", "{"), Sp, Arg1("p"), Sp, y, Sp, K("end_l", "}")>>, <<P(1), P(5), P(7)>>)
    [] k = "->{" -> C(1, "Block", <<LambdaN, Sp, K("begin_l", "{"), Sp, y, Sp, K("end_l", "}")>>, <<P(1), Nil, P(5)>>)
    [] k = "->do" -> C(1, "Block", <<LambdaN, Sp, K("begin_l", "do"), T("\n"), y, T("\n"), K("end_l", "end")>>, <<P(1), Nil, P(5)>>)
    [] k = "->()do" -> C(1, "Block", <<LambdaN, PArg1("p"), Sp, K("begin_l", "do"), Sp, y, Sp, K("end_l", "end")>>, <<P(1), P(2), P(6)>>)
    [] k = "->(=" -> C(1, "Block", <<LambdaN, C(1, "Args", <<K("begin_l", "("), C(2, "Optarg", <<K("name_l", "p"), Sp, K("operator_l", "="), Sp, y>>, <<S("p"), P(5)>>), K("end_l", ")")>>, <<PL(<<2>>)>>), Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(1), P(2), P(6)>>)
    [] k = "def" -> C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "d"), T("; "), y, T("; "), K("end_l", "end")>>, <<S("d"), Nil, P(5)>>)
    [] k = "sclass" -> C(1, "SClass", <<K("keyword_l", "class"), Sp, K("operator_l", "<<"), Sp, Kw("Self_", "self"), T("; "), y, T("; "), K("end_l", "end")>>, <<P(5), P(7)>>)
Stmts == {"(", "str", "begin", "q{", "q{p", "->{", "->do", "->()do", "def", "sclass"}
(* a do block around what has been built: the new region's own do is exposed *)
DoF(k, y) == CASE k = "q do" -> Prim(DoB(Id("q"), y)) [] k = "q1 do" -> Prim(DoP(Call1("q", b), y)) [] k = "xq do" -> Prim(DoP(C(1, "Send", <<Id("x"), K("dot_l", "."), K("selector_l", "q")>>, <<P(1), S("q"), Empty>>), y))
LoopF(k, y) ==
  CASE k = "while" -> C(1, "While", <<K("keyword_l", "while"), Sp, y, Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7)>>)
    [] k = "until" -> C(1, "Until", <<K("keyword_l", "until"), Sp, y, Sp, K("begin_l", "do"), T("\n"), b, T("\n"), K("end_l", "end")>>, <<P(3), P(7)>>)
    [] k = "for" -> C(1, "For", <<K("keyword_l", "for"), Sp, LvT("i"), Sp, K("operator_l", "in"), Sp, y, Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7), P(11)>>)
    [] k = "whilenl" -> C(1, "While", <<K("keyword_l", "while"), Sp, y, K("begin_l", "\n"), b, T("\n"), K("end_l", "end")>>, <<P(3), P(5)>>)
(* bodies of loops: whether the surrounding command or header still matters there is left open, so    *)
(* these are only built where a region starts (dx marks anything that depends on it)                  *)
BodyF(k, y) ==
  CASE k = "wbody" -> C(1, "While", <<K("keyword_l", "while"), Sp, a, Sp, K("begin_l", "do"), Sp, y, Sp, K("end_l", "end")>>, <<P(3), P(7)>>)
    [] k = "fbody" -> C(1, "For", <<K("keyword_l", "for"), Sp, LvT("i"), Sp, K("operator_l", "in"), Sp, a, Sp, K("begin_l", "do"), Sp, y, Sp, K("end_l", "end")>>, <<P(3), P(7), P(11)>>)
    [] k = "ibody" -> C(1, "If", <<K("keyword_l", "if"), Sp, a, Sp, K("begin_l", "then"), Sp, y, Sp, K("end_l", "end")>>, <<P(3), P(7), Nil>>)
    [] k = "inl" -> C(1, "If", <<K("keyword_l", "if"), Sp, a, K("begin_l", "\n"), y, T("\n"), K("end_l", "end")>>, <<P(3), P(5), Nil>>)
    [] k = "ebody" -> LET e == K("else_l", "else") IN C(1, "If", <<K("keyword_l", "if"), Sp, a, Sp, K("begin_l", "then"), Sp, b, Sp, e, Sp, y, Sp, K("end_l", "end")>>, <<P(3), P(7), P(11)>>)
    [] k = "hbody" -> C(1, "Case", <<K("keyword_l", "case"), Sp, a, T("\n"), C(4, "When", <<K("keyword_l", "when"), Sp, b, Sp, K("begin_l", "then"), Sp, y>>, <<PL(<<3>>), P(7)>>), T("\n"), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>)
    [] k = "nbody" -> C(1, "CaseMatch", <<K("keyword_l", "case"), Sp, a, T("\n"), C(4, "InPattern", <<K("keyword_l", "in"), Sp, b, Sp, K("begin_l", "then"), Sp, y>>, <<P(3), Nil, P(7)>>), T("\n"), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>)
    [] k = "ubody" -> C(1, "Until", <<K("keyword_l", "until"), Sp, a, K("begin_l", ";"), Sp, y, T("; "), K("end_l", "end")>>, <<P(3), P(6)>>)
Bodies == {"wbody", "fbody", "ibody", "inl", "ebody", "hbody", "nbody", "ubody"}
(* a do right after a name that begins a statement is that name's, even inside a command's argument *)
CmdStart == n = 0 /\ f.n.ty = "Block" /\ f.n.v[1][2].ty = "Send" /\ ~Present(f.n.v[1][2].v[1]) /\ f.n.v[1][2].v[3][2] = <<>>
IsCmd(k) == k \in Cmd
SoleArg == {"m", "M", "x.m", "x&.m", "x::m", "x::M", "sup"}
Cond1(y) == y       \* headers here never hold rewritten conditions
Blocky == f.n.ty = "Block" /\ f.lv = 3
CmdArgOk(k) == (f.lv <= 2 \/ (f.lv = 3 /\ k \in SoleArg /\ f.n.ty \in {"Send", "CSend", "Super"} /\ SubSeq(f.s, 1, 1) # "!"))
               /\ SubSeq(f.s, 1, 1) \notin {"[", "(", "!", "-", ":", "\""} /\ (k # "ms" \/ f.lv = 1) /\ (k # "m**" \/ f.lv = 1)
               /\ ~ModFirst(f)
(* a call chained on a command with a do block: its place under return is left open *)
RECURSIVE RecvOf(_)
RecvOf(x) == IF x.ty = "Block" THEN RecvOf(x.v[1][2]) ELSE IF x.ty \in {"Send", "CSend"} THEN x.v[1] ELSE <<"-">>
RECURSIVE ChainedN(_)
ChainedN(x) == LET r == RecvOf(x) IN Present(r) /\ (r[2].ty = "Block" \/ ChainedN(r[2]))
Chained == f.lv = 3 /\ ChainedN(f.n)
Go(g, p, d) == f' = g /\ pend' = p /\ dx' = d /\ n' = n + 1
Init == n = 0 /\ \E s \in Starts : f = s[1] /\ pend = s[2] /\ dx = s[3]
Next ==
  /\ n < MaxSteps
  /\ \E k \in Frames : (Val(f) \/ k \in Stmts \cup {"mod", "seq", "q do", "q1 do", "xq do"} \cup Bodies) /\
      (
       \/ /\ k \in Cmd /\ "cmd" \notin dx /\ CmdArgOk(k)
          /\ \E g \in {CmdF(k, f)} :
               IF pend THEN Go(g, TRUE, dx) \/ Go(DoB(g, b), FALSE, Both) \/ Go(DoP(g, c), FALSE, Both) \/ Go(DoE(g), FALSE, Both)
               ELSE Go(g, FALSE, dx)
       \/ /\ k \in {"y=", "@y=", "x.y=", "y+=", "x[]||=", "+", "==", "&&", "?:", "|", "!", "defined"} /\ PassOk(k) /\ (pend => f.lv <= 2) /\ (k = "defined" => ~ModFirst(f))
          /\ Go(PassF(k, f), pend, dx)
       \/ /\ k \in {"return", "and", "not", "if", "case", "mod", "ifmod", "seq"} /\ ~pend /\ f.lv <= (IF k \in {"mod", "seq"} THEN 4 ELSE 3)
          /\ f.n.ty # "Return" /\ (k = "return" => ~Chained /\ f.n.ty \notin {"And"} /\ (f.n.ty = "Send" => f.n.v[2][2] # "!") /\ (f.lv <= 2 \/ f.n.ty \in {"Block", "Send", "CSend", "Super"}) /\ ~ModFirst(f)) /\ (k \in {"and", "not"} => f.n.ty # "And") /\ (k = "not" => ~ModFirst(f))
          /\ Go(StmtF(k, f), FALSE, Both)
       \/ /\ k \in {".q", "&.q", ".q1", "::q1", ".q{", ".q c", ".q do", ".q c do"} /\ ~pend /\ f.n.ty = "Block"
          /\ Go(ChainF(k, f), FALSE, IF k \in {".q do", ".q c do"} \/ f.lv = 3 THEN Both ELSE dx)
       \/ /\ k \in {"(", "[", "z(", "z(,", "z[", "z({", "str", "begin", "q{", "q{p", "->{", "->do", "->()do", "->(=", "def", "sclass"} /\ ~pend
          /\ f.lv <= (IF k \in Stmts THEN 4 ELSE 2) /\ (k \in {"begin"} => f.n.ty # "Begin") /\ (k = "sclass" => f.n.ty # "Return")
          /\ \E r \in {TRUE, FALSE} : Go(ResetF(k, f), r, IF k \in {"begin", "->do", "->()do"} THEN dx \cap {"loop"} ELSE {})
       \/ /\ k \in {"q do", "q1 do", "xq do"} /\ ~pend /\ f.lv <= 4 /\ Go(DoF(k, f), FALSE, Both)
       \/ /\ k \in {"while", "until", "for", "whilenl"} /\ ~pend /\ "loop" \notin dx /\ f.lv <= 3 /\ f.n.ty # "Return"
          /\ \E r \in {TRUE, FALSE} : Go(LoopF(k, f), r, dx)
       \/ /\ k \in Bodies /\ ~pend /\ f.lv <= 4 /\ Go(BodyF(k, f), FALSE, IF CmdStart THEN {"loop"} ELSE Both)
      )
(* blocks that have nowhere to go, or come twice *)
Homeless == {"n {} do end", "n {} {}", "m 1 {}", "m @c {}", "-> do end do end", "-> {} {}", "1 do end", "@c {}", "while n do end do end", "m n do end do end", "m(1) {} do end", "m n {} {}",
             "yield n do end", "yield(n) {}", "yield do end", "yield {}", "x = 1 do end", "x = @c {}", "[n] do end", "(n) do end", "(n) {}", "\"s\" do end", "n.q = 1 do end", "m(n do end", "while (n do) end",
             "super {} {}", "nil {}", "self do end", "defined?(n) {}", "x&.y = 1 do end", "m = n {} do end"}
Twice == {"m(&x) do end", "m(&x) {}", "m &x do end", "m a, &x do end", "y.m(&x) {}", "y.m &x do end", "y&.m(1, &x) do end", "super(&x) {}", "super &x do end", "x[&y] {}", "x[1, &y] do end", "y::m(&x) {}", "y.(&x) {}", "m n, &x do |p| end", "z = m &x do end",
          "(m(&x) {})", "m(m(&x) {})", "while m(&x) {} do end"}
Rejects == /\ \A t \in Homeless : Out([s |-> t, ok |-> FALSE]) /\ Out([s |-> "def d; " \o t \o "; end", ok |-> FALSE])
           /\ \A t \in Twice : Out([s |-> t, err |-> <<"BlockAndBlockArgGiven">>])
(* nothing is left pending in a finished program *)
Emit == (~pend => CaseXL(f)) /\ (n = 0 => Rejects)
=============================================================================
