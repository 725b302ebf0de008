-------------------------------- MODULE Names -------------------------------
(* C03, C04, C24.  Names of variables, constants and methods, as an automaton over characters.  The   *)
(* state is the text read and the kind of name it is so far; in every state the text is used in every *)
(* position where a name can stand: as a value, followed by other code, as target of assignments, as  *)
(* symbol, label, method name, parameter, in alias, undef, class and interpolation.                   *)
EXTENDS Ruby
CONSTANTS Low, Up, Dig, Odd, MaxLen
VARIABLES t, k
Specials == {"~", "*", "$", "?", "!", "@", "/", "\\", ";", ",", ".", "=", ":", "<", ">", "\""}
Backs == {"&", "`", "'", "+"}
Never == {"%", "(", ")", "{", "}", "[", "]", "|", "^", "#", " "}
Chars == Low \cup Up \cup Dig \cup Odd
Ident(x) == x \in Low \cup Up \cup Dig
(* how a character continues a name: the kind of the longer name, or "" if it does not belong to it *)
Step(q, x) ==
  CASE q = "" -> IF x \in Low THEN "loc" ELSE IF x \in Up THEN "const" ELSE IF x = "@" THEN "@" ELSE IF x = "$" THEN "$" ELSE ""
    [] q \in {"loc", "const"} -> IF Ident(x) THEN q ELSE IF x \in {"?", "!"} THEN "fid" ELSE IF x = "=" THEN "set" ELSE ""
    [] q = "@" -> IF x = "@" THEN "@@" ELSE IF x \in Dig THEN "ivar1" ELSE IF Ident(x) THEN "ivar" ELSE ""
    [] q = "@@" -> IF x \in Dig THEN "cvar1" ELSE IF Ident(x) THEN "cvar" ELSE ""
    [] q \in {"ivar", "cvar", "gvar"} -> IF Ident(x) THEN q ELSE ""
    [] q = "nth" -> IF x \in Dig THEN "nth" ELSE ""
    [] q = "$" -> IF x = "-" THEN "$-" ELSE IF x \in Dig \ {"0"} THEN "nth" ELSE IF Ident(x) THEN "gvar" ELSE IF x \in Specials THEN "gsp" ELSE IF x \in Backs THEN "back" ELSE IF x \in Never THEN "gbad" ELSE ""
    [] q = "$-" -> IF Ident(x) THEN "gsp" ELSE ""
    [] OTHER -> ""
Gs == {"gvar", "gsp"}
Vars == {"ivar", "cvar", "nth", "back"} \cup Gs
Names == {"loc", "const", "fid"} \cup Vars
N == IF t = "$'" THEN "$\\x27" ELSE IF t = "$\\" THEN "$\\x5c" ELSE t      \* the text as observed in values
LitN(ty) == C(1, ty, <<T(t)>>, <<S(N)>>)
SymT == C(1, "Sym", <<K("begin_l", ":"), T(t)>>, <<S(N)>>)
Drop1(x) == SubSeq(x, 2, Len(x))
V == CASE k \in {"loc", "fid"} -> Id(t) [] k = "const" -> ConstN(t) [] k = "ivar" -> LitN("Ivar") [] k = "cvar" -> LitN("Cvar")
       [] k \in Gs -> LitN("Gvar") [] k = "back" -> LitN("BackRef") [] k = "nth" -> C(1, "NthRef", <<T(t)>>, <<S(Drop1(t))>>)
TgTy == CASE k = "loc" -> "Lvasgn" [] k = "const" -> "Casgn" [] k = "ivar" -> "Ivasgn" [] k = "cvar" -> "Cvasgn" [] OTHER -> "Gvasgn"
Tgt == IF k = "const" THEN C(1, "Casgn", <<K("name_l", t)>>, <<Nil, S(t), Nil>>) ELSE C(1, TgTy, <<K("name_l", t)>>, <<S(N), Nil>>)
Asgn == IF k = "const" THEN C(2, "Casgn", <<K("name_l", t), Sp, K("operator_l", "="), Sp, b>>, <<Nil, S(t), P(5)>>) ELSE C(2, TgTy, <<K("name_l", t), Sp, K("operator_l", "="), Sp, b>>, <<S(N), P(5)>>)
Good(f) == CaseXL(f)
Bad(s, e) == IF e = "" THEN Out([s |-> s, ok |-> FALSE]) ELSE Out([s |-> s, ok |-> FALSE, err |-> <<e>>])
Hash1(p) == C(1, "Hash", <<K("begin_l", "{"), p, K("end_l", "}")>>, <<PL(<<2>>)>>)
Def0 == C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", t), C(1, "Args", <<K("begin_l", "("), C(1, "Arg", <<T("p")>>, <<S("p")>>), K("end_l", ")")>>, <<PL(<<2>>)>>), T("; "), K("end_l", "end")>>, <<S(t), P(4), Nil>>)
DefS0 == C(1, "Defs", <<K("keyword_l", "def"), Sp, Kw("Self_", "self"), K("operator_l", "."), K("name_l", t), C(1, "Args", <<K("begin_l", "("), C(1, "Arg", <<T("p")>>, <<S("p")>>), K("end_l", ")")>>, <<PL(<<2>>)>>), T("; "), K("end_l", "end")>>, <<P(3), S(t), P(6), Nil>>)
DefP == C(1, "Def", <<K("keyword_l", "def"), Sp, K("name_l", "m"), C(1, "Args", <<K("begin_l", "("), C(1, "Arg", <<T(t)>>, <<S(t)>>), K("end_l", ")")>>, <<PL(<<2>>)>>), T("; "), Lit("Lvar", t), T("; "), K("end_l", "end")>>, <<S("m"), P(4), P(6)>>)
BlkP == C(1, "Block", <<Id("m"), Sp, K("begin_l", "{"), Sp, C(1, "Args", <<K("begin_l", "|"), C(1, "Procarg0", <<C(1, "Arg", <<T(t)>>, <<S(t)>>)>>, <<PL(<<1>>)>>), K("end_l", "|")>>, <<PL(<<2>>)>>), Sp, Lit("Lvar", t), Sp, K("end_l", "}")>>, <<P(1), P(5), P(7)>>)
Dot0(d) == C(1, IF d = "&." THEN "CSend" ELSE "Send", <<c, K("dot_l", d), K("selector_l", t)>>, <<P(1), S(t), Empty>>)
Scope0 == C(1, "Const", <<kN, K("double_colon_l", "::"), K("name_l", t)>>, <<P(1), S(t)>>)
Colon0 == C(1, "Send", <<kN, K("dot_l", "::"), K("selector_l", t)>>, <<P(1), S(t), Empty>>)
Al(x, y) == C(4, "Alias", <<K("keyword_l", "alias"), Sp, x, Sp, y>>, <<P(3), P(5)>>)
Class0 == C(1, "Class", <<K("keyword_l", "class"), Sp, ConstN(t), T("; "), K("end_l", "end")>>, <<P(3), Nil, Nil>>)
Module0 == C(1, "Module", <<K("keyword_l", "module"), Sp, ConstN(t), T("; "), K("end_l", "end")>>, <<P(3), Nil>>)
(* a name that ends in `?', `!' or a special character may not touch what would continue it *)
Interp(q, ty) == C(1, ty, <<K("begin_l", q), BareStr("x"), T("#"), V, BareStr(" "), K("end_l", q)>>, <<PL(<<2, 4, 5>>)>>)
ArgErr == CASE k = "const" -> "ConstArgument" [] k = "ivar" -> "IvarArgument" [] k = "cvar" -> "CvarArgument" [] k \in Gs -> "GvarArgument" [] OTHER -> ""
NameErr == CASE k = "@" -> "IvarWithoutId" [] k = "@@" -> "CvarWithoutId" [] k = "ivar1" -> "InvalidIvarName" [] k = "cvar1" -> "InvalidCvarName" [] k = "$" -> "GvarWithoutId" [] k = "$-" -> "InvalidGvarName" [] k = "gbad" -> IF t = "$ " THEN "GvarWithoutId" ELSE "InvalidGvarName"
NumP(x) == Len(x) = 2 /\ SubSeq(x, 1, 1) = "_" /\ SubSeq(x, 2, 2) \in {"1", "2", "3", "4", "5", "6", "7", "8", "9"}
(* directly followed by an operator *)
TOp(op, l, r) == C(2, "Send", <<l, K("selector_l", op), r>>, <<P(1), S(op), PL(<<3>>)>>)
TPair(l, r) == Hash1(C(2, "Pair", <<l, K("operator_l", "=>"), r>>, <<P(1), P(3)>>))
SetT == C(1, "Sym", <<K("begin_l", ":"), T(t \o "=")>>, <<S(t \o "=")>>)
Emit ==
  /\ k \in Names \ {"fid"} =>
     /\ \A op \in {"==", "===", "=~", "!=", "<=>", "*", "+", "<<", "|"} : Good(TOp(op, V, c)) /\ (IF op \in {"!="} THEN TRUE ELSE Good(TOp(op, SymT, c)))
     /\ Good(TPair(V, b)) /\ Good(TPair(SymT, b)) /\ Good(C(2, "And", <<V, K("operator_l", "&&"), c>>, <<P(1), P(3)>>)) /\ Good(C(2, "Irange", <<V, K("operator_l", ".."), b>>, <<P(1), P(3)>>))
     /\ (k \in {"loc", "const"} => Good(TPair(SetT, b)) /\ Good(C(1, "Array", <<K("begin_l", "["), SetT, T(","), b, K("end_l", "]")>>, <<PL(<<2, 4>>)>>)))
     /\ (k \notin {"nth", "back"} /\ ~NumP(t) => Good(C(2, "OpAsgn", <<Tgt, K("operator_l", "+="), b>>, <<P(1), S("+"), P(3)>>)) /\ Good(C(2, "OrAsgn", <<Tgt, K("operator_l", "||="), b>>, <<P(1), P(3)>>))
          /\ Good(IF k = "const" THEN C(2, "Casgn", <<K("name_l", t), K("operator_l", "="), b>>, <<Nil, S(t), P(3)>>) ELSE C(2, TgTy, <<K("name_l", t), K("operator_l", "="), b>>, <<S(N), P(3)>>)))
  /\ k \in Names =>
     /\ Good(C(1, "CSend", <<V, K("dot_l", "&."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>)) /\ Good(C(1, "Const", <<V, K("double_colon_l", "::"), K("name_l", "K")>>, <<P(1), S("K")>>))
     /\ Good(CR(5, "Begin", <<V, T("#c\n"), c, T("#")>>, <<PL(<<1, 3>>)>>, 1, 3)) /\ Good(C(1, "Array", <<K("begin_l", "["), V, T(","), V, T(",\n"), SymT, K("end_l", "]")>>, <<PL(<<2, 4, 6>>)>>))
  /\ k \in Names =>
     /\ Good(V)
     /\ Good(C(4, "IfMod", <<V, Sp, K("keyword_l", "if"), Sp, b>>, <<P(5), P(1), Nil>>))
     /\ Good(C(2, "IfTernary", <<V, Sp, K("question_l", "?"), Sp, b, Sp, K("colon_l", ":"), Sp, V>>, <<P(1), P(5), P(9)>>))
     /\ Good(BinOp("+", V, b))
     /\ Good(C(1, "Send", <<V, K("dot_l", "."), K("selector_l", "m")>>, <<P(1), S("m"), Empty>>))
     /\ Good(C(5, "Begin", <<V, T("; "), b>>, <<PL(<<1, 3>>)>>))
     /\ Good(C(5, "Begin", <<V, T("\n"), c>>, <<PL(<<1, 3>>)>>))
     /\ Good(C(1, "Array", <<K("begin_l", "["), V, T(", "), V, K("end_l", "]")>>, <<PL(<<2, 4>>)>>))
     /\ Good(Call1("m", V)) /\ Good(Cmd1("m", V))
     /\ Good(Hash1(Pair(V, V)))
     /\ Good(C(1, "Index", <<V, K("begin_l", "["), b, K("end_l", "]")>>, <<P(1), PL(<<3>>)>>))
     /\ Good(C(1, "Begin", <<K("begin_l", "("), V, K("end_l", ")")>>, <<PL(<<2>>)>>))
     /\ Good(C(1, "Dstr", <<K("begin_l", "\""), C(1, "Begin", <<K("begin_l", "#{"), V, K("end_l", "}")>>, <<PL(<<2>>)>>), K("end_l", "\"")>>, <<PL(<<2>>)>>))
     /\ Good(C(2, "Defined", <<K("keyword_l", "defined?"), Sp, V>>, <<P(3)>>))
     /\ Good(C(1, "Case", <<K("keyword_l", "case"), Sp, V, T("\n"), C(4, "When", <<K("keyword_l", "when"), Sp, V, Sp, K("begin_l", "then"), Sp, b>>, <<PL(<<3>>), P(7)>>), T("\n"), K("end_l", "end")>>, <<P(3), PL(<<5>>), Nil>>))
     /\ Good(C(1, "KwBegin", <<K("begin_l", "begin"), T("\n"), V, T("\n"), K("end_l", "end")>>, <<PL(<<3>>)>>))
  /\ k \in {"loc", "const", "ivar", "cvar"} \cup Gs =>
     IF NumP(t) THEN /\ Bad(t \o " = 1", "ReservedForNumparam") /\ Bad(t \o " += 1", "ReservedForNumparam") /\ Bad(t \o ", a = 1", "ReservedForNumparam")
     ELSE /\ Good(Asgn)
          /\ Good(C(2, "OpAsgn", <<Tgt, Sp, K("operator_l", "+="), Sp, b>>, <<P(1), S("+"), P(5)>>))
          /\ Good(C(2, "OrAsgn", <<Tgt, Sp, K("operator_l", "||="), Sp, b>>, <<P(1), P(5)>>))
          /\ Good(C(4, "Masgn", <<C(4, "Mlhs", <<Tgt, T(", "), C(1, "Ivasgn", <<K("name_l", "@b")>>, <<S("@b"), Nil>>)>>, <<PL(<<1, 3>>)>>), Sp, K("operator_l", "="), Sp, b>>, <<P(1), P(5)>>))
          /\ Good(C(1, "For", <<K("keyword_l", "for"), Sp, Tgt, Sp, K("operator_l", "in"), Sp, c, Sp, K("begin_l", "do"), Sp, b, Sp, K("end_l", "end")>>, <<P(3), P(7), P(11)>>))
          /\ k = "loc" => Good(C(5, "Begin", <<Asgn, T("; "), Lit("Lvar", t)>>, <<PL(<<1, 3>>)>>))
          /\ k = "const" => Bad("def m; " \o t \o " = 1; end", "DynamicConstantAssignment")
  /\ k \in {"nth", "back"} => Bad(t \o " = 1", "CantSetVariable") /\ Bad(t \o " += 1", "CantSetVariable") /\ Bad(t \o ", a = 1", "CantSetVariable") /\ Bad("for " \o t \o " in a do end", "CantSetVariable")
  /\ k = "fid" => Bad(t \o " = 1", "") /\ Bad(t \o " += 1", "") /\ Bad(t \o ", a = 1", "") /\ Bad("@c." \o t \o " = 1", "")
  (* symbols and labels *)
  /\ k \in Names \cup {"set"} => Good(SymT) /\ Good(Call1("m", SymT)) /\ Good(C(1, "Array", <<K("begin_l", "["), SymT, T(", "), b, K("end_l", "]")>>, <<PL(<<2, 4>>)>>)) /\ Good(C(4, "IfMod", <<SymT, Sp, K("keyword_l", "if"), Sp, b>>, <<P(5), P(1), Nil>>))
  /\ k \in {"loc", "const", "fid"} => Good(Hash1(LPair(t, b))) /\ Good(Call1("m", Kws(LPair(t, b)))) /\ Good(Cmd1("m", Kws(LPair(t, b))))
  /\ k \in Vars => Bad("{" \o t \o ": 1}", "") /\ Bad("m(" \o t \o ": 1)", "")
  (* methods *)
  /\ k \in {"loc", "const", "fid", "set"} => (IF NumP(t) THEN Bad("def " \o t \o "(p); end", "ReservedForNumparam") /\ Bad("def self." \o t \o "(p); end", "ReservedForNumparam") ELSE Good(Def0) /\ Good(DefS0)) /\ Good(C(4, "Undef", <<K("keyword_l", "undef"), Sp, BareSym(t)>>, <<PL(<<3>>)>>)) /\ Good(Al(BareSym(t), BareSym("m"))) /\ Good(Al(SymT, BareSym(t)))
  /\ k \in Vars => Bad("def " \o t \o "; end", "") /\ Bad("undef " \o t, "") /\ Bad("alias m " \o t, "")
  /\ k \in {"loc", "const", "fid"} => Good(Dot0(".")) /\ Good(Dot0("&.")) /\ (IF k = "const" THEN Good(Scope0) ELSE Good(Colon0))
  /\ k \in Vars => Bad("@c." \o t, "") /\ Bad("K::" \o t, "")
  /\ k \in Gs => Good(Al(Lit("Gvar", "$b"), V)) /\ Good(Al(V, Lit("Gvar", "$b")))
  /\ k = "back" => Good(Al(Lit("Gvar", "$b"), V))
  /\ k = "nth" => Bad("alias $b " \o t, "AliasNthRef")
  (* parameters, classes *)
  /\ k = "loc" => IF NumP(t) THEN Bad("def m(" \o t \o "); end", "ReservedForNumparam") ELSE Good(DefP) /\ Good(BlkP)
  /\ k \in {"const", "fid"} \cup Vars => Bad("def m(" \o t \o "); end", ArgErr) /\ Bad("m { |" \o t \o "| }", ArgErr) /\ Bad("def m(a, *" \o t \o "); end", "")
  /\ k = "const" => Good(Class0) /\ Good(Module0)
  /\ k \in {"loc", "fid"} \cup Vars => Bad("class " \o t \o "; end", IF k = "loc" THEN "ClassOrModuleNameMustBeConstant" ELSE "") /\ Bad("module " \o t \o "; end", IF k = "loc" THEN "ClassOrModuleNameMustBeConstant" ELSE "")
  (* interpolation *)
  /\ k \in Vars /\ ~(k = "gsp" /\ Len(t) = 3 /\ SubSeq(t, 3, 3) \in Dig) => (t # "$\"" => Good(Interp("\"", "Dstr"))) /\ (t # "$`" => Good(Interp("`", "Xstr")))
  (* no name at all *)
  /\ k \in {"@", "@@", "ivar1", "cvar1", "$", "$-", "gbad"} => Bad(t, NameErr) /\ Bad("m(" \o t \o " )", IF t = "$" THEN "" ELSE NameErr) /\ Bad(":" \o t, IF t = "$ " THEN "" ELSE NameErr) /\ Bad("1; " \o t \o "\n2", "")
Init == t = "" /\ k = ""
Next == /\ Len(t) < MaxLen
        /\ \E x \in Chars : Step(k, x) # "" /\ t' = t \o x /\ k' = Step(k, x)
=============================================================================
