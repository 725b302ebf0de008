-------------------------------- MODULE Void ---------------------------------
(* C12.  A construct that never yields a value (return, break, next, redo, retry) is rejected exactly *)
(* where a value is needed, seen through groups, the last statement of a sequence, both branches of a *)
(* conditional and the left operand of and/or.                                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxDepth, Kinds
VARIABLES e, void, d, bad     \* text, is it void, depth, is it already used as a value inside

Out(r) == PrintT(ToJson(r))
W(k) == "(" \o e \o ")"
(* text, void, statement level *)
Wrap(k) ==
  CASE k = "paren" -> <<"(" \o e \o ")", void>>
    [] k = "seq" -> <<"(z; " \o e \o ")", void>>
    [] k = "seq2" -> <<"(" \o e \o "; z)", FALSE>>
    [] k = "begin" -> <<"begin; " \o e \o "; end", void>>
    [] k = "begin2" -> <<"begin; z; " \o e \o "; end", void>>
    [] k = "andl" -> <<W(0) \o " && z", void>>
    [] k = "andr" -> <<"z && " \o W(0), FALSE>>
    [] k = "orl" -> <<W(0) \o " || z", void>>
    [] k = "orr" -> <<"(z or " \o W(0) \o ")", FALSE>>
    [] k = "if1" -> <<"if z then " \o e \o " end", FALSE>>
    [] k = "if2" -> <<"if z then " \o e \o " else " \o e \o " end", void>>
    [] k = "ifr" -> <<"if z then " \o e \o " else retry end", void>>
    [] k = "ifz" -> <<"if z then z else " \o e \o " end", FALSE>>
    [] k = "unless2" -> <<"unless z then " \o e \o " else " \o e \o " end", void>>
    [] k = "tern" -> <<"(z ? " \o W(0) \o " : " \o W(0) \o ")", void>>
    [] k = "ternz" -> <<"(z ? " \o W(0) \o " : z)", FALSE>>
    [] k = "while" -> <<"while z do " \o e \o " end", FALSE>>
    [] k = "def" -> <<"def m; " \o e \o "; end", FALSE>>
    [] k = "block" -> <<"m { " \o e \o " }", FALSE>>
    [] k = "arr" -> <<"[z, m { " \o e \o " }]", FALSE>>
    [] k = "case" -> <<"case z when z then " \o e \o " end", FALSE>>
(* value positions: the expression, parenthesised unless it is a primary *)
Pos(x) == {"v = (" \o x \o ")", "v += (" \o x \o ")", "@v = (" \o x \o ")", "v, w = (" \o x \o "), z", "K = (" \o x \o ")", "m((" \o x \o "))", "m z, (" \o x \o ")", "(" \o x \o ").m",
           "(" \o x \o ") + z", "z + (" \o x \o ")", "-(" \o x \o ")", "!(" \o x \o ")", "(" \o x \o ") && z", "(" \o x \o ") || z", "(" \o x \o ") ? z : z", "[(" \o x \o ")]", "{ k: (" \o x \o ") }",
           "{ (" \o x \o ") => z }", "if (" \o x \o ") then z end", "z while (" \o x \o ")", "case (" \o x \o ") when z then z end", "z[(" \o x \o ")]", "(" \o x \o ")[z]", "(" \o x \o ").m = z",
           "z.m = (" \o x \o ")", "z if (" \o x \o ")", "z until (" \o x \o ")", "return (" \o x \o ")", "for i in (" \o x \o ") do z end", "class K < (" \o x \o "); end",
           "(" \o x \o ")..z", "z...(" \o x \o ")", "def m(a = (" \o x \o ")) end", "m(*(" \o x \o "))", "m(**(" \o x \o "))", "m(k: (" \o x \o "))", "(" \o x \o ") => z", "(" \o x \o ") in z",
           "yield (" \o x \o ")", "z rescue (v = (" \o x \o "))", "unless (" \o x \o ") then z end", "while (" \o x \o ") do z end"}
(* positions where a value is not needed *)
NonPos(x) == {x, "(" \o x \o ")", "z; " \o x, "z and (" \o x \o ")", "z || (" \o x \o ")", "z ? (" \o x \o ") : z", "\"#{" \o x \o "}\"", "(" \o x \o ") if z",
              "z rescue (" \o x \o ")", "m { " \o x \o " }", "if z then " \o x \o " end", "defined?((" \o x \o "))"}
Init == /\ e \in {"return", "break 1", "next", "redo", "retry", "z", "raise z", "yield"} /\ void = (e \notin {"z", "raise z", "yield"}) /\ d = 0 /\ bad = FALSE
Next == /\ d < MaxDepth /\ d' = d + 1
        /\ \E k \in Kinds : \E w \in {Wrap(k)} : (e = "raise z" => k \notin {"andl", "orl", "tern", "ternz", "andr", "orr"}) /\ e' = w[1] /\ void' = w[2] /\ bad' = (bad \/ (void /\ k \in {"andl", "orl"}))
Emit == /\ \A p \in Pos(e) : Out(IF void \/ bad THEN [s |-> p, err |-> <<"VoidValueExpression">>] ELSE [s |-> p, ok |-> TRUE])
        /\ \A p \in NonPos(e) : Out(IF bad THEN [s |-> p, err |-> <<"VoidValueExpression">>] ELSE [s |-> p, ok |-> TRUE])
=============================================================================
