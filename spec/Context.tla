------------------------------- MODULE Context -------------------------------
(* C12.  Context-dependent legality.  The state is the stack of open constructs with the context each *)
(* of them saved; in every reachable state each context-sensitive statement is written once and its   *)
(* legality is what the context says.                                                                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Openers, Probes, MaxSteps
VARIABLES ctx, open, txt, pos, n

Out(r) == PrintT(ToJson(r))
(* ctx: inside a method body, directly or indirectly; inside a class body; inside a block; at the top level of the file *)
Top == [def |-> FALSE, cls |-> FALSE, blk |-> FALSE, top |-> TRUE]
In(c) == [c EXCEPT !.top = FALSE]
Meth(c) == [In(c) EXCEPT !.def = TRUE, !.blk = FALSE]
Cls(c) == [In(c) EXCEPT !.cls = TRUE, !.blk = FALSE]
Sing(c) == [In(c) EXCEPT !.def = FALSE, !.cls = FALSE, !.blk = FALSE]
Blk(c) == [In(c) EXCEPT !.blk = TRUE]

(* <<head, tail, context inside>> *)
Op(c) ==
  CASE c = "def" -> <<"def m\n", "end\n", Meth(ctx)>>
    [] c = "defp" -> <<"def m(a, b = 1)\n", "end\n", Meth(ctx)>>
    [] c = "defs" -> <<"def self.m a\n", "end\n", Meth(ctx)>>
    [] c = "defens" -> <<"def m\nz\nensure\n", "end\n", Meth(ctx)>>
    [] c = "defres" -> <<"def m\nz\nrescue E => e\n", "end\n", Meth(ctx)>>
    [] c = "endless" -> <<"def m() = (\n", "z\n)\n", Meth(ctx)>>
    [] c = "endlesss" -> <<"def self.m(a) = begin\n", "z\nend\n", Meth(ctx)>>
    [] c = "defdef" -> <<"def m(a = (\n", "z\n)) end\n", Meth(ctx)>>
    [] c = "defkw" -> <<"def m(a: begin\n", "z\nend) end\n", Meth(ctx)>>
    [] c = "class" -> <<"class K\n", "end\n", Cls(ctx)>>
    [] c = "classs" -> <<"class K::L < z\n", "end\n", Cls(ctx)>>
    [] c = "classens" -> <<"class K\nz\nensure\n", "end\n", Cls(ctx)>>
    [] c = "module" -> <<"module M\n", "end\n", Cls(ctx)>>
    [] c = "sclass" -> <<"class << self\n", "end\n", Sing(ctx)>>
    [] c = "super" -> <<"class K < (\n", "z\n); end\n", In(ctx)>>
    [] c = "scexpr" -> <<"class << (\n", "z\n); end\n", In(ctx)>>
    [] c = "dsrecv" -> <<"def (begin\n", "z\nend).m; end\n", In(ctx)>>
    [] c = "brace" -> <<"m {\n", "}\n", Blk(ctx)>>
    [] c = "do" -> <<"m z do |x|\n", "end\n", Blk(ctx)>>
    [] c = "doens" -> <<"m do\nz\nensure\n", "end\n", Blk(ctx)>>
    [] c = "lam" -> <<"-> {\n", "}\n", Blk(ctx)>>
    [] c = "lamdo" -> <<"->(x) do\n", "end\n", Blk(ctx)>>
    [] c = "bdef" -> <<"m { |x = (\n", "z\n)| z }\n", Blk(ctx)>>
    [] c = "ldef" -> <<"->(x = (\n", "z\n)) { z }\n", Blk(ctx)>>
    [] c = "after" -> <<"m { z }.m(\n(", "z), 1)\n", In(ctx)>>
    [] c = "begin" -> <<"begin\n", "end\n", In(ctx)>>
    [] c = "rescue" -> <<"begin\nz\nrescue\n", "end\n", In(ctx)>>
    [] c = "if" -> <<"if z\n", "end\n", In(ctx)>>
    [] c = "else" -> <<"unless z\nelse\n", "end\n", In(ctx)>>
    [] c = "while" -> <<"while z\n", "end\n", In(ctx)>>
    [] c = "for" -> <<"for i in z\n", "end\n", In(ctx)>>
    [] c = "case" -> <<"case z\nwhen 1\n", "end\n", In(ctx)>>
    [] c = "in" -> <<"case z\nin [a]\n", "end\n", In(ctx)>>
    [] c = "paren" -> <<"(\n", ")\n", In(ctx)>>
    [] c = "str" -> <<"\"a#{\n", "}b\"\n", In(ctx)>>
    [] c = "hd" -> <<"<<A\n#{\n", "}\nA\n", In(ctx)>>
    [] c = "arg" -> <<"m((\n", "z\n))\n", In(ctx)>>
    [] c = "hash" -> <<"z({k: (\n", "z\n)})\n", In(ctx)>>
    [] c = "defined" -> <<"defined?((\n", "z\n))\n", In(ctx)>>
    [] c = "END" -> <<"END {\n", "}\n", In(ctx)>>
    [] c = "BEGIN" -> <<"BEGIN {\n", "}\n", ctx>>

IllegalIn(c) == (c \in {"class", "classs", "classens", "module", "super"} /\ ctx.def) \/ (c = "BEGIN" /\ ~ctx.top) \/ (c = "END" /\ ctx.def)

(* <<text before, offending token, text after, error kind or "", warning kind or "">> *)
Pr(p) ==
  LET E(b, k) == IF b THEN k ELSE ""
      ret == ctx.cls /\ ~ctx.def /\ ~ctx.blk
      dyn == "DynamicConstantAssignment"
  IN CASE p = "return" -> <<"", "return", "\n", E(ret, "InvalidReturnInClassOrModuleBody"), "">>
       [] p = "return1" -> <<"", "return", " 1, 2\n", E(ret, "InvalidReturnInClassOrModuleBody"), "">>
       [] p = "returnif" -> <<"", "return", " if z\n", E(ret, "InvalidReturnInClassOrModuleBody"), "">>
       [] p = "orreturn" -> <<"z or ", "return", "\n", E(ret, "InvalidReturnInClassOrModuleBody"), "">>
       [] p = "breturn" -> <<"m { ", "return", " }\n", "", "">>
       [] p = "lreturn" -> <<"-> do ", "return", " 1 end\n", "", "">>
       [] p = "dreturn" -> <<"def x; ", "return", "; end\n", "", "">>
       [] p = "creturn" -> <<"class << self; ", "return", "; end\n", "", "">>
       [] p = "const" -> <<"", "A", " = 1\n", E(ctx.def, dyn), "">>
       [] p = "constop" -> <<"", "A", " ||= 1\n", E(ctx.def, dyn), "">>
       [] p = "cpath" -> <<"", "A::B", " = 1\n", E(ctx.def, dyn), "">>
       [] p = "ctop" -> <<"", "::A", " = 1\n", E(ctx.def, dyn), "">>
       [] p = "cmul" -> <<"z, ", "A", " = 1\n", E(ctx.def, dyn), "">>
       [] p = "cfor" -> <<"for ", "A", " in z do end\n", E(ctx.def, dyn), "">>
       [] p = "cresc" -> <<"begin; rescue => ", "A", "; end\n", E(ctx.def, dyn), "">>
       [] p = "cblk" -> <<"m { ", "A", " = 1 }\n", E(ctx.def, dyn), "">>
       [] p = "csing" -> <<"class << self; ", "A", " = 1; end\n", "", "">>
       [] p = "cdef" -> <<"def x; ", "A", " = 1; end\n", dyn, "">>
       [] p = "class" -> <<"", "class", " A; end\n", E(ctx.def, "ClassDefinitionInMethodBody"), "">>
       [] p = "classlow" -> <<"class ", "a", "; end\n", "ClassOrModuleNameMustBeConstant", "">>
       [] p = "modlow" -> <<"module ", "a", "; end\n", "ClassOrModuleNameMustBeConstant", "">>
       [] p = "module" -> <<"", "module", " A; end\n", E(ctx.def, "ModuleDefinitionInMethodBody"), "">>
       [] p = "sclassclass" -> <<"class << self; ", "class", " A; end; end\n", "", "">>
       [] p = "dclass" -> <<"def x; m { ", "class", " A; end }; end\n", "ClassDefinitionInMethodBody", "">>
       [] p = "BEGIN" -> <<"", "BEGIN", " { z }\n", E(~ctx.top, "BeginNotAtTopLevel"), "">>
       [] p = "END" -> <<"", "END", " { z }\n", "", E(ctx.def, "EndInMethod")>>
       [] p = "setter" -> <<"def ", "a=", "(x) = z\n", "EndlessSetterDefinition", "">>
       [] p = "ssetter" -> <<"def self.", "a=", "(x) = z\n", "EndlessSetterDefinition", "">>
       [] p = "setcmd" -> <<"def ", "a=", "(x) = m z\n", "EndlessSetterDefinition", "">>
       [] p = "eqeq" -> <<"def ", "==", "(x) = z\n", "", "">>
       [] p = "neq" -> <<"def self.", "!=", "(x) = z\n", "", "">>
       [] p = "aref" -> <<"def ", "[]=", "(x, y) = z\n", "EndlessSetterDefinition", "">>
       [] p = "fullset" -> <<"def ", "a=", "(x); z; end\n", "", "">>
       [] p = "singlit" -> <<"def (", "1", ").m; end\n", "SingletonLiteral", "">>
       [] p = "singlitarr" -> <<"def (", "[]", ").m() = 1\n", "SingletonLiteral", "">>
       [] p = "nthalias" -> <<"alias $a ", "$1", "\n", "AliasNthRef", "">>
       [] p = "gvalias" -> <<"alias $a ", "$b", "\n", "", "">>
       [] p = "else" -> <<"begin; z; ", "else", "; z; end\n", "ElseWithoutRescue", "">>
       [] p = "elseok" -> <<"begin; z; rescue; z; ", "else", "; z; end\n", "", "">>

RECURSIVE Tails(_)
Tails(os) == IF os = <<>> THEN <<>> ELSE Append(<<os[Len(os)][2]>>, Tails(SubSeq(os, 1, Len(os) - 1)))
(* class bodies are judged when they end, so an error keeps the statements after it from being seen: one probe per program *)
Rec(pre, tok, post, ek, wk) ==
  LET b == pos + Len(pre)
  IN [s |-> <<txt, pre, tok, post, Tails(open), "z\n">>,
      e1 |-> IF ek = "" THEN <<>> ELSE <<ek, b, b + Len(tok)>>,
      D1w |-> IF wk = "" THEN <<>> ELSE <<wk, b, b + Len(tok)>>]
Judge(r) == IF r.e1 = <<>> THEN r ELSE [s |-> r.s, e1 |-> r.e1]
Emit == \A p \in Probes : \E q \in {Pr(p)} :
          (q[4] = "" \/ ~\E i \in DOMAIN open : open[i][4]) => Out(Judge(Rec(q[1], q[2], q[3], q[4], q[5])))

Init == ctx = Top /\ open = <<>> /\ txt = <<>> /\ pos = 0 /\ n = 0
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E c \in Openers : /\ ~IllegalIn(c)
                                 /\ \E o \in {Op(c)} :
                                       /\ ctx' = o[3] /\ open' = Append(open, <<ctx, o[2], c, FALSE>>)
                                       /\ txt' = Append(txt, o[1]) /\ pos' = pos + Len(o[1])
           \/ /\ open # <<>>
              /\ LET o == open[Len(open)] IN
                   /\ ctx' = o[1] /\ open' = SubSeq(open, 1, Len(open) - 1)
                   /\ txt' = Append(txt, o[2]) /\ pos' = pos + Len(o[2])
(* leaving every construct restores the context of the file *)
Restored == open = <<>> => ctx = Top
=============================================================================
