-------------------------------- MODULE Scope --------------------------------
(* C11.  Local variable scopes.  The state is a stack of scopes; constructs are scripts over that     *)
(* stack in source order: text, declare, read, open a hiding or a transparent scope, close it.        *)
(* After every step both names are read, so every reachable scope stack is observed completely.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Simple, Openers, Names, MaxSteps, Pre, Probed
VARIABLES env, open, txt, pos, at, n

Out(r) == PrintT(ToJson(r))
D(x) == <<"D", x>>
R(x) == <<"R", x>>
PS == <<"PS">>
PD == <<"PD">>
PP == <<"PP">>
T(s) == <<"T", s>>

(* a frame: does it hide what is outside, and what it declares *)
RECURSIVE Visible(_, _)
Visible(e, x) ==
  IF e = <<>> THEN FALSE
  ELSE LET f == e[Len(e)] IN x \in f.vars \/ (~f.hides /\ Visible(SubSeq(e, 1, Len(e) - 1), x))

(* what each construct does, in source order *)
SimpleS(c, v) ==
  CASE c = "asgn" -> <<D(v), T(v), T(" = 1\n")>>
    [] c = "self" -> <<D(v), T(v), T(" = "), R(v), T("\n")>>
    [] c = "opasgn" -> <<D(v), T(v), T(" ||= "), R(v), T("\n")>>
    [] c = "plusasgn" -> <<D(v), T(v), T(" += 1\n")>>
    [] c = "chain" -> <<T("z = "), D(v), T(v), T(" = "), R(v), T("\n")>>
    [] c = "masgn" -> <<D(v), T(v), T(", z = "), R(v), T("\n")>>
    [] c = "msplat" -> <<T("z, *"), D(v), T(v), T(" = "), R(v), T("\n")>>
    [] c = "mnest" -> <<T("(z, "), D(v), T(v), T("), y = 1\n")>>
    [] c = "mattr" -> <<R(v), T(".x, z = 1\n")>>
    [] c = "attr" -> <<R(v), T(".x = "), R(v), T("\n")>>
    [] c = "index" -> <<R(v), T("[0] = 1\n")>>
    [] c = "ivar" -> <<T("@"), T(v), T(" = $"), T(v), T(" = 1\n")>>
    [] c = "label" -> <<T("m("), T(v), T(": "), R(v), T(")\n")>>
    [] c = "short" -> <<T("m("), R(v), T(":)\n")>>
    [] c = "shorth" -> <<T("z = {k: 1, "), R(v), T(":, y:}\n")>>
    [] c = "sym" -> <<T("m :"), T(v), T(", \""), T(v), T("\"\n")>>
    [] c = "modif" -> <<R(v), T(" if "), D(v), T(v), T(" = 1\n")>>
    [] c = "modwhile" -> <<R(v), T(" while "), D(v), T(v), T(" = 1\n")>>
    [] c = "tern" -> <<T("("), D(v), T(v), T(" = 1) ? "), R(v), T(" : "), R(v), T("\n")>>
    [] c = "and" -> <<D(v), T(v), T(" = z and "), R(v), T("\n")>>
    [] c = "defd" -> <<T("defined?("), D(v), T(v), T(" = 1)\n")>>
    [] c = "interp" -> <<T("\"#{"), D(v), T(v), T(" = 1}#{"), R(v), T("}\"\n")>>
    [] c = "arg" -> <<T("m(("), D(v), T(v), T(" = 1), "), R(v), T(")\n")>>
    [] c = "rescmod" -> <<D(v), T(v), T(" = 1 rescue "), R(v), T("\n")>>
    [] c = "hpat" -> <<T("z => {"), D(v), T(v), T(":}\n")>>
    [] c = "kpat" -> <<T("z in {k: [Integer => "), D(v), T(v), T("]}\n")>>
    [] c = "apat" -> <<T("z in [1, *"), D(v), T(v), T("]\n")>>
    [] c = "fpat" -> <<T("z in [*, "), D(v), T(v), T(", *]\n")>>
    [] c = "cpat" -> <<T("z => K("), D(v), T(v), T(")\n")>>
    [] c = "vpat" -> <<R(v), T(" => "), D(v), T(v), T("\n")>>
    [] c = "rpat" -> <<T("z in {k: 1, **"), D(v), T(v), T("}\n")>>
    [] c = "gpat" -> <<T("case z\nin ["), D(v), T(v), T("] if "), R(v), T(" then "), R(v), T("\nend\n")>>
    [] c = "endless" -> <<T("def m("), PS, D(v), T(v), T(") = "), R(v), PP, T("\n")>>
    [] c = "endless0" -> <<T("def m() = "), PS, R(v), PP, T("\n")>>
    [] c = "inlineblk" -> <<T("m { "), PD, D(v), T(v), T(" = 1; "), R(v), PP, T(" }\n")>>
    [] c = "inlinelam" -> <<T("-> "), PD, D(v), T(v), T(" { "), R(v), PP, T(" }\n")>>
    [] c = "inlinedef" -> <<T("def m("), PS, D(v), T(v), T("); "), R(v), PP, T("; end\n")>>
    [] c = "cond" -> <<T("if "), D(v), T(v), T(" = 1 then "), R(v), T(" end\n")>>
    [] c = "case" -> <<T("case "), R(v), T("\nwhen "), D(v), T(v), T(" = 1 then "), R(v), T("\nend\n")>>
    [] c = "undef" -> <<T("undef "), T(v), T("; alias "), T(v), T(" z\n")>>
    [] c = "callarg" -> <<T(v), T(" 1\n"), T(v), T("()\n"), T("m."), T(v), T("\n")>>
    [] c = "close" -> <<>>

(* openers: <<script of the head, script of the tail>> *)
OpenS(c, v) ==
  CASE c = "def" -> <<<<T("def m\n"), PS>>, <<PP, T("end\n")>>>>
    [] c = "defp" -> <<<<T("def m("), PS, D(v), T(v), T(", y = "), R(v), T(")\n")>>, <<PP, T("end\n")>>>>
    [] c = "defk" -> <<<<T("def m "), PS, T("*y, "), D(v), T(v), T(": 1, **z\n")>>, <<PP, T("end\n")>>>>
    [] c = "defrest" -> <<<<T("def m(*"), PS, D(v), T(v), T(")\n")>>, <<PP, T("end\n")>>>>
    [] c = "defkr" -> <<<<T("def m(**"), PS, D(v), T(v), T(")\n")>>, <<PP, T("end\n")>>>>
    [] c = "defblk" -> <<<<T("def m(&"), PS, D(v), T(v), T(")\n")>>, <<PP, T("end\n")>>>>
    [] c = "defmlhs" -> <<<<T("def m((z, *"), PS, D(v), T(v), T("))\n")>>, <<PP, T("end\n")>>>>
    [] c = "defdef" -> <<<<T("def m(z = "), PS, R(v), T(")\n")>>, <<PP, T("end\n")>>>>
    [] c = "defs" -> <<<<T("def self.m("), PS, D(v), T(v), T(")\n")>>, <<PP, T("end\n")>>>>
    [] c = "defsv" -> <<<<T("def "), R(v), T(".m\n"), PS>>, <<PP, T("end\n")>>>>
    [] c = "defens" -> <<<<T("def m\n"), PS, D(v), T(v), T(" = 1\nrescue E => y\n"), R(v), T("\nelse\n"), R(v), T("\nensure\n")>>, <<PP, T("end\n")>>>>
    [] c = "class" -> <<<<T("class K\n"), PS>>, <<PP, T("end\n")>>>>
    [] c = "classup" -> <<<<T("class K < "), R(v), T("\n"), PS>>, <<PP, T("end\n")>>>>
    [] c = "module" -> <<<<T("module M\n"), PS>>, <<PP, T("end\n")>>>>
    [] c = "sclass" -> <<<<T("class << "), R(v), T("\n"), PS>>, <<PP, T("end\n")>>>>
    [] c = "brace" -> <<<<T("m {\n"), PD>>, <<PP, T("}\n")>>>>
    [] c = "do" -> <<<<T("m do\n"), PD>>, <<PP, T("end\n")>>>>
    [] c = "bracep" -> <<<<T("m { |"), PD, D(v), T(v), T(", y = "), R(v), T("|\n")>>, <<PP, T("}\n")>>>>
    [] c = "dop" -> <<<<T("m "), R(v), T(" do |(x, "), PD, D(v), T(v), T(")|\n")>>, <<PP, T("end\n")>>>>
    [] c = "bracel" -> <<<<T("m(1) { |x; "), PD, D(v), T(v), T("|\n")>>, <<PP, T("}\n")>>>>
    [] c = "brdef" -> <<<<T("m.m { |x = "), PD, R(v), T(", *, k: "), R(v), T("|\n")>>, <<PP, T("}\n")>>>>
    [] c = "brrest" -> <<<<T("m { |*"), PD, D(v), T(v), T("|\n")>>, <<PP, T("}\n")>>>>
    [] c = "brkw" -> <<<<T("m { |"), PD, D(v), T(v), T(":, **y|\n")>>, <<PP, T("}\n")>>>>
    [] c = "brblk" -> <<<<T("m { |&"), PD, D(v), T(v), T("|\n")>>, <<PP, T("}\n")>>>>
    [] c = "brexc" -> <<<<T("m do |"), PD, D(v), T(v), T(",|\n")>>, <<PP, T("end\n")>>>>
    [] c = "doens" -> <<<<T("m do\n"), PD, D(v), T(v), T(" = 1\nrescue\n"), R(v), T("\nensure\n")>>, <<PP, T("end\n")>>>>
    [] c = "super" -> <<<<T("super "), R(v), T(" do |"), PD, D(v), T(v), T("|\n")>>, <<PP, T("end\n")>>>>
    [] c = "lam" -> <<<<T("-> {\n"), PD>>, <<PP, T("}\n")>>>>
    [] c = "lamp" -> <<<<T("->(x, "), PD, D(v), T(v), T(" = 1) do\n")>>, <<PP, T("end\n")>>>>
    [] c = "lamb" -> <<<<T("-> "), PD, D(v), T(v), T(", y {\n")>>, <<PP, T("}\n")>>>>
    [] c = "laml" -> <<<<T("->(x; "), PD, D(v), T(v), T(") {\n")>>, <<PP, T("}\n")>>>>
    [] c = "lamd" -> <<<<T("->(x = "), PD, R(v), T(") {\n")>>, <<PP, T("}\n")>>>>
    [] c = "blkarg" -> <<<<T("m(proc { |"), PD, D(v), T(v), T("|\n")>>, <<PP, T("}, "), R(v), T(")\n")>>>>
    [] c = "chainb" -> <<<<T("m {\n"), PD>>, <<PP, T("}.m("), R(v), T(") { "), PD, R(v), PP, T(" }\n")>>>>
    [] c = "for" -> <<<<T("for "), D(v), T(v), T(" in "), R(v), T("\n")>>, <<T("end\n")>>>>
    [] c = "formul" -> <<<<T("for x, (*"), D(v), T(v), T(") in z do\n")>>, <<T("end\n")>>>>
    [] c = "while" -> <<<<T("while "), D(v), T(v), T(" = 1\n")>>, <<T("end\n")>>>>
    [] c = "until" -> <<<<T("until "), R(v), T(" do\n")>>, <<T("end\n")>>>>
    [] c = "if" -> <<<<T("if "), R(v), T("\n"), D(v), T(v), T(" = 1\nelse\n")>>, <<T("end\n")>>>>
    [] c = "begin" -> <<<<T("begin\n")>>, <<T("rescue E => "), D(v), T(v), T("\n"), R(v), T("\nend\n")>>>>
    [] c = "paren" -> <<<<T("(\n")>>, <<T(")\n")>>>>
    [] c = "str" -> <<<<T("\"#{\n")>>, <<T("}\"\n")>>>>
    [] c = "arr" -> <<<<T("[(\n")>>, <<T("), "), R(v), T("]\n")>>>>
    [] c = "case" -> <<<<T("case\nwhen "), D(v), T(v), T(" = 1\n")>>, <<T("else "), R(v), T("\nend\n")>>>>
    [] c = "in" -> <<<<T("case z\nin {k: "), D(v), T(v), T("}\n")>>, <<T("end\n")>>>>
    [] c = "END" -> <<<<T("END {\n")>>, <<T("}\n")>>>>
    [] c = "defm" -> <<<<T("define_method(:"), T(v), T(") do\n"), PD>>, <<PP, T("end\n")>>>>

St(e, t, p, a) == [env |-> e, txt |-> t, pos |-> p, at |-> a]
Do1(s, it) ==
  CASE it[1] = "T" -> St(s.env, Append(s.txt, it[2]), s.pos + Len(it[2]), s.at)
    [] it[1] = "D" -> St([s.env EXCEPT ![Len(s.env)].vars = @ \cup {it[2]}], s.txt, s.pos, s.at)
    [] it[1] = "R" -> St(s.env, Append(s.txt, it[2]), s.pos + Len(it[2]),
                         Append(s.at, <<IF Visible(s.env, it[2]) THEN "Lvar.expression_l" ELSE "Send.selector_l", s.pos, s.pos + Len(it[2])>>))
    [] it[1] = "PS" -> St(Append(s.env, [hides |-> TRUE, vars |-> {}]), s.txt, s.pos, s.at)
    [] it[1] = "PD" -> St(Append(s.env, [hides |-> FALSE, vars |-> {}]), s.txt, s.pos, s.at)
    [] it[1] = "PP" -> St(SubSeq(s.env, 1, Len(s.env) - 1), s.txt, s.pos, s.at)
RECURSIVE Do(_, _)
Do(s, its) == IF its = <<>> THEN s ELSE Do(Do1(s, Head(its)), Tail(its))

Probe == <<R(Probed[1]), T("\n"), R(Probed[2]), T("\n")>>
Cur == St(env, txt, pos, at)
Set(s) == env' = s.env /\ txt' = s.txt /\ pos' = s.pos /\ at' = s.at
Legal(c) == c \in {"class", "classup", "module", "sclass", "END"} => \A i \in DOMAIN open : open[i][1] \notin {"def", "defp", "defk", "defrest", "defkr", "defblk", "defmlhs", "defdef", "defs", "defsv", "defens"}

Init == /\ env = <<[hides |-> TRUE, vars |-> Pre]>> /\ open = <<>> /\ txt = <<>> /\ pos = 0 /\ at = <<>> /\ n = 0
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E c \in Simple, v \in Names : Set(Do(Cur, SimpleS(c, v) \o Probe)) /\ UNCHANGED open
           \/ \E c \in Openers, v \in Names : Legal(c) /\ Set(Do(Cur, OpenS(c, v)[1] \o Probe)) /\ open' = Append(open, <<c, v>>)
           \/ /\ open # <<>> /\ n > 0
              /\ LET o == open[Len(open)] IN Set(Do(Cur, OpenS(o[1], o[2])[2] \o Probe))
              /\ open' = SubSeq(open, 1, Len(open) - 1)

RECURSIVE CloseAll(_, _)
CloseAll(s, os) == IF os = <<>> THEN s ELSE CloseAll(Do(s, OpenS(os[Len(os)][1], os[Len(os)][2])[2] \o Probe), SubSeq(os, 1, Len(os) - 1))
PreO == IF Pre = {} THEN "" ELSE "decl=" \o (CHOOSE x \in Pre : TRUE)
Emit == \E s \in {CloseAll(Cur, open)} : Out([s |-> s.txt, o |-> PreO, at |-> s.at, ok |-> TRUE])

(* what the stack discipline guarantees: closing everything leaves only what the program itself declared *)
Balanced == \E s \in {CloseAll(Cur, open)} : Len(s.env) = 1
=============================================================================
