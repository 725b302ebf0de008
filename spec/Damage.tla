------------------------------- MODULE Damage -------------------------------
(* C01, C02, C06.  Damaged programs.  A program of the catalogue is built (a construct, possibly       *)
(* nested in another); then it is damaged in one or two steps: cut off at any point, a piece removed,  *)
(* a lexeme or byte inserted, two neighbouring pieces exchanged.  Each reachable text is an input.     *)
EXTENDS Ruby
CONSTANTS Seeds, Lo, Hi, Kinds, Ins, MaxDamage, MaxDel, Opt
VARIABLES s, k
Base == CASE Seeds = "leaf" -> Leaves [] Seeds = "stmt" -> StmtLeaves
          [] Seeds = "wrapa" -> Wraps(a) [] Seeds = "wrap1" -> Wraps(b) [] Seeds = "wrapstr" -> Wraps(StrN("\"", "x", "\"")) [] Seeds = "wrapcmd" -> Wraps(Cmd1("m", a))
Progs == Base
Init == k = 0 /\ \E i \in DOMAIN Progs : i % Hi = Lo /\ s = Progs[i].s
Cut(i) == SubSeq(s, 1, i)
Rest(i) == SubSeq(s, i + 1, Len(s))
Next == /\ k < MaxDamage /\ k' = k + 1
        /\ \/ "cut" \in Kinds /\ \E i \in 0..(Len(s) - 1) : s' = Cut(i)
           \/ "tail" \in Kinds /\ \E i \in 1..(Len(s) - 1) : s' = Rest(i)
           \/ "del" \in Kinds /\ \E i \in 0..(Len(s) - 1), d \in 1..MaxDel : i + d <= Len(s) /\ s' = Cut(i) \o Rest(i + d)
           \/ "ins" \in Kinds /\ \E i \in 0..Len(s), x \in Ins : s' = Cut(i) \o x \o Rest(i)
           \/ "rep" \in Kinds /\ \E i \in 0..(Len(s) - 1), x \in Ins : s' = Cut(i) \o x \o Rest(i + 1)
           \/ "swap" \in Kinds /\ \E i \in 0..(Len(s) - 2) : s' = Cut(i) \o SubSeq(s, i + 2, i + 2) \o SubSeq(s, i + 1, i + 1) \o Rest(i + 2)
           \/ "dup" \in Kinds /\ \E i \in 0..(Len(s) - 1), d \in 1..MaxDel : i + d <= Len(s) /\ s' = Cut(i + d) \o Rest(i)
Promise(t) == IF Opt = "6" THEN [s |-> t, o |-> "api=sum,sum=6", diff |-> <<>>]
              ELSE IF Opt = "2" THEN [s |-> t, o |-> "api=sum", oob |-> <<>>]
              ELSE IF Opt = "26" THEN [s |-> t, o |-> "api=sum,sum=v", left |-> ""]
              ELSE [s |-> t, o |-> "api=sum", silent |-> FALSE]
Emit == Out(Promise(s))
=============================================================================
