-------------------------------- MODULE Soup --------------------------------
(* C01, C02, C06.  What holds for every input whatsoever.  The state is the text read so far; a step  *)
(* appends any lexeme (or raw byte) with any glue, so that every prefix of every sequence is itself   *)
(* an input; at every state the text is also placed into the frames that put the lexer and the        *)
(* parser into each of their modes.  Nothing is assumed about validity: what every state promises is  *)
(* a result (tree or error), ranges inside the input, and independence of options and history.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Lex, Glue, MaxLen, Frames, Opt, First
VARIABLES s, n
Out(r) == PrintT(ToJson(r))
Init == s = "" /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ \E l \in (IF n = 0 THEN First ELSE Lex), g \in (IF n = 0 THEN {""} ELSE Glue) : s' = s \o g \o l
(* what every input must satisfy *)
Promise(t) == IF Opt = "6" THEN [s |-> t, o |-> "api=sum,sum=6", diff |-> <<>>]
              ELSE IF Opt = "2" THEN [s |-> t, o |-> "api=sum", oob |-> <<>>]
              ELSE IF Opt = "26" THEN [s |-> t, o |-> "api=sum,sum=v", left |-> ""]
              ELSE [s |-> t, o |-> "api=sum", silent |-> FALSE]
Blank == s = "" \/ SubSeq(s, 1, 1) = "#"
Emit == n = 0 \/ \A fr \in Frames : LET t == fr[1] \o s \o fr[2] IN Out(Promise(t))
=============================================================================
