------------------------------- MODULE Tokens -------------------------------
(* C05.  The token stream, as a trace specification.  A reader walks over the source text: it stands at  *)
(* a position, inside a stack of literals and interpolations.  Every token moves it; a token is possible  *)
(* only where the text allows it:                                                                         *)
(*  - in code, what lies between the reader and the token is blank: blanks, newlines, line                *)
(*    continuations, reported comments, and bodies of heredocs that have been read already;               *)
(*  - inside a literal nothing lies between (but a body that has been read already);                      *)
(*  - the opening of a heredoc sends the reader to the first line after it that has not been read; the    *)
(*    terminator brings it back;                                                                          *)
(*  - a token of fixed spelling lies over this spelling, a name over its value, and the end of a literal  *)
(*    over the delimiter that belongs to its opening.                                                     *)
(* Every stream recorded from the parser for an accepted program has to be a behaviour that ends with     *)
(* nothing open and the text read to the end.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES r, k, pos, st, regs, err
Traces == ndJsonDeserialize(IOEnv.TRACE)
Out(x) == PrintT(ToJson(x))

Fixed == [kCLASS |-> {"class"}, kMODULE |-> {"module"}, kDEF |-> {"def"}, kUNDEF |-> {"undef"}, kBEGIN |-> {"begin"}, kRESCUE |-> {"rescue"}, kENSURE |-> {"ensure"}, kEND |-> {"end"},
  kIF |-> {"if"}, kUNLESS |-> {"unless"}, kTHEN |-> {"then"}, kELSIF |-> {"elsif"}, kELSE |-> {"else"}, kCASE |-> {"case"}, kWHEN |-> {"when"}, kWHILE |-> {"while"}, kUNTIL |-> {"until"},
  kFOR |-> {"for"}, kBREAK |-> {"break"}, kNEXT |-> {"next"}, kREDO |-> {"redo"}, kRETRY |-> {"retry"}, kIN |-> {"in"}, kDO |-> {"do"}, kDO_COND |-> {"do"}, kDO_BLOCK |-> {"do"},
  kDO_LAMBDA |-> {"do"}, kRETURN |-> {"return"}, kYIELD |-> {"yield"}, kSUPER |-> {"super"}, kSELF |-> {"self"}, kNIL |-> {"nil"}, kTRUE |-> {"true"}, kFALSE |-> {"false"}, kAND |-> {"and"},
  kOR |-> {"or"}, kNOT |-> {"not"}, kIF_MOD |-> {"if"}, kUNLESS_MOD |-> {"unless"}, kWHILE_MOD |-> {"while"}, kUNTIL_MOD |-> {"until"}, kRESCUE_MOD |-> {"rescue"}, kALIAS |-> {"alias"},
  kDEFINED |-> {"defined?"}, klBEGIN |-> {"BEGIN"}, klEND |-> {"END"}, k__LINE__ |-> {"__LINE__"}, k__FILE__ |-> {"__FILE__"}, k__ENCODING__ |-> {"__ENCODING__"},
  tUPLUS |-> {"+", "+@"}, tUMINUS |-> {"-", "-@"}, tUMINUS_NUM |-> {"-"}, tPOW |-> {"**"}, tCMP |-> {"<=>"}, tEQ |-> {"=="}, tEQQ |-> {"==="}, tNEQ |-> {"!="}, tGEQ |-> {">="}, tLEQ |-> {"<="},
  tANDOP |-> {"&&"}, tOROP |-> {"||"}, tMATCH |-> {"=~"}, tNMATCH |-> {"!~"}, tDOT |-> {"."}, tDOT2 |-> {".."}, tDOT3 |-> {"..."}, tBDOT2 |-> {".."}, tBDOT3 |-> {"..."}, tAREF |-> {"[]"},
  tASET |-> {"[]="}, tLSHFT |-> {"<<"}, tRSHFT |-> {">>"}, tANDDOT |-> {"&."}, tCOLON2 |-> {"::"}, tCOLON3 |-> {"::"}, tASSOC |-> {"=>"}, tLPAREN |-> {"("}, tLPAREN_ARG |-> {"("},
  tLPAREN2 |-> {"("}, tRPAREN |-> {")"}, tLBRACK |-> {"["}, tLBRACK2 |-> {"["}, tRBRACK |-> {"]"}, tLBRACE |-> {"{"}, tLBRACE_ARG |-> {"{"}, tLCURLY |-> {"{"}, tLAMBEG |-> {"{"}, tRCURLY |-> {"}"},
  tSTAR |-> {"*"}, tSTAR2 |-> {"*"}, tDSTAR |-> {"**"}, tAMPER |-> {"&"}, tAMPER2 |-> {"&"}, tLAMBDA |-> {"->"}, tSTRING_DBEG |-> {"#{"}, tSTRING_DEND |-> {"}"}, tSTRING_DVAR |-> {"#"},
  tCOMMA |-> {","}, tEQL |-> {"="}, tPIPE |-> {"|"}, tGT |-> {">"}, tLT |-> {"<"}, tBACK_REF2 |-> {"`"}, tCARET |-> {"^"}, tSEMI |-> {";"}, tPLUS |-> {"+"}, tMINUS |-> {"-"}, tDIVIDE |-> {"/"},
  tPERCENT |-> {"%"}, tTILDE |-> {"~", "~@"}, tBANG |-> {"!", "!@"}, tCOLON |-> {":"}, tEH |-> {"?"},
  tOP_ASGN |-> {"+=", "-=", "*=", "/=", "%=", "**=", "|=", "&=", "^=", "<<=", ">>=", "||=", "&&="}]
(* tokens whose value is the text they lie over *)
Names == {"tIDENTIFIER", "tFID", "tCONSTANT", "tIVAR", "tCVAR", "tGVAR", "tNTH_REF", "tBACK_REF"}
StrBeg == {"tSTRING_BEG", "tXSTRING_BEG", "tREGEXP_BEG", "tWORDS_BEG", "tQWORDS_BEG", "tSYMBOLS_BEG", "tQSYMBOLS_BEG"}
StrEnd == {"tSTRING_END", "tREGEXP_END", "tLABEL_END"}
InStr == {"tSTRING_CONTENT", "tSPACE", "tSTRING_DBEG", "tSTRING_DVAR"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Blanks == {" ", "\t", "\f", "\r", "ċ"}

src == Traces[r].s
toks == Traces[r].t
coms == Traces[r].c
Sub(p, q) == SubSeq(src, p + 1, IF q > Len(src) THEN Len(src) ELSE q)
Ch(p) == Sub(p, p + 1)
Size == Len(src)
RECURSIVE Skip(_)                      (* past bodies that have been read *)
Skip(p) == IF \E g \in regs : g[1] = p THEN Skip((CHOOSE g \in regs : g[1] = p)[2]) ELSE p
RECURSIVE Blank(_, _)
Blank(p, q) == IF p >= q THEN p = q
               ELSE IF Skip(p) # p THEN Blank(Skip(p), q)
               ELSE IF Ch(p) \in Blanks \cup {"\n"} THEN Blank(p + 1, q)
               ELSE IF Ch(p) = "\\" /\ Ch(p + 1) = "\n" THEN Blank(p + 2, q)
               ELSE IF Ch(p) = "\\" /\ Sub(p + 1, p + 3) = "\r\n" THEN Blank(p + 3, q)
               ELSE \E i \in DOMAIN coms : /\ coms[i][1] = p /\ coms[i][2] > p
                                           (* the newline that ends a comment may be a token of its own *)
                                           /\ IF coms[i][2] = q + 1 THEN Ch(q) = "\n" ELSE IF coms[i][2] = q + 2 /\ Ch(q) = "\r" THEN Ch(q + 1) = "\n" ELSE Blank(coms[i][2], q)
RECURSIVE NextLine(_)
NextLine(p) == IF p >= Size THEN Size ELSE IF Ch(p) = "\n" THEN p + 1 ELSE NextLine(p + 1)
AfterEol(p) == IF Ch(p) = "\r" /\ Ch(p + 1) = "\n" THEN p + 2 ELSE IF Ch(p) = "\n" THEN p + 1 ELSE p
RECURSIVE Strip(_)
Strip(x) == IF x # "" /\ SubSeq(x, 1, 1) \in {" ", "\t"} THEN Strip(SubSeq(x, 2, Len(x))) ELSE x
From(x, i) == SubSeq(x, i, Len(x))
Inner(x) == IF SubSeq(x, 1, 1) \in {"\"", "'", "`"} THEN SubSeq(x, 2, Len(x) - 1) ELSE x
HereId(x) == LET y == From(x, 3) IN Inner(IF SubSeq(y, 1, 1) \in {"~", "-"} THEN From(y, 2) ELSE y)
Closer(o) == CASE o = "(" -> ")" [] o = "[" -> "]" [] o = "{" -> "}" [] o = "<" -> ">" [] OTHER -> o
Frame(kind, x, ret) == [k |-> kind, x |-> x, ret |-> ret]
Top == IF st = <<>> THEN Frame("code", "", 0) ELSE st[Len(st)]
Pop == SubSeq(st, 1, Len(st) - 1)
InText == Top.k \in {"str", "here"}

(* what is wrong with a token here, "" if nothing is *)
Wrong(t) ==
  LET n == t[1]  v == t[2]  b == t[3]  e == t[4]  x == Sub(b, e) IN
  IF ~(b <= e /\ e <= Size) THEN "range"
  ELSE IF \E g \in regs : b < e /\ b < g[2] /\ g[1] < e THEN "reads a heredoc body twice"
  ELSE IF InText /\ n # "EOF" /\ Skip(pos) # b /\ pos # b THEN "text skipped in a literal"
  ELSE IF ~InText /\ n \notin {"EOF"} /\ ~(b >= pos /\ Blank(pos, b)) THEN "text skipped"
  ELSE IF InText /\ n \notin InStr \cup StrEnd /\ ~(k > 1 /\ toks[k - 1][1] = "tSTRING_DVAR" /\ n \in Names) THEN "code in a literal"
  ELSE IF ~InText /\ n \in InStr \cup StrEnd THEN "text in code"
  ELSE IF n \in DOMAIN Fixed /\ x \notin Fixed[n] THEN "spelling"
  ELSE IF n \in Names /\ x # v THEN "name"
  ELSE IF n = "tLABEL" /\ x # v \o ":" THEN "label"
  ELSE IF n = "tNL" /\ ~(x = "\n" \/ (x = "\r" /\ Ch(e) = "\n") \/ (x = "" /\ b = Size)) THEN "newline"
  ELSE IF n \in {"tINTEGER", "tFLOAT", "tRATIONAL", "tIMAGINARY"} /\ (SubSeq(x, 1, 1) \notin Digits \cup {"+"} \/ x # v) THEN "number"
  ELSE IF n = "tCHAR" /\ SubSeq(x, 1, 1) # "?" THEN "character"
  ELSE IF n = "tSYMBEG" /\ SubSeq(x, 1, 1) \notin {":", "%"} THEN "symbol"
  ELSE IF n = "tSTRING_DEND" /\ ~(st # <<>> /\ Top.k = "code") THEN "interpolation"
  ELSE IF n \in StrEnd /\ Top.k = "str" /\
          ~(IF n = "tLABEL_END" THEN x = Top.x \o ":" ELSE IF n = "tREGEXP_END" THEN SubSeq(x, 1, Len(Top.x)) = Top.x ELSE x = Top.x) THEN "delimiter"
  ELSE IF n \in StrEnd /\ Top.k = "here" /\ ~(Strip(x) = Top.x /\ (b = 0 \/ Ch(b - 1) = "\n") /\ (e = Size \/ Ch(e) = "\n" \/ Sub(e, e + 2) = "\r\n")) THEN "terminator"
  ELSE IF n = "EOF" /\ st # <<>> THEN "open literal at the end"
  ELSE ""
Ends(p) == \/ p = Size
           \/ Ch(p) \in {"Ā", "Ą", "Ě"}
           \/ (Sub(p, p + 7) = "__END__" /\ (p = 0 \/ Ch(p - 1) = "\n") /\ (p + 7 = Size \/ Ch(p + 7) = "\n" \/ Sub(p + 7, p + 9) = "\r\n"))
IsHere(t) == t[1] \in {"tSTRING_BEG", "tXSTRING_BEG"} /\ Sub(t[3], t[3] + 2) = "<<"
Opens(t) == t[1] \in StrBeg \/ (t[1] = "tSYMBEG" /\ t[4] - t[3] > 1)

Init == r \in DOMAIN Traces /\ k = 1 /\ pos = 0 /\ st = <<>> /\ regs = {} /\ err = ""
Move(t) ==
  LET n == t[1]  b == t[3]  e == t[4]  x == Sub(b, e) IN
  IF IsHere(t) THEN /\ pos' = Skip(NextLine(e))
                    /\ st' = Append(st, Frame("here", HereId(x), <<e, Skip(NextLine(e))>>)) /\ UNCHANGED regs
  ELSE IF Opens(t) THEN pos' = e /\ st' = Append(st, Frame("str", Closer(SubSeq(x, Len(x), Len(x))), <<0, 0>>)) /\ UNCHANGED regs
  ELSE IF n = "tSTRING_DBEG" THEN pos' = e /\ st' = Append(st, Frame("code", "", <<0, 0>>)) /\ UNCHANGED regs
  ELSE IF n = "tSTRING_DEND" THEN pos' = e /\ st' = Pop /\ UNCHANGED regs
  ELSE IF n \in StrEnd /\ Top.k = "here" THEN pos' = Top.ret[1] /\ st' = Pop /\ regs' = regs \cup {<<Top.ret[2], AfterEol(e)>>}
  ELSE IF n \in StrEnd THEN pos' = e /\ st' = Pop /\ UNCHANGED regs
  ELSE IF n = "EOF" THEN UNCHANGED <<pos, st, regs>>
  ELSE pos' = e /\ UNCHANGED <<st, regs>>
Next == /\ err = "" /\ k <= Len(toks) /\ UNCHANGED r
        /\ LET t == toks[k]  w == Wrong(t) IN
           IF w # "" THEN err' = w /\ UNCHANGED <<k, pos, st, regs>>
           ELSE Move(t) /\ k' = k + 1 /\ err' = IF t[1] = "EOF" /\ k # Len(toks) THEN "tokens after the end" ELSE ""
Read == \E p \in pos..Size : Ends(p) /\ Blank(pos, p)
Emit == IF err # "" THEN Out([bad |-> r, why |-> err, tok |-> k])
        ELSE IF k > Len(toks) THEN IF Len(toks) > 0 /\ toks[Len(toks)][1] = "EOF" /\ Read THEN Out([acc |-> r]) ELSE Out([bad |-> r, why |-> "text left at the end", tok |-> k])
        ELSE TRUE
=============================================================================
