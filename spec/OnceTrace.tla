----------------------------- MODULE OnceTrace -----------------------------
(* Recorded concurrent first uses: begin and end of every call, with the    *)
(* identity of the instance received and what it held on receipt.           *)
(* The inner steps of Once are not recorded, they are found by search.      *)
EXTENDS Once, TLC, Json, IOUtils, Rat
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES tr, pos, data      \* data: what the instance holds: [rate, known]
tv == <<ovars, tr, pos, data>>
Fresh == [rate |-> R("0x1.999999999999ap-5"), S |-> "absent"]
Ev == Traces[tr].ev[pos]
Adv == pos' = pos + 1 /\ tr' = tr /\ PrintT(IF pos' > Len(Traces[tr].ev) THEN <<"ACCEPT", Traces[tr].id>> ELSE <<"AT", Traces[tr].id, pos>>)
Seen(e) == R(e.rate) = data.rate /\ (IF IsNum(e.S) THEN R(e.S) ELSE e.S) = data.S
Outer ==
  /\ pos <= Len(Traces[tr].ev)
  /\ LET e == Ev IN
     CASE e.e = "call"  -> Call(e.t) /\ UNCHANGED data
       [] e.e = "ret"   -> Return(e.t) /\ e.i = inst /\ Seen(e) /\ UNCHANGED data
       [] e.e = "write" -> /\ data' = [rate |-> R(e.rate), S |-> R(e.S)] /\ UNCHANGED ovars
       [] OTHER -> FALSE
  /\ Adv
Hidden == pos <= Len(Traces[tr].ev) /\ (\E t \in Threads : Inner(t)) /\ UNCHANGED <<tr, pos, data>>
TInit == tr \in DOMAIN Traces /\ pos = 1 /\ OInit /\ data = Fresh
TNext == Outer \/ Hidden
=============================================================================
