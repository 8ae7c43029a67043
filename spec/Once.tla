-------------------------------- MODULE Once --------------------------------
(***************************************************************************)
(* Creation of the shared market-data instance by concurrent first users.  *)
(* A call is: begin, enter the critical section, look, create if nothing   *)
(* is there (allocate, then initialise, then publish), leave, return.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Threads
VARIABLES pc,        \* thread -> "idle" | "called" | "looking" | "allocated" | "initialised" | "leaving"
          lock,      \* thread in the critical section, or 0
          inst,      \* published instance, 0 if none
          made,      \* instances created so far
          ready,     \* instances completely initialised
          got        \* thread -> set of instances its calls returned
ovars == <<pc, lock, inst, made, ready, got>>

OInit == /\ pc = [t \in Threads |-> "idle"] /\ lock = 0 /\ inst = 0 /\ made = 0 /\ ready = {}
         /\ got = [t \in Threads |-> {}]
Go(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
Call(t)    == Go(t, "idle", "called") /\ UNCHANGED <<lock, inst, made, ready, got>>
Enter(t)   == Go(t, "called", "looking") /\ lock = 0 /\ lock' = t /\ UNCHANGED <<inst, made, ready, got>>
Found(t)   == Go(t, "looking", "leaving") /\ inst # 0 /\ UNCHANGED <<lock, inst, made, ready, got>>
Alloc(t)   == Go(t, "looking", "allocated") /\ inst = 0 /\ made' = made + 1 /\ UNCHANGED <<lock, inst, ready, got>>
Fill(t)    == Go(t, "allocated", "initialised") /\ ready' = ready \cup {made} /\ UNCHANGED <<lock, inst, made, got>>
Publish(t) == Go(t, "initialised", "leaving") /\ inst' = made /\ UNCHANGED <<lock, made, ready, got>>
Return(t)  == Go(t, "leaving", "idle") /\ lock' = 0 /\ got' = [got EXCEPT ![t] = @ \cup {inst}] /\ UNCHANGED <<inst, made, ready>>
Inner(t)   == Enter(t) \/ Found(t) \/ Alloc(t) \/ Fill(t) \/ Publish(t)
ONext == \E t \in Threads : Call(t) \/ Inner(t) \/ Return(t)
OSpec == OInit /\ [][ONext]_ovars /\ \A t \in Threads : SF_ovars(Inner(t)) /\ WF_ovars(Return(t))

OneInstance == made <= 1
Same        == \A t \in Threads : got[t] \subseteq {1}
Complete    == \A t \in Threads : got[t] \subseteq ready
Mutex       == \A t \in Threads : pc[t] \in {"looking", "allocated", "initialised", "leaving"} => lock = t
Answered    == \A t \in Threads : (pc[t] = "called") ~> (pc[t] = "idle")
=============================================================================
