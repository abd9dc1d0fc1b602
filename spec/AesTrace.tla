------------------------------ MODULE AesTrace ------------------------------
(***************************************************************************)
(* Trace validation.  A trace is the list of public calls made on the real *)
(* library, each with its arguments and with every distinct outcome that   *)
(* the executed builds (backends, platforms, debug and release, threads)   *)
(* produced for it.  Every event must be a step of AesApi, and every       *)
(* outcome must be the outcome AesApi determines.                          *)
(***************************************************************************)
EXTENDS AesApi, Json, IOUtils, TLC

VARIABLES l,
          txt      \* what Debug made of objects so far: a text for a direction, key and format
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

TPrivate == 0..15
TSlots == TPrivate \cup (100..115)     \* 100..: objects shared by threads
TRegs == 1..8
TWidths == {1, 2, 4}

TraceInit == Init /\ l = 1 /\ txt = <<>>

\* Nothing is said about the Debug text of a cipher object, but that it is a function of what the object is: the same
\* for clones and after conversions back and forth, on every build
ObjectText(e) ==
    LET o == [c |-> cip[e.s], f |-> e.f]
        t == IF o \in DOMAIN txt THEN txt[o] ELSE e.o[1].v
    IN /\ cip[e.s] # Absent
       /\ out' = Ok(t)
       /\ txt' = (o :> t) @@ txt
       /\ UNCHANGED <<cip, reg>>

Agrees(e) == IF \A i \in 1..Len(e.o) : e.o[i] = out' THEN TRUE
             ELSE PrintT(<<"MISMATCH", l, ToJson(out')>>) /\ FALSE

TraceNext == /\ l <= Len(Trace)
             /\ IF Trace[l].op = "kt" THEN ObjectText(Trace[l])
                ELSE Do(Trace[l]) /\ txt' = IF Trace[l].op = "reset" THEN <<>> ELSE txt
             /\ Agrees(Trace[l])
             /\ l' = l + 1

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l, txt>>
\* each consumed line is one state; l tells the states apart
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
