------------------------------ MODULE AesLeak ------------------------------
(***************************************************************************)
(* What somebody sees who observes control flow and addresses.             *)
(*                                                                         *)
(* A run of an operation f on a build b has a public part n (lengths) and  *)
(* a secret part (keys and blocks).  The observer sees a sequence of       *)
(* instruction addresses and data addresses.  A build leaks nothing when   *)
(* there is a function seen, of the build, the operation and the public    *)
(* part alone, such that every run shows seen[b, f, n].                    *)
(*                                                                         *)
(* Two ways of observing are recorded from the real code:                  *)
(*   watch: one run was single-stepped; o stands for what was seen.  The   *)
(*          first run of (b, f, n) fixes the function, the others obey it. *)
(*   taint: one run was followed with all secrets marked; c counts the     *)
(*          branches and addresses that depended on marked data.  This     *)
(*          speaks about every secret that takes the same path, and the    *)
(*          path of every secret is the same when c = 0.                   *)
(* The control operations, which are not the library's, leak on purpose:   *)
(* the observer must notice, or it would be blind.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES seen,  \* function (build, operation, public part) -> observation, as far as it is known
          told,  \* control runs that were told apart
          l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Key(e) == <<e.b, e.f, e.n>>
Control(e) == e.f \in {"control_table", "control_branch"}

Init == seen = << >> /\ told = {} /\ l = 1

\* is e what the specification allows?
Allowed(e) == IF e.k = "taint" THEN e.c = 0
              ELSE IF Key(e) \in DOMAIN seen THEN seen[Key(e)] = e.o
              ELSE TRUE
Report(e) == IF Control(e) THEN TRUE
             ELSE IF Allowed(e) THEN TRUE
             ELSE PrintT(<<"LEAK", l>>)

Watch(e) == /\ e.k = "watch"
            /\ seen' = IF Key(e) \in DOMAIN seen THEN seen ELSE seen @@ (Key(e) :> e.o)
Taint(e) == e.k = "taint" /\ UNCHANGED seen
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
              /\ Report(e)
              /\ Watch(e) \/ Taint(e)
              /\ told' = IF Control(e) /\ ~Allowed(e) THEN told \cup {<<e.b, e.k, e.f>>} ELSE told
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<seen, told, l>>

\* every build, watched in whatever way, had its control operations told apart
NotBlind == l > Len(Trace) =>
    \A i \in 1..Len(Trace) : Control(Trace[i]) => <<Trace[i].b, Trace[i].k, Trace[i].f>> \in told
AllRead == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
