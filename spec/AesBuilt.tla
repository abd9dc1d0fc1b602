------------------------------ MODULE AesBuilt ------------------------------
(***************************************************************************)
(* What was seen of the configurations that were really built, judged by   *)
(* AesSelect.  An event is one configuration and either                    *)
(*   k = "build":  ok, whether the library compiles;                       *)
(*   k = "run":    isa, the AES instructions (by width in bits) that the   *)
(*                 operation op, on so many blocks, executed;                      *)
(*   k = "has":    isa, those that its machine code contains at all, if the *)
(*                 configuration cannot be executed here;                  *)
(*   k = "watch":  same, whether runs of an operation on different secrets *)
(*                 showed the same instruction and data addresses.         *)
(***************************************************************************)
EXTENDS AesSelect
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
C(e) == [arch |-> e.arch, asked |-> {e.asked[i] : i \in 1..Len(e.asked)}, nightly |-> e.nightly, ct |-> e.ct]
Allowed(e) == CASE e.k = "build" -> e.ok
                [] e.k = "run" -> {e.isa[i] : i \in 1..Len(e.isa)} = {Bits(C(e), e.blocks)} \ {0}
                [] e.k = "has" -> {e.isa[i] : i \in 1..Len(e.isa)} = {Bits(C(e), b) : b \in {1, 2, 4}} \ {0}
                [] e.k = "watch" -> Silent(C(e)) = e.same
TInit == l = 1 /\ arch = "" /\ asked = {} /\ nightly = FALSE /\ ct = FALSE
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN
               /\ C(e) \in Config
               /\ arch' = e.arch /\ asked' = C(e).asked /\ nightly' = e.nightly /\ ct' = e.ct
               /\ IF Allowed(e) THEN TRUE ELSE PrintT(<<"DIFFERS", l>>)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<vars, l>>
AllRead == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
