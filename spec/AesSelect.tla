----------------------------- MODULE AesSelect -----------------------------
(***************************************************************************)
(* Which implementation a build of the library consists of.                *)
(*                                                                         *)
(* A configuration is a target architecture, the target features that were *)
(* asked for, and the two cargo features.  The README says which           *)
(* implementation it selects; the states of this specification are all the *)
(* configurations, and the invariants are what the README promises of the  *)
(* selection as a whole.  Every configuration is really built (module      *)
(* Built below, read from the trace): it must compile, and the operations  *)
(* of each width, watched while they run, must execute the AES             *)
(* instructions of the selected implementation, at its width, and no       *)
(* others; software that is promised to be constant-time must show the     *)
(* same addresses for different secrets.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Arches == {"x86_64", "i686", "aarch64", "aarch64_be", "armv7", "riscv64", "riscv32", "s390x"}
X86 == {"x86_64", "i686"}
RV == {"riscv64", "riscv32"}
BigEndian == {"aarch64_be", "s390x"}

\* the target features one can ask for that matter here
Asked(a) == CASE a \in X86 -> {"sse4.1", "aes", "vaes", "avx512f"}
              [] a \in {"aarch64", "aarch64_be"} -> {"aes"}
              [] a = "armv7" -> {"v8", "aes"}
              [] a \in RV -> {"zkne", "zknd"}
              [] OTHER -> {}
\* asking for one turns on those it builds upon
RECURSIVE Closed(_, _)
Implied(a, f) == IF a \notin X86 THEN {}
                 ELSE CASE f = "vaes" -> {"avx2", "aes"}
                        [] f = "avx512f" -> {"avx2"}
                        [] f = "avx2" -> {"sse4.1"}
                        [] OTHER -> {}
Closed(a, S) == LET T == S \cup UNION {Implied(a, f) : f \in S}
                IN IF T = S THEN S ELSE Closed(a, T)

CONSTANT Mutant     \* "none", or a mistake in the selection, which TLC must find
VARIABLES arch, asked, nightly, ct
vars == <<arch, asked, nightly, ct>>
Config == {c \in [arch : Arches, asked : SUBSET {"sse4.1", "aes", "vaes", "avx512f", "v8", "zkne", "zknd"},
                  nightly : BOOLEAN, ct : BOOLEAN] : c.asked \subseteq Asked(c.arch)}
Here == [arch |-> arch, asked |-> asked, nightly |-> nightly, ct |-> ct]
Has(c) == Closed(c.arch, c.asked)

---------------------------------------------------------------------------
\* the implementation of single blocks, as the README documents it
Base(c) ==
    CASE c.arch \in X86 /\ {"sse4.1", "aes"} \subseteq Has(c) -> "aesni"
      [] Mutant = "ct-first" /\ c.ct -> "constant-time"
      [] c.arch = "aarch64" /\ "aes" \in Has(c) -> "neon"
      [] Mutant = "big-endian" /\ c.arch = "aarch64_be" /\ "aes" \in Has(c) -> "neon"
      [] c.arch = "armv7" /\ c.nightly /\ {"v8", "aes"} \subseteq Has(c) -> "neon"
      [] c.arch \in RV /\ c.nightly /\ {"zkne", "zknd"} \subseteq Has(c) -> "rv"
      [] c.ct /\ ~(Mutant = "not-with-nightly" /\ c.nightly) -> "constant-time"
      [] OTHER -> "software"
Hardware == {"aesni", "neon", "rv"}
\* the widest AES instructions, in bits, for two and for four blocks (0: none)
Vector(c) == c.arch \in X86 /\ (c.nightly \/ Mutant = "stable") /\ "vaes" \in Has(c)
Bits(c, blocks) ==
    IF Base(c) \notin Hardware THEN 0
    ELSE IF Base(c) = "rv" THEN IF c.arch = "riscv64" THEN 64 ELSE 32
    ELSE CASE blocks = 1 -> 128
           [] blocks = 2 -> IF Vector(c) THEN 256 ELSE 128
           [] blocks = 4 -> IF Vector(c) THEN IF "avx512f" \in Has(c) THEN 512 ELSE 256 ELSE 128
\* "all the accelerated implementations are constant-time", and the feature makes the others so
Silent(c) == Base(c) # "software"

---------------------------------------------------------------------------
Init == arch \in Arches /\ asked = {} /\ nightly = FALSE /\ ct = FALSE
\* turning one thing on
Ask == \E f \in Asked(arch) \ asked : asked' = asked \cup {f} /\ UNCHANGED <<arch, nightly, ct>>
Nightly == ~nightly /\ nightly' = TRUE /\ UNCHANGED <<arch, asked, ct>>
Ct == ~ct /\ ct' = TRUE /\ UNCHANGED <<arch, asked, nightly>>
Next == Ask \/ Nightly \/ Ct
Spec == Init /\ [][Next]_vars

IsConfig == Here \in Config
\* constant-time, once asked for, is had
AskedIsHad == ct => Silent(Here)
\* where the vector implementations are selected, so is the one they build upon
VectorNeedsBase == Vector(Here) => Base(Here) = "aesni"
WideNeedsBase == \A b \in {2, 4} : Bits(Here, b) > 128 => Base(Here) = "aesni" /\ nightly
\* a feature more never loses anything: neither speed nor silence
NeverLess == [][/\ \A b \in {1, 2, 4} : Bits(Here, b) <= Bits(Here, b)'
                /\ Silent(Here) => Silent(Here)'
                /\ Base(Here) \in Hardware => Base(Here)' = Base(Here)]_vars
\* constant-time has no effect where an accelerated one is selected
CtIsIdle == [][Ct => (Base(Here) \in Hardware => Base(Here)' = Base(Here) /\ \A b \in {1, 2, 4} : Bits(Here, b)' = Bits(Here, b))]_vars
\* big-endian machines are never given the little-endian instructions
BigIsSoft == arch \in BigEndian => Base(Here) \notin Hardware

---------------------------------------------------------------------------
\* for the program that builds them: all configurations, and which of them show every requirement to be both needed
\* and enough: from where one thing more, or one less, always selects something else
More(c) == {[c EXCEPT !.asked = @ \cup {f}] : f \in Asked(c.arch) \ c.asked}
           \cup (IF c.nightly THEN {} ELSE {[c EXCEPT !.nightly = TRUE]}) \cup (IF c.ct THEN {} ELSE {[c EXCEPT !.ct = TRUE]})
Less(c) == {[c EXCEPT !.asked = @ \ {f}] : f \in c.asked}
           \cup (IF c.nightly THEN {[c EXCEPT !.nightly = FALSE]} ELSE {}) \cup (IF c.ct THEN {[c EXCEPT !.ct = FALSE]} ELSE {})
Same(c, d) == Base(c) = Base(d) /\ \A b \in {1, 2, 4} : Bits(c, b) = Bits(d, b)
Border(c) == (\A d \in More(c) : ~Same(c, d)) \/ (\A d \in Less(c) : ~Same(c, d))
Listed(c) == [arch |-> c.arch, asked |-> SetToSeq(c.asked), nightly |-> c.nightly, ct |-> c.ct,
              base |-> Base(c), vector |-> Bits(c, 4), silent |-> Silent(c), border |-> Border(c)]
=============================================================================
