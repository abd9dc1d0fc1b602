---------------------------- MODULE AesObserver -----------------------------
(***************************************************************************)
(* Two runs of one call with different secrets, side by side, and what an  *)
(* observer of control flow and addresses sees of each (C17).  The model   *)
(* says which designs can be constant time at all:                         *)
(*   gates:  the substitution is a fixed circuit                           *)
(*   table:  it is a table, indexed by the state (the fast software build, *)
(*           which makes no such promise)                                  *)
(*   skip:   a circuit, but a key word without bits is not substituted     *)
(*   early:  a circuit, but rounds on a block of zeros are cut short       *)
(* NonInterference must hold for gates and fail for the others.            *)
(***************************************************************************)
EXTENDS Rijndael

CONSTANT Design
VARIABLES run, \* run -> [key, x, rk, s]: its secrets and what it computed
          step,
          obs  \* run -> what the last step showed
vars == <<run, step, obs>>
Mix2 == <<2, 1>>
InvMix2 == <<5, 11>>
N == NrOf(1) + 1
Runs == {1, 2}
Col == [1..Rows -> Cell]

Init == /\ step = 0
        /\ \E k1 \in Col, x1 \in Col, k2 \in {[i \in 1..Rows |-> 5 * i], [i \in 1..Rows |-> 0]}, x2 \in {[i \in 1..Rows |-> 3 * i]} :
              run = [r \in Runs |-> IF r = 1 THEN [key |-> k1, x |-> x1, w |-> <<k1>>, s |-> x1]
                                    ELSE [key |-> k2, x |-> x2, w |-> <<k2>>, s |-> x2]]
        /\ obs = [r \in Runs |-> <<>>]

\* the places of the round function's code that run, and the addresses it reads: one entry each
SubObs(v) == CASE Design = "table" -> [i \in 1..Len(v) |-> <<"sbox", v[i]>>]
               [] OTHER -> <<"circuit", Len(v)>>
KeyObs(t) == IF Design = "skip" /\ \A i \in 1..Rows : t[i] = 0 THEN <<"skipped">> ELSE SubObs(t)
RoundObs(s) == IF Design = "early" /\ \A i \in 1..NCells : s[i] = 0 THEN <<"cut">> ELSE SubObs(s)

Expand(r, i) == LET w == run[r].w IN Append(w, NextWord(w, 1, i))
Advance(r) ==
    IF step < N - 1 THEN [run[r] EXCEPT !.w = Expand(r, step + 1)]
    ELSE LET i == step - N + 2 IN      \* key number i is added after round i - 1
         [run[r] EXCEPT !.s = IF i = 1 THEN XorSeq(@, run[r].w[1])
                              ELSE IF i = N THEN EncLast(@, run[r].w[i]) ELSE Enc(@, run[r].w[i])]
Seen(r) == IF step < N - 1 THEN <<"expand", step, KeyObs(run[r].w[step + 1])>>
           ELSE IF step = N - 1 THEN <<"xor">> ELSE <<"round", step, RoundObs(run[r].s)>>
Next == /\ step < 2 * N - 1
        /\ step' = step + 1
        /\ run' = [r \in Runs |-> Advance(r)]
        /\ obs' = [r \in Runs |-> Seen(r)]
Spec == Init /\ [][Next]_vars

NonInterference == obs[1] = obs[2]
\* the model does compute the cipher
Right == step = 2 * N - 1 => \A r \in Runs : run[r].s = Cipher(KeyExpansion(run[r].key), run[r].x)
=============================================================================
