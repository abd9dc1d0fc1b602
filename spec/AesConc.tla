------------------------------ MODULE AesConc -------------------------------
(***************************************************************************)
(* Threads that share cipher objects.  A call is not atomic: a thread      *)
(* reads the round keys of the object one after the other and updates its  *)
(* own state round by round; a conversion reads them one after the other   *)
(* and builds a new array.  TLC explores every interleaving; every call    *)
(* must return what it would return alone (AesApi).                        *)
(*                                                                         *)
(* Scratch says where a call keeps its state.  "own" is the design: the    *)
(* objects are read only and the state is the thread's.  The others are    *)
(* mistakes for which TLC must find a bad interleaving:                    *)
(*   shared: one place for all threads (a static buffer)                   *)
(*   object: the round keys of the object are prepared in place on the     *)
(*           first use, and the flag is set before they are                *)
(*   cache:  the last key expansion is kept in two steps, key then result  *)
(*   table:  a table for all objects is made by the first key expansion of  *)
(*           the process, and said to be ready before it is filled         *)
(***************************************************************************)
EXTENDS Rijndael

CONSTANTS Threads, Scratch
VARIABLES pc,      \* thread -> step of its call
          job,     \* thread -> the call: [op, x]
          loc,     \* thread -> its state
          arr,     \* thread -> the array it builds
          static,  \* the shared place
          rk,      \* round keys of the shared object
          ready,   \* whether they are prepared
          cache    \* [key, w] of the last expansion
vars == <<pc, job, loc, arr, static, rk, ready, cache>>

Mix2 == <<2, 1>>
InvMix2 == <<1, 3>>
TheKey == [i \in 1..NCells |-> (3 * i + 1) % 2^E]
OtherKey == [i \in 1..NCells |-> (i + 2) % 2^E]
W == TLCEval(KeyExpansion(TheKey))
W2 == TLCEval(KeyExpansion(OtherKey))
DK == TLCEval(DecRoundKeys(W))
N == Len(W)
Blocks2 == {[i \in 1..NCells |-> i % 2^E], [i \in 1..NCells |-> 2 % 2^E]}
Jobs == [op : {"enc", "dec", "conv", "new"}, x : Blocks2]

Init == /\ job \in [Threads -> Jobs]
        /\ \A t \in Threads : job[t].op \in {"conv", "new"} => job[t].x = CHOOSE b \in Blocks2 : TRUE
        /\ pc = [t \in Threads |-> 0]
        /\ loc = [t \in Threads |-> ZeroBlock]
        /\ arr = [t \in Threads |-> <<>>]
        /\ static = ZeroBlock
        /\ rk = IF Scratch = "object" THEN [i \in 1..N |-> ZeroBlock] ELSE W
        /\ ready = (Scratch \notin {"object", "table"})
        /\ cache = [key |-> <<>>, w |-> <<>>]

\* the state of a call
State(t) == IF Scratch = "shared" THEN static ELSE loc[t]
SetState(t, v) == IF Scratch = "shared" THEN static' = v /\ UNCHANGED loc
                  ELSE loc' = [loc EXCEPT ![t] = v] /\ UNCHANGED static

\* one step of an encryption or decryption: step 1 takes the block and the first key, step i the i-th key
Key(op, i) == IF op = "enc" THEN rk[i]
              ELSE IF i \in {1, N} THEN rk[N + 1 - i] ELSE InvMixColumns(rk[N + 1 - i])
Rnd(op, i, s, k) == IF op = "enc" THEN (IF i = N THEN EncLast(s, k) ELSE Enc(s, k))
                    ELSE IF i = N THEN DecLast(s, k) ELSE Dec(s, k)
Crypt(t) ==
    LET o == job[t].op
        i == pc[t] + 1
    IN /\ o \in {"enc", "dec"} /\ (ready \/ Scratch = "table") /\ pc[t] \in 0..N-1
       /\ SetState(t, IF i = 1 THEN XorSeq(job[t].x, Key(o, 1)) ELSE Rnd(o, i, State(t), Key(o, i)))
       /\ pc' = [pc EXCEPT ![t] = i]
       /\ UNCHANGED <<job, arr, rk, ready, cache>>
\* preparing the object in place: the flag first
Prepare(t) == /\ ~ready /\ Scratch = "object" /\ pc[t] = 0 /\ job[t].op # "new"
              /\ ready' = TRUE
              /\ pc' = [pc EXCEPT ![t] = -1]
              /\ UNCHANGED <<job, loc, arr, static, rk, cache>>
Fill(t) == /\ pc[t] = -1 /\ Scratch = "object"
           /\ rk' = W
           /\ pc' = [pc EXCEPT ![t] = 0]
           /\ UNCHANGED <<job, loc, arr, static, ready, cache>>
\* a conversion reads the keys backwards
Conv(t) == LET i == pc[t] + 1 IN
    /\ job[t].op = "conv" /\ (ready \/ Scratch = "table") /\ pc[t] < N
    /\ pc[t] >= 0
    /\ arr' = [arr EXCEPT ![t] = Append(@, IF i \in {1, N} THEN rk[N + 1 - i] ELSE InvMixColumns(rk[N + 1 - i]))]
    /\ pc' = [pc EXCEPT ![t] = i]
    /\ UNCHANGED <<job, loc, static, rk, ready, cache>>
\* a new object: of one key on even threads, of another on odd ones
Mine(t) == IF t % 2 = 0 THEN TheKey ELSE OtherKey
MineW(t) == IF t % 2 = 0 THEN W ELSE W2
New(t) == /\ job[t].op = "new" /\ Scratch # "table"
          /\ \/ /\ pc[t] = 0
                /\ IF Scratch = "cache" /\ cache.key = Mine(t)
                   THEN arr' = [arr EXCEPT ![t] = cache.w] /\ pc' = [pc EXCEPT ![t] = N] /\ UNCHANGED cache
                   ELSE arr' = [arr EXCEPT ![t] = MineW(t)] /\ pc' = [pc EXCEPT ![t] = 1]
                        /\ cache' = IF Scratch = "cache" THEN [cache EXCEPT !.key = Mine(t)] ELSE cache
             \/ /\ pc[t] = 1
                /\ cache' = IF Scratch = "cache" THEN [cache EXCEPT !.w = arr[t]] ELSE cache
                /\ pc' = [pc EXCEPT ![t] = N]
                /\ UNCHANGED arr
          /\ UNCHANGED <<job, loc, static, rk, ready>>

\* the same with a table, here cache.w: empty until it is filled
Table(t) == /\ job[t].op = "new" /\ Scratch = "table"
            /\ \/ /\ pc[t] = 0 /\ ~ready                \* the first one
                  /\ ready' = TRUE
                  /\ pc' = [pc EXCEPT ![t] = 1]
                  /\ UNCHANGED <<arr, cache>>
               \/ /\ pc[t] = 1                           \* fills it
                  /\ cache' = [cache EXCEPT !.w = W]
                  /\ pc' = [pc EXCEPT ![t] = 2]
                  /\ UNCHANGED <<arr, ready>>
               \/ /\ \/ pc[t] = 2                        \* and uses it, like all others
                     \/ pc[t] = 0 /\ ready
                  /\ arr' = [arr EXCEPT ![t] = IF cache.w = <<>> THEN <<>> ELSE MineW(t)]
                  /\ pc' = [pc EXCEPT ![t] = N]
                  /\ UNCHANGED <<cache, ready>>
            /\ UNCHANGED <<job, loc, static, rk>>

Next == \E t \in Threads : Crypt(t) \/ Prepare(t) \/ Fill(t) \/ Conv(t) \/ New(t) \/ Table(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done(t) == pc[t] = N
Alone(t) == CASE job[t].op = "enc" -> Cipher(W, job[t].x)
              [] job[t].op = "dec" -> InvCipher(W, job[t].x)
              [] job[t].op = "conv" -> DK
              [] job[t].op = "new" -> MineW(t)
Result(t) == IF job[t].op \in {"enc", "dec"} THEN State(t) ELSE arr[t]
\* a result is looked at when the call returns; with a shared place it may be overwritten even before
Linearizable == \A t \in Threads : Done(t) => Result(t) = Alone(t)
ReadOnly == [][Scratch # "object" => rk' = rk]_vars
Finish == <>(\A t \in Threads : Done(t))
=============================================================================
