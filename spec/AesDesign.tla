----------------------------- MODULE AesDesign ------------------------------
(***************************************************************************)
(* The library as it is built, for any field and state size: a cipher      *)
(* object is an array of round keys in the order it uses them; decrypters  *)
(* hold the reversed keys with InvMixColumns applied to the middle ones;   *)
(* conversions reverse and transform the array; en- and decryption are a   *)
(* chain of rounds over all keys but the last, and a last round; wide      *)
(* values are pairs of narrower ones and round keys are broadcast.         *)
(*                                                                         *)
(* The property Refines says that this is AesApi, in which an object is a  *)
(* FIPS key expansion and a direction, and decryption is the straight      *)
(* inverse cipher.  TLC decides it over all keys, blocks and histories of  *)
(* small instances (the constants E, Rows, Cols), and over samples of the  *)
(* real one.                                                               *)
(*                                                                         *)
(* Form is how rounds are composed:                                        *)
(*   fold: enc(x, k), one round after the other                            *)
(*   pre:  the ARMv8 instructions, AESMC(AESE(x, k)), which add the key    *)
(*         before the round, and a final xor                               *)
(*   esm:  the RV64 instructions, which produce a state half at a time     *)
(* Mutant names a deliberate mistake; "none" is the design, and for every  *)
(* other value TLC must find the refinement broken.                        *)
(***************************************************************************)
EXTENDS Blocks

CONSTANTS Slots, Private, Regs, Widths, Form, Mutant,
          Keys,     \* keys that may be given to a constructor
          Xs,       \* single blocks, of which all arguments are made
          Lists,    \* lists of single blocks: keys of a chain
          Ops       \* operations that may be called
VARIABLES obj, reg, out, call
vars == <<obj, reg, out, call>>

None == [dir |-> "-", rk |-> <<>>]

ASSUME InverseMatrix ==
    \A i \in Cell : \A p \in 1..Rows :
        LET col == [r \in 1..Rows |-> IF r = p THEN i ELSE 0]
        IN MixBy(InvMixM, MixBy(MixM, col)) = col

(******************** rounds ************************************************)
AESE(x, k) == SubBytes(ShiftRows(XorSeq(x, k)))
AESD(x, k) == InvSubBytes(InvShiftRows(XorSeq(x, k)))

\* RV64: an instruction gives one half of the result; for the other half its operands are swapped
HalfOf(x, h) == SubSeq(x, h * (NCells \div 2) + 1, (h + 1) * (NCells \div 2))
Swapped(x) == HalfOf(x, 1) \o HalfOf(x, 0)
Both(x, f(_)) == HalfOf(f(x), 0) \o HalfOf(f(Swapped(x)), 0)

Round1(f, x, k) ==
    IF Form = "pre" THEN
        CASE f = "enc"  -> XorSeq(MixColumns(AESE(x, ZeroBlock)), k)
          [] f = "encl" -> XorSeq(AESE(x, ZeroBlock), k)
          [] f = "dec"  -> XorSeq(InvMixColumns(AESD(x, ZeroBlock)), k)
          [] f = "decl" -> XorSeq(AESD(x, ZeroBlock), k)
    ELSE IF Form = "esm" THEN
        CASE f = "enc"  -> XorSeq(Both(x, LAMBDA s : MixColumns(SubBytes(ShiftRows(s)))), k)
          [] f = "encl" -> XorSeq(Both(x, LAMBDA s : SubBytes(ShiftRows(s))), k)
          [] f = "dec"  -> XorSeq(Both(x, LAMBDA s : InvMixColumns(InvSubBytes(InvShiftRows(s)))), k)
          [] f = "decl" -> XorSeq(Both(x, LAMBDA s : InvSubBytes(InvShiftRows(s))), k)
    ELSE
        CASE f = "enc"  -> Enc(x, k)
          [] f = "encl" -> EncLast(x, k)
          [] f = "dec"  -> Dec(x, k)
          [] f = "decl" -> DecLast(x, k)
PreRound(f, x, k) == IF f = "enc" THEN MixColumns(AESE(x, k)) ELSE InvMixColumns(AESD(x, k))

Chain1(f, x, ks) ==
    IF Form = "pre" THEN XorSeq(FoldLeft(LAMBDA a, k : PreRound(f, a, k), x, Front(ks)), Last(ks))
    ELSE FoldLeft(LAMBDA a, k : Round1(f, a, k), XorSeq(x, Head(ks)),
                  IF Mutant = "chain-drops-odd" /\ Len(ks) % 2 = 0 /\ Len(ks) > 2 THEN Front(Tail(ks)) ELSE Tail(ks))

\* a value of width w: one block, or the two halves
Half(v, h) == SubSeq(v, h * (Len(v) \div 2) + 1, (h + 1) * (Len(v) \div 2))
RECURSIVE WideRound(_, _, _), WideChain(_, _, _)
WideRound(f, x, k) ==
    IF Len(x) = NCells THEN Round1(f, x, k)
    ELSE WideRound(f, Half(x, 0), Half(k, 0)) \o WideRound(f, Half(x, 1), Half(k, IF Mutant = "lane-key" THEN 0 ELSE 1))
WideChain(f, x, ks) ==
    IF Len(x) = NCells THEN Chain1(f, x, ks)
    ELSE WideChain(f, Half(x, 0), [i \in 1..Len(ks) |-> Half(ks[i], 0)])
         \o WideChain(f, Half(x, 1), [i \in 1..Len(ks) |-> Half(ks[i], 1)])
Broadcast(w, k) == CASE w = 1 -> k [] w = 2 -> k \o k [] w = 4 -> (k \o k) \o (k \o k)

(******************** cipher objects ****************************************)
MapMiddle(op(_), rk) ==
    LET n == Len(rk) IN TLCEval([i \in 1..n |->
        IF i = 1 \/ i = n \/ (Mutant = "middle" /\ i = n - 1) THEN rk[n + 1 - i] ELSE op(rk[n + 1 - i])])
MixByRound(x)    == IF Form = "fold" THEN MixColumns(x)
                    ELSE Round1("enc", Round1("decl", x, ZeroBlock), ZeroBlock)   \* no instruction for it alone
InvMixByRound(x) == IF Form = "fold" THEN InvMixColumns(x)
                    ELSE Round1("dec", Round1("encl", x, ZeroBlock), ZeroBlock)
DecKeys(rk) == MapMiddle(InvMixByRound, rk)
EncKeys(rk) == MapMiddle(MixByRound, rk)
New(d, key) == LET rk == KeyExpansion(key) IN [dir |-> d, rk |-> IF d = "E" THEN rk ELSE DecKeys(rk)]
Converted(c) == IF c.dir = "E" THEN [dir |-> "D", rk |-> DecKeys(c.rk)]
                ELSE [dir |-> "E", rk |-> EncKeys(c.rk)]
CryptObj(c, x) ==
    LET w == Len(x) \div NCells
        ks == [i \in 1..Len(c.rk) |-> Broadcast(w, c.rk[i])]
        e == c.dir = "E"
        mid == WideChain(IF e THEN "enc" ELSE "dec", x, Front(ks))
    IN WideRound(IF e THEN "encl" ELSE "decl", mid, Last(ks))

(******************** calls *************************************************)
Init == /\ obj = [s \in Slots |-> None]
        /\ reg = [w \in Widths |-> [r \in Regs |-> Zeros(w * NCells)]]
        /\ out = [t |-> "ok", v |-> <<>>]
        /\ call = [op |-> "reset"]

Give(v) == out' = [t |-> "ok", v |-> v] /\ UNCHANGED reg
Quiet == out' = [t |-> "ok", v |-> <<>>] /\ UNCHANGED reg
Build(e) ==
    CASE e.op = "kn" -> obj' = [obj EXCEPT ![e.s] = New(e.f, e.h)] /\ Quiet
      [] e.op = "kc" -> /\ obj[e.s] # None
                        /\ obj' = IF Mutant = "convert-in-place" /\ e.d # e.s
                                  THEN [obj EXCEPT ![e.d] = Converted(obj[e.s]), ![e.s].rk = DecKeys(@)]
                                  ELSE [obj EXCEPT ![e.d] = Converted(obj[e.s])]
                        /\ Quiet
      [] e.op = "kl" -> /\ obj[e.s] # None
                        /\ obj' = IF Mutant = "lazy-clone" /\ obj[e.d] # None /\ Len(obj[e.d].rk) = Len(obj[e.s].rk)
                                     /\ obj[e.d].rk[1] = obj[e.s].rk[1]
                                  THEN obj ELSE [obj EXCEPT ![e.d] = obj[e.s]]
                        /\ Quiet
      [] e.op = "kd" -> obj' = [obj EXCEPT ![e.s] = None] /\ Quiet
      [] e.op = "kx" -> obj[e.s] # None /\ Give(CryptObj(obj[e.s], e.x.h)) /\ UNCHANGED obj
      [] e.op = "rnd" -> Give(WideRound(e.f, e.x.h, e.y.h)) /\ UNCHANGED obj
      [] e.op = "mix" -> Give(IF e.f = "mc" THEN MixByRound(e.x.h) ELSE InvMixByRound(e.x.h)) /\ UNCHANGED obj
      [] e.op = "chain" -> /\ IF e.k = <<>> THEN out' = [t |-> "panic", v |-> <<>>] /\ UNCHANGED reg
                              ELSE Give(WideChain(e.f, e.x.h, [i \in 1..Len(e.k) |-> e.k[i].h]))
                           /\ UNCHANGED obj

Lit(v) == [g |-> 0, h |-> v]
\* wide arguments: lane i of a value made from block x is x turned by i cells
Turn(x, n) == [i \in 1..NCells |-> x[1 + ((i + n - 1) % NCells)]]
Wide(w, x) == CASE w = 1 -> x [] w = 2 -> x \o Turn(x, 1) [] w = 4 -> x \o Turn(x, 1) \o Turn(x, 2) \o x
Rounds == {"enc", "encl", "dec", "decl"}
AllCalls == TLCEval(
    {[op |-> "kn", s |-> s, f |-> d, h |-> k] : s \in Slots, d \in {"E", "D"}, k \in Keys}
    \cup {[op |-> o, d |-> d, s |-> s] : o \in {"kc", "kl"}, d \in Slots, s \in Slots}
    \cup {[op |-> "kd", s |-> s] : s \in Slots}
    \cup {[op |-> "kx", w |-> w, s |-> s, x |-> Lit(Wide(w, x)), r |-> 0] : w \in Widths, s \in Slots, x \in Xs}
    \cup (IF "rnd" \in Ops THEN
          {[op |-> "rnd", w |-> w, f |-> f, x |-> Lit(Wide(w, x)), y |-> Lit(Wide(w, y)), r |-> 0] :
            w \in Widths, f \in Rounds, x \in Xs, y \in Xs} ELSE {})
    \cup (IF "mix" \in Ops THEN {[op |-> "mix", f |-> f, x |-> Lit(x), r |-> 0] : f \in {"mc", "imc"}, x \in Xs} ELSE {})
    \cup (IF "chain" \in Ops THEN
          {[op |-> "chain", w |-> w, f |-> f, x |-> Lit(Wide(w, x)), k |-> [i \in 1..Len(l) |-> Lit(Wide(w, l[i]))], r |-> 0] :
            w \in Widths, f \in {"enc", "dec"}, x \in Xs, l \in Lists} ELSE {}))
Calls == {e \in AllCalls : e.op \in Ops}
Next == \E e \in Calls : Build(e) /\ call' = e
Spec == Init /\ [][Next]_vars

(******************** what must hold ****************************************)
\* the key expansion an object stands for, read off the object alone
Expansion(c) == IF c = None THEN <<>>
                ELSE IF c.dir = "E" THEN c.rk
                ELSE LET n == Len(c.rk) IN
                     [i \in 1..n |-> IF i = 1 \/ i = n THEN c.rk[n + 1 - i] ELSE MixColumns(c.rk[n + 1 - i])]
Api == INSTANCE AesApi WITH cip <- [s \in Slots |-> [dir |-> obj[s].dir, w |-> Expansion(obj[s])]]
Refines == Api!Init /\ [][Api!Do(call')]_vars

\* every object is the one its key gives directly, in some direction
Canonical == \A s \in Slots : obj[s] # None => \E k \in Keys : obj[s] = New(obj[s].dir, k)

\* states differ by their objects; calls that leave them alone are checked and forgotten
Objects == obj

(******************** instances *********************************************)
Mix2 == CASE E = 4 -> <<2, 1>> [] E = 3 -> <<2, 1>> [] E = 2 -> <<2, 1>>
InvMix2 == CASE E = 4 -> <<5, 11>> [] E = 3 -> <<4, 2>> [] E = 2 -> <<1, 3>>
AllCells(n) == [1..n -> Cell]
Keys1 == TLCEval(AllCells(Rows))
KeysOf(n, seeds) == {[i \in 1..n * Rows |-> (31 * s + 17 * i + 7 * s * i + ((s * s + i * i) \div 3)) % 2^E] : s \in seeds}
AllBlocks == TLCEval(AllCells(NCells))
FewBlocks == {[i \in 1..NCells |-> (s * i + s * s) % 2^E] : s \in {0, 1, 3, 6}}
SomeBlocks == {[i \in 1..NCells |-> (s * i + s * s + ((i * i) \div 3)) % 2^E] : s \in 0..63}
TwoBlocks == {[i \in 1..NCells |-> (s * i + s * s) % 2^E] : s \in {0, 5}}
NoLists == {}
ShortLists == UNION {[1..n -> TwoBlocks] : n \in 0..5}
KeysSquare == TLCEval([1..2 * Rows -> Cell]) \cup KeysOf(3, 0..15) \cup KeysOf(4, 0..15)
KeysMixed == {<<1, 2>>, <<2, 9>>, <<7, 4, 1, 8>>, <<7, 4, 3, 3>>}    \* two of which start alike
KeysLong == KeysOf(6, 0..11) \cup KeysOf(7, 0..11) \cup KeysOf(8, 0..11) \cup KeysOf(4, 0..11)
KeysReal == KeysOf(4, 1..2) \cup KeysOf(6, 1..2) \cup KeysOf(8, 1..2)
KeysWide == KeysOf(2, 0..7) \cup KeysOf(3, 0..7) \cup KeysOf(4, 0..7)
=============================================================================
