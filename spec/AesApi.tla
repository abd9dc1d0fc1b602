------------------------------- MODULE AesApi -------------------------------
(***************************************************************************)
(* The library as its user sees it: cipher objects in slots, block values  *)
(* in registers, and the outcome of the last call.  One action per public  *)
(* operation.  A cipher object is described by its direction and by the    *)
(* FIPS key expansion of its key and by nothing else: conversions change   *)
(* the direction only, and using an object changes nothing.  Encryption    *)
(* is the FIPS cipher; decryption is the straightforward inverse cipher,   *)
(* deliberately not the equivalent one that the library implements.        *)
(* (AesDesign is the implementation-shaped model; it refines this one.)    *)
(***************************************************************************)
EXTENDS Blocks

CONSTANTS Slots,    \* names of cipher objects
          Private,  \* those that Reset forgets (the others are shared by threads)
          Regs, Widths
VARIABLES cip,   \* slot -> [dir, w]: direction and expanded key, or Absent
          reg,   \* width -> register -> value
          out    \* outcome of the last call: [t, v]
vars == <<cip, reg, out>>

Absent == [dir |-> "-", w |-> <<>>]
Ok(v) == [t |-> "ok", v |-> v]
Panic(v) == [t |-> "panic", v |-> v]
Bool(b) == Ok(<<IF b THEN 1 ELSE 0>>)
Flip(d) == IF d = "E" THEN "D" ELSE "E"

Init == /\ cip = [s \in Slots |-> Absent]
        /\ reg = [w \in Widths |-> [r \in Regs |-> Zeros(w * NCells)]]
        /\ out = Ok(<<>>)

\* keep: register that receives the value, or 0
Give(w, keep, v) == /\ out' = Ok(v)
                    /\ reg' = IF keep = 0 THEN reg ELSE [reg EXCEPT ![w][keep] = v]

Reset == /\ cip' = [s \in Slots |-> IF s \in Private THEN Absent ELSE cip[s]]
         /\ reg' = [w \in Widths |-> [r \in Regs |-> Zeros(w * NCells)]]
         /\ out' = Ok(<<>>)

(******************** cipher objects ****************************************)
NewCipher(s, d, key) == /\ cip' = [cip EXCEPT ![s] = [dir |-> d, w |-> KeyExpansion(key)]]
                        /\ out' = Ok(<<>>)
                        /\ UNCHANGED reg
Convert(d, s) == /\ cip[s] # Absent
                 /\ cip' = [cip EXCEPT ![d] = [cip[s] EXCEPT !.dir = Flip(@)]]
                 /\ out' = Ok(<<>>)
                 /\ UNCHANGED reg
Clone(d, s) == /\ cip' = [cip EXCEPT ![d] = cip[s]]
               /\ out' = Ok(<<>>)
               /\ UNCHANGED reg
Drop(s) == /\ cip' = [cip EXCEPT ![s] = Absent]
           /\ out' = Ok(<<>>)
           /\ UNCHANGED reg
CryptBy(c, x) == IF c.dir = "E" THEN Lanewise(LAMBDA b : Cipher(c.w, b), x)
                 ELSE Lanewise(LAMBDA b : InvCipher(c.w, b), x)
Crypt(w, s, x, keep) == /\ cip[s] # Absent
                        /\ Give(w, keep, CryptBy(cip[s], x))
                        /\ UNCHANGED cip

(******************** blocks ************************************************)
RoundOp(w, f, x, k, keep) == Give(w, keep, Round(f, x, k)) /\ UNCHANGED cip
MixOp(f, x, keep) == Give(1, keep, Mix(f, x)) /\ UNCHANGED cip
ChainOp(w, f, x, keys, keep) ==
    /\ IF keys = <<>> THEN out' = Panic(<<>>) /\ UNCHANGED reg
       ELSE Give(w, keep, Chain(f, x, keys))
    /\ UNCHANGED cip
\* A chain of n keys, the first and then those of cyc over and over.  It is told only of keys whose
\* rounds lead back to the state they started from, so that whole turns may be left out.
PeriodicChainOp(w, f, x, first, cyc, n, keep) ==
    /\ n > 1
    /\ Chain(f, x, <<first>> \o cyc) = XorSeq(x, first)
    /\ ChainOp(w, f, x, <<first>> \o SubSeq(cyc, 1, (n - 1) % Len(cyc)), keep)
\* The three types of blocks and the six of ciphers: may a thread hand a value over, may it share one?
SharingOp == out' = Ok([i \in 1..18 |-> 1]) /\ UNCHANGED <<cip, reg>>
BitOp(w, f, x, y, keep) == Give(w, keep, Bitwise(f, x, y)) /\ UNCHANGED cip
CompareOp(f, x, y) == out' = Bool(Compare(f, x, y)) /\ UNCHANGED <<cip, reg>>
ParseOp(w, s) == out' = Parse(s, w * NCells) /\ UNCHANGED <<cip, reg>>
StoreOp(x, buf) == out' = Store(x, buf) /\ UNCHANGED <<cip, reg>>
\* the same for long slices and buffers: of their n bytes only the leading ones, s, are given
ParseLongOp(w, s, n) == /\ out' = IF n >= w * NCells THEN Parse(s, w * NCells)
                                  ELSE [t |-> "err", v |-> <<n>>]
                        /\ UNCHANGED <<cip, reg>>
StoreLongOp(x, s, n) == n >= Len(s) /\ Len(s) >= Len(x) /\ out' = Store(x, s) /\ UNCHANGED <<cip, reg>>
SetOp(w, x, keep) == Give(w, keep, x) /\ UNCHANGED cip
\* a value built from bytes by any constructor and read back in any way
BytesOp(w, ctor, pat, s) ==
    /\ out' = CASE ctor \in {"zero", "default"} -> Ok(Zeros(w * NCells))
                [] ctor = "const" -> Ok(Pattern(pat, w * NCells))
                [] OTHER -> Ok(s)
    /\ UNCHANGED <<cip, reg>>
\* width, fill, precision and sign, which a format may also ask for (flags), do not matter
TextOp(f, x) == out' = Ok(Text(f, x)) /\ UNCHANGED <<cip, reg>>
\* into a writer with room for n characters: all of it, or the first n of them and an error
TextIntoOp(n, f, x) == LET s == Text(f, x) IN
    /\ out' = IF Len(s) <= n THEN Ok(s) ELSE [t |-> "cut", v |-> SubSeq(s, 1, n)]
    /\ UNCHANGED <<cip, reg>>
DebugOp(alt, x) == out' = Ok(DebugVec(x, alt)) /\ UNCHANGED <<cip, reg>>
PackOp(f, v) == out' = Ok(Pack(f, v)) /\ UNCHANGED <<cip, reg>>

(******************** a call, as a record ***********************************)
\* an operand: a literal or a register
Val(w, o) == IF o.g = 0 THEN o.h ELSE reg[w][o.g]

Do(e) ==
    CASE e.op = "reset" -> Reset
      [] e.op = "kn"    -> NewCipher(e.s, e.f, e.h)
      [] e.op = "kc"    -> Convert(e.d, e.s)
      [] e.op = "kl"    -> Clone(e.d, e.s)
      [] e.op = "kd"    -> Drop(e.s)
      [] e.op = "kx"    -> Crypt(e.w, e.s, Val(e.w, e.x), e.r)
      [] e.op = "shr"   -> SharingOp
      [] e.op = "rnd"   -> RoundOp(e.w, e.f, Val(e.w, e.x), Val(e.w, e.y), e.r)
      [] e.op = "mix"   -> MixOp(e.f, Val(1, e.x), e.r)
      [] e.op = "chain" -> ChainOp(e.w, e.f, Val(e.w, e.x), [i \in 1..Len(e.k) |-> Val(e.w, e.k[i])], e.r)
      [] e.op = "chainp" -> PeriodicChainOp(e.w, e.f, Val(e.w, e.x), Val(e.w, e.k[1]),
                                            [i \in 1..Len(e.k) - 1 |-> Val(e.w, e.k[i + 1])], e.n, e.r)
      [] e.op = "bit"   -> BitOp(e.w, e.f, Val(e.w, e.x), Val(e.w, e.y), e.r)
      [] e.op = "cmp"   -> CompareOp(e.f, Val(e.w, e.x), Val(e.w, e.y))
      [] e.op = "slice" -> ParseOp(e.w, e.h)
      [] e.op = "store" -> StoreOp(Val(e.w, e.x), e.h)
      [] e.op = "bslice" -> ParseLongOp(e.w, e.h, e.n)
      [] e.op = "bstore" -> StoreLongOp(Val(e.w, e.x), e.h, e.n)
      [] e.op = "set"   -> SetOp(e.w, Val(e.w, e.x), e.r)
      [] e.op = "bytes" -> BytesOp(e.w, e.f, e.p, e.h)
      [] e.op = "u128"  -> BytesOp(1, "u128", 0, e.h)
      [] e.op = "fmt"   -> TextOp(e.f, Val(1, e.x))
      [] e.op = "fmtl"  -> TextIntoOp(e.n, e.f, Val(1, e.x))
      [] e.op = "dbg"   -> DebugOp(e.f = "1", Val(e.w, e.x))
      [] e.op = "pack"  -> PackOp(e.f, e.h)
=============================================================================
