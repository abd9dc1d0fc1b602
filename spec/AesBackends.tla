---------------------------- MODULE AesBackends -----------------------------
(***************************************************************************)
(* How each backend computes the rounds and expands keys, in terms of the  *)
(* operations its platform offers, against Rijndael.  Words are columns of *)
(* four bytes, halves are two columns; everything is in byte order, so a   *)
(* little-endian rotation to the right by 8 is RotWord.                    *)
(***************************************************************************)
EXTENDS Rijndael
C == INSTANCE Circuit
CONSTANTS Group, Items
VARIABLES it, ok
Word(s, c) == SubSeq(s, 4 * c + 1, 4 * c + 4)            \* column c, from 0
XorAll(ws) == FoldLeft(XorSeq, Head(ws), Tail(ws))
Concat(ws) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ws)

(******************** tables ************************************************)
\* byte row of a column replaced by the column it contributes to the round
ZeroWord == <<0, 0, 0, 0>>
Unit(row, v) == [i \in 1..4 |-> IF i = row + 1 THEN v ELSE 0]
Te(row, v) == MixColumns(Unit(row, Sbox[v]))
Td(row, v) == InvMixColumns(Unit(row, InvSbox[v]))
Te0 == TLCEval([v \in Byte |-> <<2 (.) Sbox[v], Sbox[v], Sbox[v], 3 (.) Sbox[v]>>])
Td0 == TLCEval([v \in Byte |-> <<14 (.) InvSbox[v], 9 (.) InvSbox[v], 13 (.) InvSbox[v], 11 (.) InvSbox[v]>>])
RECURSIVE TurnedR(_, _)
TurnedR(w, n) == IF n = 0 THEN w ELSE TurnedR(<<w[4], w[1], w[2], w[3]>>, n - 1)
\* four lookups per column, the tables for rows 1..3 being turns of the one for row 0
TableEnc(x, k) == Concat([c \in 1..4 |-> XorAll(<<Word(k, c - 1)>> \o
    [r \in 1..4 |-> TurnedR(Te0[x[At(r - 1, (c - 1 + r - 1) % 4)]], r - 1)])])
TableDec(x, k) == Concat([c \in 1..4 |-> XorAll(<<Word(k, c - 1)>> \o
    [r \in 1..4 |-> TurnedR(Td0[x[At(r - 1, (c - 1 + 4 - (r - 1)) % 4)]], r - 1)])])
\* MixColumns by the tables of the other direction: Te0 of the inverse substitution
TableMc(x) == Concat([c \in 1..4 |-> XorAll([r \in 1..4 |-> TurnedR(Te0[InvSbox[x[At(r - 1, c - 1)]]], r - 1)])])
TableImc(x) == Concat([c \in 1..4 |-> XorAll([r \in 1..4 |-> TurnedR(Td0[Sbox[x[At(r - 1, c - 1)]]], r - 1)])])
Tables(x, k) == /\ \A v \in {x[1], x[16]} : \A r \in 0..3 :
                      TurnedR(Te0[v], r) = Te(r, v) /\ TurnedR(Td0[v], r) = Td(r, v)
                /\ TableEnc(x, k) = Enc(x, k) /\ TableDec(x, k) = Dec(x, k)
                /\ TableMc(x) = MixColumns(x) /\ TableImc(x) = InvMixColumns(x)

(******************** RV32: aes32esi, aes32esmi, aes32dsi, aes32dsmi ********)
\* rs1 xored with what byte bs of rs2 contributes
Es(rs1, rs2, bs)  == XorSeq(rs1, Unit(bs, Sbox[rs2[bs + 1]]))
Esm(rs1, rs2, bs) == XorSeq(rs1, Te(bs, rs2[bs + 1]))
Ds(rs1, rs2, bs)  == XorSeq(rs1, Unit(bs, InvSbox[rs2[bs + 1]]))
Dsm(rs1, rs2, bs) == XorSeq(rs1, Td(bs, rs2[bs + 1]))
\* column c from columns c, c+1, c+2, c+3
Outer(Op(_, _, _), x, k, c) ==
    LET w(n) == Word(x, (c + n) % 4)
    IN Op(Op(Op(Op(Word(k, c), w(0), 0), w(1), 1), w(2), 2), w(3), 3)
Rv32Round(Op(_, _, _), x, k) == Concat([c \in 1..4 |-> Outer(Op, x, k, c - 1)])
\* the inverse: columns 1 and 3 of the operands and of the result change places
Swap13(x) == Word(x, 0) \o Word(x, 3) \o Word(x, 2) \o Word(x, 1)
Rv32Inv(Op(_, _, _), x, k) == Swap13(Rv32Round(Op, Swap13(x), Swap13(k)))
Rv32(x, k) == /\ XorSeq(Rv32Round(Esm, x, ZeroBlock), k) = Enc(x, k)
              /\ XorSeq(Rv32Round(Es, x, ZeroBlock), k) = EncLast(x, k)
              /\ XorSeq(Rv32Inv(Dsm, x, ZeroBlock), k) = Dec(x, k)
              /\ XorSeq(Rv32Inv(Ds, x, ZeroBlock), k) = DecLast(x, k)
              /\ Rv32Round(Esm, Rv32Inv(Ds, x, ZeroBlock), ZeroBlock) = MixColumns(x)
              /\ Rv32Inv(Dsm, Rv32Round(Es, x, ZeroBlock), ZeroBlock) = InvMixColumns(x)
\* the mistake that was repaired (07dd2e7): without the change of places
Rv32Bad(x, k) == XorSeq(Rv32Round(Dsm, x, ZeroBlock), k) = Dec(x, k)

(******************** RV64: a half of the result from both halves ***********)
Lo(x) == SubSeq(x, 1, 8)
Hi(x) == SubSeq(x, 9, 16)
Es64(a, b)  == Lo(SubBytes(ShiftRows(a \o b)))
Esm64(a, b) == Lo(MixColumns(SubBytes(ShiftRows(a \o b))))
Ds64(a, b)  == Lo(InvSubBytes(InvShiftRows(a \o b)))
Dsm64(a, b) == Lo(InvMixColumns(InvSubBytes(InvShiftRows(a \o b))))
Im64(a) == Lo(InvMixColumns(a \o a))
Both(Op(_, _), x) == Op(Lo(x), Hi(x)) \o Op(Hi(x), Lo(x))
Rv64(x, k) == /\ XorSeq(Both(Esm64, x), k) = Enc(x, k) /\ XorSeq(Both(Es64, x), k) = EncLast(x, k)
              /\ XorSeq(Both(Dsm64, x), k) = Dec(x, k) /\ XorSeq(Both(Ds64, x), k) = DecLast(x, k)
              /\ Both(Esm64, Both(Ds64, x)) = MixColumns(x)
              /\ Im64(Lo(x)) \o Im64(Hi(x)) = InvMixColumns(x)

(******************** AES-NI and ARMv8 rounds *******************************)
NiEnc(x, k)     == XorSeq(MixColumns(SubBytes(ShiftRows(x))), k)
NiDecLast(x, k) == XorSeq(InvSubBytes(InvShiftRows(x)), k)
Ni(x, k) == NiEnc(NiDecLast(x, ZeroBlock), ZeroBlock) = MixColumns(x)
Aese(x, k) == SubBytes(ShiftRows(XorSeq(x, k)))
Aesd(x, k) == InvSubBytes(InvShiftRows(XorSeq(x, k)))
Arm(x, k) == /\ XorSeq(MixColumns(Aese(x, ZeroBlock)), k) = Enc(x, k)
             /\ XorSeq(InvMixColumns(Aesd(x, ZeroBlock)), k) = Dec(x, k)
             /\ XorSeq(Aese(x, ZeroBlock), k) = EncLast(x, k) /\ XorSeq(Aesd(x, ZeroBlock), k) = DecLast(x, k)
             \* the chain: the key before the round
             /\ XorSeq(MixColumns(Aese(MixColumns(Aese(x, k)), x)), k) = ChainEnc(x, <<k, x, k>>)
             /\ XorSeq(InvMixColumns(Aesd(InvMixColumns(Aesd(x, k)), x)), k) = ChainDec(x, <<k, x, k>>)

(******************** the constant-time build *******************************)
\* MixColumns without a multiplication table: the sum of the column, and doubled neighbours
Ror(w) == <<w[2], w[3], w[4], w[1]>>
ColMap(Op(_), x) == Concat([c \in 1..4 |-> Op(Word(x, c - 1))])
Dbl(w) == [i \in 1..4 |-> XTime(w[i])]
Sum3(w) == LET a == XorSeq(w, <<w[3], w[4], w[1], w[2]>>)          \* swap16
           IN XorSeq(XorSeq(a, <<a[2], a[1], a[4], a[3]>>), w)       \* swap8
CtMix(w) == LET t == Dbl(w) IN XorSeq(Sum3(w), XorSeq(t, Ror(t)))
CtInvMix(w) ==
    LET t == Dbl(w)
        s == XorSeq(Sum3(w), XorSeq(t, Ror(t)))
        u == Dbl(t)
        v == XorSeq(u, <<u[3], u[4], u[1], u[2]>>)
        q == Dbl(v)
    IN XorSeq(XorSeq(s, v), XorSeq(q, <<q[2], q[1], q[4], q[3]>>))
Ct(x) == ColMap(CtMix, x) = MixColumns(x) /\ ColMap(CtInvMix, x) = InvMixColumns(x)
Substitution(p) == /\ C!CircuitSub(p) = <<Sbox[p[1]], Sbox[p[2]]>>
                   /\ C!CircuitInv(p) = <<InvSbox[p[1]], InvSbox[p[2]]>>

(******************** key expansion *****************************************)
SubW(w) == SubBytes(w)
RC(i, w) == XorSeq(w, Unit(0, Pow2(i)))                    \* i counts from 0
\* AES-NI: AESKEYGENASSIST, and the prefix sums of a register's words
Assist(x, i) == <<SubW(Word(x, 1)), IF i < 0 THEN RotWord(SubW(Word(x, 1))) ELSE RC(i, RotWord(SubW(Word(x, 1)))),
                  SubW(Word(x, 3)), IF i < 0 THEN RotWord(SubW(Word(x, 3))) ELSE RC(i, RotWord(SubW(Word(x, 3))))>>
Spread(w) == w \o w \o w \o w
Prefix(x) == LET w(i) == Word(x, i) IN
    w(0) \o XorAll(<<w(0), w(1)>>) \o XorAll(<<w(0), w(1), w(2)>>) \o XorAll(<<w(0), w(1), w(2), w(3)>>)
Ni128(key) == FoldLeft(LAMBDA ks, i : Append(ks, XorSeq(Prefix(ks[Len(ks)]), Spread(Assist(ks[Len(ks)], i - 1)[4]))),
                       <<key>>, [i \in 1..10 |-> i])
Ni256(key) == FoldLeft(LAMBDA ks, i :
                  LET p == ks[Len(ks) - 1] l == ks[Len(ks)]
                  IN Append(ks, IF i % 2 = 1 THEN XorSeq(Prefix(p), Spread(Assist(l, i \div 2)[4]))
                                ELSE XorSeq(Prefix(p), Spread(Assist(l, -1)[3]))),
              <<SubSeq(key, 1, 16), SubSeq(key, 17, 32)>>, [i \in 1..13 |-> i])
\* 192 bits: a register and half of another; three round keys for two steps
Fwd(s, i) == LET a == XorSeq(Prefix(s[1]), Spread(Assist(s[2], i)[2]))
                 b == XorSeq(s[2], ZeroWord \o Word(s[2], 0) \o Word(s[2], 1) \o Word(s[2], 2))
             IN <<a, XorSeq(b, Spread(Word(a, 3)))>>
Ni192(key) ==
    LET step(st, i) ==
            LET s1 == Fwd(st.s, 2 * i - 2)
                s2 == Fwd(s1, 2 * i - 1)
            IN [s |-> s2, ks |-> st.ks \o <<Lo(st.s[2]) \o Lo(s1[1]), Hi(s1[1]) \o Lo(s1[2]), s2[1]>>]
        k0 == SubSeq(key, 1, 16)
    IN FoldLeft(step, [s |-> <<k0, SubSeq(key, 17, 24) \o ZeroWord \o ZeroWord>>, ks |-> <<k0>>], [i \in 1..4 |-> i]).ks
\* RV64: aes64ks1i (number 10: no rotation, no constant) and aes64ks2
Ks1(a, i) == LET w == SubSeq(a, 5, 8)
                 t == IF i = 10 THEN SubW(w) ELSE RC(i, SubW(RotWord(w)))
             IN t \o t
Ks2(a, b) == LET lo == XorSeq(SubSeq(a, 5, 8), SubSeq(b, 1, 4)) IN lo \o XorSeq(lo, SubSeq(b, 5, 8))
Rv128(key) == FoldLeft(LAMBDA ks, i :
                  LET p == ks[Len(ks)] t == Ks2(Ks1(Hi(p), i - 1), Lo(p)) IN Append(ks, t \o Ks2(t, Hi(p))),
              <<key>>, [i \in 1..10 |-> i])
Rv192(key) ==
    LET next(s, i) == LET a == Ks2(Ks1(s[3], i), s[1]) b == Ks2(a, s[2]) IN <<a, b, Ks2(b, s[3])>>
        all == FoldLeft(LAMBDA acc, i : acc \o next(SubSeq(acc, Len(acc) - 2, Len(acc)), i - 1),
                        <<SubSeq(key, 1, 8), SubSeq(key, 9, 16), SubSeq(key, 17, 24)>>, [i \in 1..8 |-> i])
    IN [r \in 1..13 |-> all[2 * r - 1] \o all[2 * r]]
Rv256(key) == FoldLeft(LAMBDA ks, i :
                  LET p == ks[Len(ks) - 1]
                      l == ks[Len(ks)]
                      t == Ks2(Ks1(Hi(l), IF i % 2 = 1 THEN i \div 2 ELSE 10), Lo(p))
                  IN Append(ks, t \o Ks2(t, Hi(p))),
              <<SubSeq(key, 1, 16), SubSeq(key, 17, 32)>>, [i \in 1..13 |-> i])
\* RV32, ARMv8 and software: columns, substituted first or rotated first
ColumnKeys(key) ==
    LET nk == Len(key) \div 4
        w == FoldLeft(LAMBDA a, j : LET i == nk + j - 1 IN
                 Append(a, XorSeq(a[i - nk + 1],
                        IF i % nk = 0 THEN RC(i \div nk - 1, RotWord(SubW(a[i])))
                        ELSE IF nk = 8 /\ i % 8 = 4 THEN SubW(a[i]) ELSE a[i])),
                 [i \in 1..nk |-> Word(key, i - 1)], [j \in 1..4 * (nk + 7) - nk |-> j])
    IN [r \in 1..nk + 7 |-> w[4 * r - 3] \o w[4 * r - 2] \o w[4 * r - 1] \o w[4 * r]]
KeyGens(k32) ==
    LET k16 == SubSeq(k32, 1, 16)
        k24 == SubSeq(k32, 9, 32)
    IN /\ Ni128(k16) = KeyExpansion(k16) /\ Ni192(k24) = KeyExpansion(k24) /\ Ni256(k32) = KeyExpansion(k32)
       /\ Rv128(k16) = KeyExpansion(k16) /\ Rv192(k24) = KeyExpansion(k24) /\ Rv256(k32) = KeyExpansion(k32)
       /\ \A k \in {k16, k24, k32} : ColumnKeys(k) = KeyExpansion(k)

(******************** the equality and zero tests ***************************)
\* AES-NI: all sixteen bytes of the comparison's mask; AVX-512: no lane of the difference set;
\* ARMv8: the smallest byte of the comparison's mask, the largest of the value; software: or of the words
MinByte(s) == FoldLeft(LAMBDA a, b : IF a < b THEN a ELSE b, 255, s)
MaxByte(s) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, 0, s)
OrAll(s) == FoldLeft(LAMBDA a, b : a || b, 0, s)
SameMask(x, y) == [i \in 1..Len(x) |-> IF x[i] = y[i] THEN 255 ELSE 0]
Equality(x, y) == /\ (MinByte(SameMask(x, y)) = 255) <=> (x = y)
                  /\ (OrAll(XorSeq(x, y)) = 0) <=> (x = y)
                  /\ (MaxByte(x) = 0) <=> (x = ZeroBlock)
                  /\ (OrAll(x) = 0) <=> (x = ZeroBlock)

Blk(s) == TLCEval([i \in 1..16 |-> (73 * s + 29 * i + 11 * s * i + ((s * s) \div (i + 1))) % 256])
Key32(s) == TLCEval([i \in 1..32 |-> (59 * s + 31 * i + 7 * s * i + ((s * s + i) \div 3)) % 256])
\* one byte of a zero block
OneByte(n) == TLCEval([i \in 1..16 |-> IF i = 1 + (n \div 256) THEN n % 256 ELSE 0])
Rounds(x, k) == Tables(x, k) /\ Rv32(x, k) /\ Rv64(x, k) /\ Ni(x, k) /\ Arm(x, k) /\ Ct(x) /\ Equality(x, k) /\ Equality(x, x)

N4096 == 0..4095
N256 == 0..255
N40 == 0..39
N65536 == 0..65535
NFew == {n \in 0..65535 : (n % 256) % 17 = 0 \/ n \div 256 \in {0, 1, 85, 128, 170, 255}}
Init == it \in Items /\ ok = FALSE
Next == ok = FALSE /\ ok' = TRUE /\ UNCHANGED it
Spec == Init /\ [][Next]_<<it, ok>>
Holds == ok =>
    CASE Group = "bytes" -> Rounds(OneByte(it), Blk(it % 64))
      [] Group = "blocks" -> Rounds(Blk(it), Blk(it + 7))
      [] Group = "keys" -> KeyGens(Key32(it))
      [] Group = "circuit" -> Substitution(<<it % 256, it \div 256>>)
NotBad == ok => Rv32Bad(Blk(it), Blk(it + 7))
=============================================================================
