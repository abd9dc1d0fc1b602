------------------------------ MODULE Rijndael ------------------------------
(***************************************************************************)
(* The cipher of FIPS 197 (and its small-scale variants), written from the *)
(* standard: the four transformations on the state, the single rounds the  *)
(* library exposes, the key expansion, the cipher, the inverse cipher and  *)
(* the equivalent inverse cipher.  A state is a sequence of Rows * Cols    *)
(* cells in FIPS order (column by column), which is also the byte order of *)
(* the library's blocks.                                                   *)
(***************************************************************************)
EXTENDS GF, SequencesExt

CONSTANTS Rows,     \* cells in a column (4 in AES)
          Cols,     \* columns in the state (4 in AES)
          MixC,     \* coefficients of the MixColumns polynomial: <<2, 3, 1, 1>> in AES
          InvMixC,  \* and of its inverse: <<14, 11, 13, 9>>
          ExtraNr   \* rounds on top of max(key columns, Cols): 6 in AES

AesMix == <<2, 3, 1, 1>>          \* the values of MixC and InvMixC in AES
AesInvMix == <<14, 11, 13, 9>>

NCells == Rows * Cols
Block == [1..NCells -> Cell]

XorSeq(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
ZeroBlock == TLCEval([i \in 1..NCells |-> 0])

(******************** 5.1, 5.3: transformations of the state ****************)
SubBytes(s)    == TLCEval([i \in 1..Len(s) |-> Sbox[s[i]]])
InvSubBytes(s) == TLCEval([i \in 1..Len(s) |-> InvSbox[s[i]]])

RowOf(i) == (i - 1) % Rows
ColOf(i) == (i - 1) \div Rows
At(r, c) == 1 + r + Rows * c
\* s'[r, c] = s[r, (c + r) mod Nb]
SRidx  == TLCEval([i \in 1..NCells |-> At(RowOf(i), (ColOf(i) + RowOf(i)) % Cols)])
\* s'[r, (c + r) mod Nb] = s[r, c]
ISRidx == TLCEval([i \in 1..NCells |-> At(RowOf(i), (ColOf(i) + Cols * RowOf(i) - RowOf(i)) % Cols)])
ShiftRows(s)    == TLCEval([i \in 1..NCells |-> s[SRidx[i]]])
InvShiftRows(s) == TLCEval([i \in 1..NCells |-> s[ISRidx[i]]])

\* row r of the circulant matrix: coefficient of cell k of the column
Circ(m) == TLCEval([r \in 0..Rows-1 |-> [k \in 0..Rows-1 |-> m[1 + ((k + Rows - r) % Rows)]]])
RowTimes(m, r, s, b) ==
    IF Rows = 4
    THEN (MulTable[m[r][0]][s[b+1]] ^^ MulTable[m[r][1]][s[b+2]])
         ^^ (MulTable[m[r][2]][s[b+3]] ^^ MulTable[m[r][3]][s[b+4]])
    ELSE FoldLeft(LAMBDA acc, k : acc ^^ MulTable[m[r][k-1]][s[b+k]], 0, [k \in 1..Rows |-> k])
MixBy(m, s) == TLCEval([i \in 1..Len(s) |-> RowTimes(m, RowOf(i), s, Rows * ColOf(i))])
MixM    == Circ(MixC)
InvMixM == Circ(InvMixC)
MixColumns(s)    == MixBy(MixM, s)
InvMixColumns(s) == MixBy(InvMixM, s)

(******************** the rounds offered to the user ************************)
Enc(x, k)     == XorSeq(MixColumns(SubBytes(ShiftRows(x))), k)
EncLast(x, k) == XorSeq(SubBytes(ShiftRows(x)), k)
Dec(x, k)     == XorSeq(InvMixColumns(InvSubBytes(InvShiftRows(x))), k)
DecLast(x, k) == XorSeq(InvSubBytes(InvShiftRows(x)), k)

\* (x ^ keys[1]) then one round per remaining key; keys must not be empty
ChainEnc(x, keys) == FoldLeft(LAMBDA a, k : Enc(a, k), XorSeq(x, Head(keys)), Tail(keys))
ChainDec(x, keys) == FoldLeft(LAMBDA a, k : Dec(a, k), XorSeq(x, Head(keys)), Tail(keys))

(******************** 5.2: key expansion ************************************)
Max2(a, b) == IF a > b THEN a ELSE b
NrOf(nk) == Max2(nk, Cols) + ExtraNr           \* number of rounds
RotWord(t) == TLCEval(Append(Tail(t), Head(t)))
Rcon(i) == TLCEval([r \in 1..Rows |-> IF r = 1 THEN Pow2(i - 1) ELSE 0])

\* the words of the expanded key; i is the FIPS (zero-based) index of the word to add
NextWord(w, nk, i) ==
    LET t == w[i]
        u == IF i % nk = 0 THEN XorSeq(SubBytes(RotWord(t)), Rcon(i \div nk))
             ELSE IF nk > 6 /\ i % nk = 4 THEN SubBytes(t)
             ELSE t
    IN XorSeq(w[i - nk + 1], u)
Words(key, nk) ==
    FoldLeft(LAMBDA w, i : Append(w, NextWord(w, nk, i)),
             [i \in 1..nk |-> SubSeq(key, Rows * (i - 1) + 1, Rows * i)],
             [j \in 1..(Cols * (NrOf(nk) + 1) - nk) |-> nk + j - 1])

\* the words of one round key, one after the other
RoundKey(w, r) == TLCEval([i \in 1..NCells |-> w[Cols * r + ColOf(i) + 1][RowOf(i) + 1]])
KeyExpansion(key) ==
    LET nk == Len(key) \div Rows
        w == Words(key, nk)
    IN TLCEval([r \in 1..NrOf(nk) + 1 |-> RoundKey(w, r - 1)])

(******************** 5.1, 5.3: the cipher and its inverse ******************)
\* rks is the result of KeyExpansion: rks[r + 1] is the key of round r
MiddleRounds(rks) == [r \in 1..Len(rks) - 2 |-> r]
Cipher(rks, x) ==
    LET nr == Len(rks) - 1
        s == FoldLeft(LAMBDA a, r : XorSeq(MixColumns(ShiftRows(SubBytes(a))), rks[r + 1]),
                      XorSeq(x, rks[1]), MiddleRounds(rks))
    IN XorSeq(ShiftRows(SubBytes(s)), rks[nr + 1])
InvCipher(rks, x) ==
    LET nr == Len(rks) - 1
        s == FoldLeft(LAMBDA a, r : InvMixColumns(XorSeq(InvSubBytes(InvShiftRows(a)), rks[nr - r + 1])),
                      XorSeq(x, rks[nr + 1]), MiddleRounds(rks))
    IN XorSeq(InvSubBytes(InvShiftRows(s)), rks[1])

\* 5.3.5: the equivalent inverse cipher, with round keys in the order they are used
DecRoundKeys(rks) ==
    LET n == Len(rks)
    IN TLCEval([i \in 1..n |-> IF i = 1 \/ i = n THEN rks[n + 1 - i] ELSE InvMixColumns(rks[n + 1 - i])])
EqInvCipher(drks, x) ==
    LET n == Len(drks)
    IN DecLast(ChainDec(x, SubSeq(drks, 1, n - 1)), drks[n])
=============================================================================
