------------------------------ MODULE AesLaws -------------------------------
(***************************************************************************)
(* Laws of the specification itself.  If the definitions of Rijndael and   *)
(* Blocks were wrong in a way the published vectors do not show, they      *)
(* would break these; and the laws of property C19 are consequences of the *)
(* definitions, for every block and key of the small instances.            *)
(***************************************************************************)
EXTENDS Blocks
CONSTANTS Group,   \* which laws
          Xs, Ys
VARIABLES x, y, z
Mix2 == CASE E = 8 -> <<2, 1>> [] E = 4 -> <<2, 1>> [] E = 3 -> <<2, 1>> [] E = 2 -> <<2, 1>>
InvMix2 == CASE E = 4 -> <<5, 11>> [] E = 3 -> <<4, 2>> [] E = 2 -> <<1, 3>>
AllBlocks == TLCEval([1..NCells -> Cell])
EvenBlocks == {b \in AllBlocks : b[1] = b[NCells]}
Samples == {[i \in 1..NCells |-> (73 * s + 29 * i + 11 * s * i + ((s * s) \div (i + 1))) % 2^E] : s \in 0..23}
Bytes2 == [1..2 -> {0, 1, 254, 255}]
BytePairs == [1..2 -> Cell]
Small == UNION {[1..n -> {0, 1, 255}] : n \in 0..6}

Init == x \in Xs /\ y \in Ys /\ z = FALSE
Next == z = FALSE /\ z' = TRUE /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y, z>>

\* C19 and what lies behind it; y is a key where one is needed
Inverses ==
    /\ InvShiftRows(ShiftRows(x)) = x /\ ShiftRows(InvShiftRows(x)) = x
    /\ InvSubBytes(SubBytes(x)) = x
    /\ MixColumns(InvMixColumns(x)) = x /\ InvMixColumns(MixColumns(x)) = x
    /\ DecLast(EncLast(x, ZeroBlock), ZeroBlock) = x /\ EncLast(DecLast(x, ZeroBlock), ZeroBlock) = x
    /\ DecLast(InvMixColumns(XorSeq(Enc(x, y), y)), ZeroBlock) = x
    /\ EncLast(MixColumns(XorSeq(Dec(x, y), y)), ZeroBlock) = x
Linear ==
    /\ MixColumns(XorSeq(x, y)) = XorSeq(MixColumns(x), MixColumns(y))
    /\ InvMixColumns(XorSeq(x, y)) = XorSeq(InvMixColumns(x), InvMixColumns(y))
    /\ MixColumns(ZeroBlock) = ZeroBlock
    /\ Enc(x, y) = XorSeq(Enc(x, ZeroBlock), y) /\ Dec(x, y) = XorSeq(Dec(x, ZeroBlock), y)
\* rounds and back, with the reversed, transformed keys
Chains ==
    LET ks == <<y, SubBytes(y), XorSeq(y, x)>>
        fw == EncLast(ChainEnc(x, ks), y)
        bk == <<y, InvMixColumns(ks[3]), InvMixColumns(ks[2])>>
    IN DecLast(ChainDec(fw, bk), ks[1]) = x
\* 5.3.5: both inverse ciphers agree, and undo the cipher; y is the key
Ciphers == LET w == KeyExpansion(y) c == Cipher(w, x) IN
    /\ InvCipher(w, c) = x /\ EqInvCipher(DecRoundKeys(w), c) = x
    /\ Cipher(w, InvCipher(w, x)) = x
\* the primitives that some backends lack are made of others
Made == /\ MixColumns(x) = Enc(DecLast(x, ZeroBlock), ZeroBlock)
        /\ InvMixColumns(x) = Dec(EncLast(x, ZeroBlock), ZeroBlock)

\* bits
Bits == /\ NotSeq(NotSeq(x)) = x
        /\ XorSeq(x, y) = OrSeq(AndSeq(x, NotSeq(y)), AndSeq(NotSeq(x), y))
        /\ NotSeq(AndSeq(x, y)) = OrSeq(NotSeq(x), NotSeq(y))
        /\ IsZero(XorSeq(x, y)) <=> x = y

\* text: what is printed can be read back, digit by digit (x holds two bytes)
DigitOf(c) == IF c < 58 THEN c - 48 ELSE IF c < 97 THEN c - 55 ELSE c - 87
Read(t) == [i \in 1..Len(t) \div 2 |-> 16 * DigitOf(t[2 * i - 1]) + DigitOf(t[2 * i])]
ReadBin(t) == [i \in 1..Len(t) \div 8 |-> FoldLeft(LAMBDA a, j : 2 * a + t[8 * (i - 1) + j] - 48, 0, [j \in 1..8 |-> j])]
Cut(t) == SubSeq(t, 3, Len(t))
Texts == /\ Read(LowerHex(x, FALSE)) = x /\ Read(Cut(LowerHex(x, TRUE))) = x
         /\ Read(UpperHex(x, FALSE)) = x /\ Read(Cut(UpperHex(x, TRUE))) = x
         /\ ReadBin(Binary(x, FALSE)) = x /\ ReadBin(Cut(Binary(x, TRUE))) = x
         /\ Display(x, FALSE) = LowerHex(x, FALSE) /\ Display(x, TRUE) = UpperHex(x, FALSE)

\* slices and buffers: x is a block (of two bytes), y any buffer
Buffers ==
    LET p == Parse(y, NCells)
        s == Store(x, y)
    IN /\ (p.t = "ok") <=> (Len(y) >= NCells)
       /\ p.t = "err" => p.v = <<Len(y)>>
       /\ (s.t = "ok") <=> (Len(y) >= NCells)
       /\ Len(s.v) = Len(y)
       /\ s.t = "ok" => /\ Parse(s.v, NCells).v = x
                        /\ \A i \in NCells + 1..Len(y) : s.v[i] = y[i]
       /\ s.t = "panic" => s.v = y
\* lanes: a vector is its lanes in order
LaneLaws ==
    LET v == x \o y \o y \o x IN
    /\ Lanes(v) = <<x, y, y, x>>
    /\ Pack("2of1", x) = x \o x /\ Pack("4of1", x) = Pack("4of2", x \o x)
    /\ Round("enc", v, v) = Enc(x, x) \o Enc(y, y) \o Enc(y, y) \o Enc(x, x)
    /\ Chain("dec", x \o y, <<y \o x>>) = XorSeq(x \o y, y \o x)

Laws == CASE Group = "rounds" -> Inverses /\ Linear /\ Chains /\ Made
           [] Group = "ciphers" -> Ciphers
           [] Group = "bits" -> Bits
           [] Group = "text" -> Texts
           [] Group = "buffers" -> Buffers
           [] Group = "lanes" -> LaneLaws
\* in the second state only: TLC examines initial states one at a time
Holds == z => Laws
=============================================================================
