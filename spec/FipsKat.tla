------------------------------ MODULE FipsKat -------------------------------
(***************************************************************************)
(* The published values that anchor Rijndael to the standards: the field,  *)
(* the S-box, key expansions (FIPS 197, appendix A) and ciphertexts        *)
(* (FIPS 197, appendices B and C; SP 800-38A, appendix F.1).               *)
(***************************************************************************)
EXTENDS Rijndael
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
Spec == Init /\ [][Next]_done

\* FIPS 197, 4.2: {57} times {83} is {c1}, {57} times {13} is {fe}
ASSUME Field == 87 (.) 131 = 193 /\ 87 (.) 19 = 254
\* 5.1.1, figure 7: the first and the last row, and {53}
ASSUME SboxRows == /\ [i \in 1..16 |-> Sbox[i - 1]] = <<99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118>>
                   /\ [i \in 1..16 |-> Sbox[i + 239]] = <<140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22>>
                   /\ Sbox[83] = 237
ASSUME SboxInverse == \A a \in Cell : InvSbox[Sbox[a]] = a
ASSUME RowInverse == LET s == [i \in 1..16 |-> i] IN InvShiftRows(ShiftRows(s)) = s /\ ShiftRows(s) # s
\* 5.2: round constants
ASSUME Rcons == [i \in 1..10 |-> Pow2(i - 1)] = <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>
\* appendix A: words of expanded keys
ASSUME Expansions ==
    /\ Words(<<43, 126, 21, 22, 40, 174, 210, 166, 171, 247, 21, 136, 9, 207, 79, 60>>, 4)[44] = <<182, 99, 12, 166>>
    /\ Words(<<142, 115, 176, 247, 218, 14, 100, 82, 200, 16, 243, 43, 128, 144, 121, 229, 98, 248, 234, 210, 82, 44, 107, 123>>, 6)[52] = <<1, 0, 34, 2>>
    /\ Words(<<96, 61, 235, 16, 21, 202, 113, 190, 43, 115, 174, 240, 133, 125, 119, 129, 31, 53, 44, 7, 59, 97, 8, 215, 45, 152, 16, 163, 9, 20, 223, 244>>, 8)[60] = <<112, 108, 99, 30>>
    /\ Words(<<43, 126, 21, 22, 40, 174, 210, 166, 171, 247, 21, 136, 9, 207, 79, 60>>, 4)[5] = <<160, 250, 254, 23>>
    /\ Words(<<142, 115, 176, 247, 218, 14, 100, 82, 200, 16, 243, 43, 128, 144, 121, 229, 98, 248, 234, 210, 82, 44, 107, 123>>, 6)[7] = <<254, 12, 145, 247>>
    /\ Words(<<96, 61, 235, 16, 21, 202, 113, 190, 43, 115, 174, 240, 133, 125, 119, 129, 31, 53, 44, 7, 59, 97, 8, 215, 45, 152, 16, 163, 9, 20, 223, 244>>, 8)[13] = <<168, 176, 156, 26>>
Vectors == <<
    <<<<43, 126, 21, 22, 40, 174, 210, 166, 171, 247, 21, 136, 9, 207, 79, 60>>,
      <<50, 67, 246, 168, 136, 90, 48, 141, 49, 49, 152, 162, 224, 55, 7, 52>>,
      <<57, 37, 132, 29, 2, 220, 9, 251, 220, 17, 133, 151, 25, 106, 11, 50>>>>,
    <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>,
      <<0, 17, 34, 51, 68, 85, 102, 119, 136, 153, 170, 187, 204, 221, 238, 255>>,
      <<105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90>>>>,
    <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23>>,
      <<0, 17, 34, 51, 68, 85, 102, 119, 136, 153, 170, 187, 204, 221, 238, 255>>,
      <<221, 169, 124, 164, 134, 76, 223, 224, 110, 175, 112, 160, 236, 13, 113, 145>>>>,
    <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31>>,
      <<0, 17, 34, 51, 68, 85, 102, 119, 136, 153, 170, 187, 204, 221, 238, 255>>,
      <<142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137>>>>,
    <<<<43, 126, 21, 22, 40, 174, 210, 166, 171, 247, 21, 136, 9, 207, 79, 60>>,
      <<107, 193, 190, 226, 46, 64, 159, 150, 233, 61, 126, 17, 115, 147, 23, 42>>,
      <<58, 215, 123, 180, 13, 122, 54, 96, 168, 158, 202, 243, 36, 102, 239, 151>>>>,
    <<<<142, 115, 176, 247, 218, 14, 100, 82, 200, 16, 243, 43, 128, 144, 121, 229, 98, 248, 234, 210, 82, 44, 107, 123>>,
      <<107, 193, 190, 226, 46, 64, 159, 150, 233, 61, 126, 17, 115, 147, 23, 42>>,
      <<189, 51, 79, 29, 110, 69, 242, 95, 247, 18, 162, 20, 87, 31, 165, 204>>>>,
    <<<<96, 61, 235, 16, 21, 202, 113, 190, 43, 115, 174, 240, 133, 125, 119, 129, 31, 53, 44, 7, 59, 97, 8, 215, 45, 152, 16, 163, 9, 20, 223, 244>>,
      <<107, 193, 190, 226, 46, 64, 159, 150, 233, 61, 126, 17, 115, 147, 23, 42>>,
      <<243, 238, 209, 189, 181, 210, 160, 60, 6, 75, 90, 126, 61, 177, 129, 248>>>> >>
ASSUME Ciphertexts == \A i \in 1..Len(Vectors) :
    LET v == Vectors[i]
        w == KeyExpansion(v[1])
    IN Cipher(w, v[2]) = v[3] /\ InvCipher(w, v[3]) = v[2] /\ EqInvCipher(DecRoundKeys(w), v[3]) = v[2]
\* the rounds the library offers compose to the cipher
ASSUME Composed == \A i \in 1..Len(Vectors) :
    LET v == Vectors[i]
        w == KeyExpansion(v[1])
    IN EncLast(ChainEnc(v[2], SubSeq(w, 1, Len(w) - 1)), w[Len(w)]) = v[3]
=============================================================================
