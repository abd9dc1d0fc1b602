--------------------------------- MODULE GF ---------------------------------
(***************************************************************************)
(* Arithmetic of the cell field GF(2^E) and the substitution box, defined  *)
(* from first principles (FIPS 197, sections 4 and 5.1.1), not from        *)
(* tables.  The field degree is a constant so that the same definitions    *)
(* give the AES field (E = 8, Poly = 2^8+2^4+2^3+2+1) and the four-bit     *)
(* field of the small-scale variant that TLC explores exhaustively.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Bytes, SequencesExt

CONSTANTS E,        \* bits per cell
          Poly,     \* reduction polynomial, as an integer
          SubMul,   \* affine map of the S-box: x -> SubMul (x) (mod z^E + 1) + SubAdd
          SubAdd

Cell == 0 .. (2^E - 1)



\* multiplication by z ("xtime")
XTime(a) == IF 2 * a >= 2^E THEN (2 * a - 2^E) ^^ (Poly - 2^E) ELSE 2 * a

RECURSIVE MulR(_, _)
MulR(a, b) == IF b = 0 THEN 0
              ELSE LET r == MulR(XTime(a), b \div 2)
                   IN IF b % 2 = 1 THEN a ^^ r ELSE r

\* multiplication table of the field (a constant: TLC computes it once)
MulTable == TLCEval([a \in Cell |-> TLCEval([b \in Cell |-> MulR(a, b)])])
a (.) b == MulTable[a][b]

\* multiplicative inverse, 0 mapped to 0
InvTable == TLCEval([a \in Cell |-> IF a = 0 THEN 0 ELSE CHOOSE b \in Cell : MulTable[a][b] = 1])

\* rotation of the bits of a cell to the left
RotL(a, n) == ((a * 2^n) % 2^E) + ((a * 2^n) \div 2^E)

\* multiplication modulo z^E + 1 (the affine part of the S-box)
CircMul(a, m) == FoldLeft(LAMBDA acc, i : IF (m \div 2^(i-1)) % 2 = 1 THEN acc ^^ RotL(a, i - 1) ELSE acc,
                          0, [i \in 1..E |-> i])

Sbox == TLCEval([a \in Cell |-> CircMul(InvTable[a], SubMul) ^^ SubAdd])
InvSbox == TLCEval([b \in Cell |-> CHOOSE a \in Cell : Sbox[a] = b])

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE XTime(Pow2(n - 1))     \* z^n
=============================================================================
