------------------------------- MODULE Bytes -------------------------------
(* Bitwise operations on small naturals, by table (TLC evaluates each table once). *)
EXTENDS Integers, Sequences, TLC
Nib == 0..15
RECURSIVE AndR(_, _)
AndR(a, b) == IF a = 0 \/ b = 0 THEN 0
              ELSE 2 * AndR(a \div 2, b \div 2) + (a % 2) * (b % 2)
And4 == TLCEval([a \in Nib |-> TLCEval([b \in Nib |-> AndR(a, b)])])
Byte == 0..255
AndTable == TLCEval([a \in Byte |-> TLCEval([b \in Byte |->
                16 * And4[a \div 16][b \div 16] + And4[a % 16][b % 16]])])
XorTable == TLCEval([a \in Byte |-> TLCEval([b \in Byte |-> a + b - 2 * AndTable[a][b]])])
a && b == AndTable[a][b]
a || b == a + b - AndTable[a][b]
a ^^ b == XorTable[a][b]
=============================================================================
