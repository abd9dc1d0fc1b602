------------------------------ MODULE Circuit -------------------------------
(***************************************************************************)
(* The constant-time build's substitution, which is a circuit of shifts    *)
(* and masks over the whole block, and its MixColumns.  A word is two      *)
(* neighbouring bytes, <<low, high>>: shifts move bits between them, and   *)
(* the masks must take these away again, so that no byte of the block      *)
(* influences another.                                                     *)
(***************************************************************************)
EXTENDS Bytes

Rep(m) == <<m, m>>
AndW(a, b) == <<a[1] && b[1], a[2] && b[2]>>
OrW(a, b)  == <<a[1] || b[1], a[2] || b[2]>>
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Shl(a, n) == <<(a[1] * 2^n) % 256, ((a[2] * 2^n) % 256) + ((a[1] * 2^n) \div 256)>>
Shr(a, n) == <<(a[1] \div 2^n) + ((a[2] % 2^n) * 2^(8 - n)), a[2] \div 2^n>>
Ror1(x) == OrW(Shr(AndW(x, Rep(254)), 1), Shl(AndW(x, Rep(1)), 7))
Swap2(x) == OrW(Shr(AndW(x, Rep(204)), 2), Shl(AndW(x, Rep(51)), 2))
StepA(a, b, m) ==
    LET x == AndW(a, b)
    IN XorW(XorW(x, Shr(AndW(x, m), 1)),
            AndW(XorW(AndW(Shl(a, 1), b), AndW(Shl(b, 1), a)), m))
StepB(a, m) ==
    LET x == AndW(a, m) IN XorW(OrW(x, Shr(x, 1)), AndW(Shl(a, 1), m))

CircuitSub(x0) ==
    LET
        y_0 == TLCEval(Ror1(x0))
        x_1 == TLCEval(XorW(AndW(x0, Rep(221)), AndW(y_0, Rep(87))))
        y_1 == TLCEval(Ror1(y_0))
        x_2 == TLCEval(XorW(x_1, AndW(y_1, Rep(28))))
        y_2 == TLCEval(Ror1(y_1))
        x_3 == TLCEval(XorW(x_2, AndW(y_2, Rep(74))))
        y_3 == TLCEval(Ror1(y_2))
        x_4 == TLCEval(XorW(x_3, AndW(y_3, Rep(66))))
        y_4 == TLCEval(Ror1(y_3))
        x_5 == TLCEval(XorW(x_4, AndW(y_4, Rep(100))))
        y_5 == TLCEval(Ror1(y_4))
        x_6 == TLCEval(XorW(x_5, AndW(y_5, Rep(224))))
        a1_0 == TLCEval(XorW(x_6, Shr(AndW(x_6, Rep(240)), 4)))
        a2_0 == TLCEval(Swap2(x_6))
        a3_0 == TLCEval(StepA(x_6, a1_0, Rep(170)))
        a4_0 == TLCEval(StepA(a1_0, a2_0, Rep(170)))
        a5_0 == TLCEval(Shr(AndW(a3_0, Rep(204)), 2))
        a3_1 == TLCEval(XorW(a3_0, AndW(XorW(Shl(a4_0, 2), a4_0), Rep(204))))
        a4_1 == TLCEval(StepB(a5_0, Rep(34)))
        a3_2 == TLCEval(XorW(a3_1, a4_1))
        a5_1 == TLCEval(StepB(a3_2, Rep(160)))
        a4_2 == TLCEval(AndW(a5_1, Rep(192)))
        a6_0 == TLCEval(Shr(a4_2, 2))
        a4_3 == TLCEval(XorW(a4_2, AndW(Shl(a5_1, 2), Rep(192))))
        a5_2 == TLCEval(StepB(a6_0, Rep(32)))
        a4_4 == TLCEval(OrW(a4_3, a5_2))
        a3_3 == TLCEval(AndW(XorW(a3_2, Shr(a4_4, 4)), Rep(15)))
        a2_1 == TLCEval(XorW(a3_3, Shr(AndW(a3_3, Rep(12)), 2)))
        a4_5 == TLCEval(StepA(a2_1, a3_3, Rep(10)))
        a5_3 == TLCEval(StepB(a4_5, Rep(8)))
        a4_6 == TLCEval(AndW(XorW(a4_5, Shr(a5_3, 2)), Rep(3)))
        a4_7 == TLCEval(XorW(a4_6, Shr(AndW(a4_6, Rep(2)), 1)))
        a4_8 == TLCEval(OrW(a4_7, Shl(a4_7, 2)))
        a3_4 == TLCEval(StepA(a2_1, a4_8, Rep(10)))
        a3_5 == TLCEval(OrW(a3_4, Shl(a3_4, 4)))
        a2_2 == TLCEval(Swap2(a1_0))
        x_7 == TLCEval(StepA(a1_0, a3_5, Rep(170)))
        a4_9 == TLCEval(StepA(a2_2, a3_5, Rep(170)))
        a5_4 == TLCEval(Shr(AndW(x_7, Rep(204)), 2))
        x_8 == TLCEval(XorW(x_7, AndW(XorW(Shl(a4_9, 2), a4_9), Rep(204))))
        a4_10 == TLCEval(StepB(a5_4, Rep(34)))
        x_9 == TLCEval(XorW(x_8, a4_10))
        y_6 == TLCEval(Ror1(x_9))
        x_10 == TLCEval(XorW(AndW(x_9, Rep(57)), AndW(y_6, Rep(63))))
        y_7 == TLCEval(OrW(Shr(AndW(y_6, Rep(252)), 2), Shl(AndW(y_6, Rep(3)), 6)))
        x_11 == TLCEval(XorW(x_10, AndW(y_7, Rep(151))))
        y_8 == TLCEval(Ror1(y_7))
        x_12 == TLCEval(XorW(x_11, AndW(y_8, Rep(155))))
        y_9 == TLCEval(Ror1(y_8))
        x_13 == TLCEval(XorW(x_12, AndW(y_9, Rep(60))))
        y_10 == TLCEval(Ror1(y_9))
        x_14 == TLCEval(XorW(x_13, AndW(y_10, Rep(221))))
        y_11 == TLCEval(Ror1(y_10))
        x_15 == TLCEval(XorW(x_14, AndW(y_11, Rep(114))))
    IN XorW(x_15, Rep(99))

CircuitInv(x0) ==
    LET
        x_1 == TLCEval(XorW(x0, Rep(99)))
        y_0 == TLCEval(Ror1(x_1))
        x_2 == TLCEval(XorW(AndW(x_1, Rep(253)), AndW(y_0, Rep(94))))
        y_1 == TLCEval(Ror1(y_0))
        x_3 == TLCEval(XorW(x_2, AndW(y_1, Rep(243))))
        y_2 == TLCEval(Ror1(y_1))
        x_4 == TLCEval(XorW(x_3, AndW(y_2, Rep(245))))
        y_3 == TLCEval(Ror1(y_2))
        x_5 == TLCEval(XorW(x_4, AndW(y_3, Rep(120))))
        y_4 == TLCEval(Ror1(y_3))
        x_6 == TLCEval(XorW(x_5, AndW(y_4, Rep(119))))
        y_5 == TLCEval(Ror1(y_4))
        x_7 == TLCEval(XorW(x_6, AndW(y_5, Rep(21))))
        y_6 == TLCEval(Ror1(y_5))
        x_8 == TLCEval(XorW(x_7, AndW(y_6, Rep(165))))
        a1_0 == TLCEval(XorW(x_8, Shr(AndW(x_8, Rep(240)), 4)))
        a2_0 == TLCEval(Swap2(x_8))
        a3_0 == TLCEval(StepA(x_8, a1_0, Rep(170)))
        a4_0 == TLCEval(StepA(a1_0, a2_0, Rep(170)))
        a5_0 == TLCEval(Shr(AndW(a3_0, Rep(204)), 2))
        a3_1 == TLCEval(XorW(a3_0, AndW(XorW(Shl(a4_0, 2), a4_0), Rep(204))))
        a4_1 == TLCEval(StepB(a5_0, Rep(34)))
        a3_2 == TLCEval(XorW(a3_1, a4_1))
        a5_1 == TLCEval(StepB(a3_2, Rep(160)))
        a4_2 == TLCEval(AndW(a5_1, Rep(192)))
        a6_0 == TLCEval(Shr(a4_2, 2))
        a4_3 == TLCEval(XorW(a4_2, AndW(Shl(a5_1, 2), Rep(192))))
        a5_2 == TLCEval(StepB(a6_0, Rep(32)))
        a4_4 == TLCEval(OrW(a4_3, a5_2))
        a3_3 == TLCEval(AndW(XorW(a3_2, Shr(a4_4, 4)), Rep(15)))
        a2_1 == TLCEval(XorW(a3_3, Shr(AndW(a3_3, Rep(12)), 2)))
        a4_5 == TLCEval(StepA(a2_1, a3_3, Rep(10)))
        a5_3 == TLCEval(StepB(a4_5, Rep(8)))
        a4_6 == TLCEval(AndW(XorW(a4_5, Shr(a5_3, 2)), Rep(3)))
        a4_7 == TLCEval(XorW(a4_6, Shr(AndW(a4_6, Rep(2)), 1)))
        a4_8 == TLCEval(OrW(a4_7, Shl(a4_7, 2)))
        a3_4 == TLCEval(StepA(a2_1, a4_8, Rep(10)))
        a3_5 == TLCEval(OrW(a3_4, Shl(a3_4, 4)))
        a2_2 == TLCEval(Swap2(a1_0))
        x_9 == TLCEval(StepA(a1_0, a3_5, Rep(170)))
        a4_9 == TLCEval(StepA(a2_2, a3_5, Rep(170)))
        a5_4 == TLCEval(Shr(AndW(x_9, Rep(204)), 2))
        x_10 == TLCEval(XorW(x_9, AndW(XorW(Shl(a4_9, 2), a4_9), Rep(204))))
        a4_10 == TLCEval(StepB(a5_4, Rep(34)))
        x_11 == TLCEval(XorW(x_10, a4_10))
        y_7 == TLCEval(Ror1(x_11))
        x_12 == TLCEval(XorW(AndW(x_11, Rep(181)), AndW(y_7, Rep(64))))
        y_8 == TLCEval(Ror1(y_7))
        x_13 == TLCEval(XorW(x_12, AndW(y_8, Rep(128))))
        y_9 == TLCEval(Ror1(y_8))
        x_14 == TLCEval(XorW(x_13, AndW(y_9, Rep(22))))
        y_10 == TLCEval(Ror1(y_9))
        x_15 == TLCEval(XorW(x_14, AndW(y_10, Rep(235))))
        y_11 == TLCEval(Ror1(y_10))
        x_16 == TLCEval(XorW(x_15, AndW(y_11, Rep(151))))
        y_12 == TLCEval(Ror1(y_11))
        x_17 == TLCEval(XorW(x_16, AndW(y_12, Rep(251))))
        y_13 == TLCEval(Ror1(y_12))
    IN XorW(x_17, AndW(y_13, Rep(125)))
=============================================================================
