------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* Blocks and vectors of blocks as byte strings: lanes, bitwise operators, *)
(* equality, parsing, storing and text.  A value of width w is the         *)
(* sequence of its w * NCells bytes; lane i holds bytes i*NCells .. .      *)
(* Text is a sequence of character codes.                                  *)
(***************************************************************************)
EXTENDS Rijndael

Lane(v, i) == SubSeq(v, NCells * i + 1, NCells * (i + 1))      \* i counts from 0
Lanes(v)   == [i \in 1..Len(v) \div NCells |-> Lane(v, i - 1)]
Lanewise(Op(_), v) == LET l == Lanes(v) IN
    CASE Len(l) = 1 -> Op(v)
      [] Len(l) = 2 -> Op(l[1]) \o Op(l[2])
      [] OTHER -> FoldLeft(LAMBDA a, x : a \o Op(x), <<>>, l)
Lanewise2(Op(_, _), v, u) == LET n == Len(v) \div NCells IN
    IF n = 1 THEN Op(v, u)
    ELSE FoldLeft(LAMBDA a, i : a \o Op(Lane(v, i - 1), Lane(u, i - 1)), <<>>, [i \in 1..n |-> i])

AndSeq(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] && b[i]])
OrSeq(a, b)  == TLCEval([i \in 1..Len(a) |-> a[i] || b[i]])
NotSeq(a)    == TLCEval([i \in 1..Len(a) |-> (2^E - 1) - a[i]])
IsZero(a)    == \A i \in 1..Len(a) : a[i] = 0
Zeros(n)     == TLCEval([i \in 1..n |-> 0])

\* the operators of one block or vector of blocks
Bitwise(f, x, y) ==
    CASE f = "and" -> AndSeq(x, y)
      [] f = "or"  -> OrSeq(x, y)
      [] f = "xor" -> XorSeq(x, y)
      [] f = "not" -> NotSeq(x)
Round(f, x, k) ==
    CASE f = "enc"  -> Lanewise2(Enc, x, k)
      [] f = "encl" -> Lanewise2(EncLast, x, k)
      [] f = "dec"  -> Lanewise2(Dec, x, k)
      [] f = "decl" -> Lanewise2(DecLast, x, k)
Mix(f, x) == IF f = "mc" THEN MixColumns(x) ELSE InvMixColumns(x)
Chain(f, x, keys) ==
    FoldLeft(LAMBDA a, k : Round(f, a, k), XorSeq(x, Head(keys)), Tail(keys))
Compare(f, x, y) ==
    CASE f = "eq"  -> x = y
      [] f = "ne"  -> x # y
      [] f = "isz" -> IsZero(x)

\* the leading n bytes of a slice, or its length
Parse(s, n) == IF Len(s) >= n THEN [t |-> "ok", v |-> SubSeq(s, 1, n)]
               ELSE [t |-> "err", v |-> <<Len(s)>>]
\* x written at the start of buf; a short buffer is refused and unchanged
Store(x, buf) == IF Len(buf) >= Len(x) THEN [t |-> "ok", v |-> x \o SubSeq(buf, Len(x) + 1, Len(buf))]
                 ELSE [t |-> "panic", v |-> buf]

(******************** text **************************************************)
LowerDigit(d) == IF d < 10 THEN 48 + d ELSE 97 + d - 10
UpperDigit(d) == IF d < 10 THEN 48 + d ELSE 65 + d - 10
HexText(v, Digit(_)) == TLCEval([i \in 1..2 * Len(v) |->
    LET b == v[(i + 1) \div 2] IN Digit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)])
BinText(v) == TLCEval([i \in 1..8 * Len(v) |->
    LET b == v[(i + 7) \div 8] IN 48 + ((b \div 2^(7 - ((i - 1) % 8))) % 2)])
Pre(c) == <<48, c>>                           \* 0x, 0X, 0b
LowerHex(v, alt) == (IF alt THEN Pre(120) ELSE <<>>) \o HexText(v, LowerDigit)
UpperHex(v, alt) == (IF alt THEN Pre(88) ELSE <<>>) \o HexText(v, UpperDigit)
Binary(v, alt)   == (IF alt THEN Pre(98) ELSE <<>>) \o BinText(v)
Display(v, alt)  == IF alt THEN UpperHex(v, FALSE) ELSE LowerHex(v, FALSE)
Text(f, v) ==
    CASE f = "d" -> Display(v, FALSE) [] f = "#d" -> Display(v, TRUE)
      [] f = "?" -> Display(v, FALSE) [] f = "#?" -> Display(v, TRUE)
      [] f = "x?" -> Display(v, FALSE) [] f = "X?" -> Display(v, FALSE)
      [] f = "x" -> LowerHex(v, FALSE) [] f = "#x" -> LowerHex(v, TRUE)
      [] f = "X" -> UpperHex(v, FALSE) [] f = "#X" -> UpperHex(v, TRUE)
      [] f = "b" -> Binary(v, FALSE) [] f = "#b" -> Binary(v, TRUE)

\* the tuple forms: "(a, b)" and, when alternate, one indented line per element
Comma == <<44, 32>>
Tuple(es) == <<40>> \o FoldLeft(LAMBDA a, e : IF a = <<>> THEN e ELSE a \o Comma \o e, <<>>, es) \o <<41>>
AltTuple(es) == <<40, 10>> \o FoldLeft(LAMBDA a, e : a \o <<32, 32, 32, 32>> \o e \o <<44, 10>>, <<>>, es) \o <<41>>
DebugVec(v, alt) ==
    LET es == [i \in 1..Len(v) \div NCells |-> Display(Lane(v, i - 1), alt)]
    IN IF Len(es) = 1 THEN es[1] ELSE IF alt THEN AltTuple(es) ELSE Tuple(es)

(******************** building and splitting vectors ************************)
\* every packing and unpacking keeps the byte string; broadcasts repeat it
Pack(f, v) ==
    CASE f = "2of1" -> v \o v
      [] f = "4of1" -> v \o v \o v \o v
      [] f = "4of2" -> v \o v
      [] OTHER -> v
\* the test pattern of the constants compiled into the harness (any byte string would do)
Pattern(i, n) == TLCEval([j \in 1..n |-> (17 * i + 7 * (j - 1) + (j - 1) * (j - 1) + 1) % 256])
=============================================================================
