------------------------------- MODULE AesGen -------------------------------
(***************************************************************************)
(* Behaviours of AesApi, drawn at random by TLC (-simulate).  Each step    *)
(* emits the call and the outcome the specification gives it; the calls    *)
(* are executed on every build of the library and must have that outcome.  *)
(***************************************************************************)
EXTENDS AesApi, Json

GSlots == 0..3
GRegs == 1..4
GWidths == {1, 2, 4}
Draw(S) == RandomElement(S)
Edge == {0, 1, 2, 127, 128, 254, 255}
RBytes(n) == LET k == Draw(0..6) IN
    TLCEval(CASE k = 0 -> [i \in 1..n |-> Draw(Edge)]
              [] k = 1 -> LET p == Draw(1..n) IN [i \in 1..n |-> IF i = p THEN Draw(Cell) ELSE 0]
              [] k = 2 -> LET b == [i \in 1..16 |-> Draw(Cell)] IN [i \in 1..n |-> b[1 + (i % 16)]]
              [] OTHER -> [i \in 1..n |-> Draw(Cell)])
Operand(w) == IF Draw(0..2) = 0 THEN [g |-> 0, h |-> RBytes(w * NCells)] ELSE [g |-> Draw(Regs), h |-> <<>>]
Live == {s \in Slots : cip[s] # Absent}
Op == Draw(IF Live = {} THEN {"kn", "rnd", "bit"}
          ELSE {"kn", "kc", "kc2", "kl", "kd", "kx", "kx2", "kx3", "kx4", "rnd", "rnd2", "rnd3", "mix", "mix2", "chain", "chain2", "bit",
                "bit2", "cmp", "slice", "store", "set", "bytes", "u128", "fmt", "dbg", "pack"})
RandomCall ==
    LET o == Op
        w == Draw(Widths)
        n == w * NCells
        r == Draw(Regs)
    IN CASE o = "kn" -> [op |-> "kn", s |-> Draw(Slots), f |-> Draw({"E", "D"}), h |-> RBytes(Draw({16, 24, 32}))]
         [] o \in {"kc", "kc2"} -> [op |-> "kc", d |-> Draw(Slots), s |-> Draw(Live)]
         [] o = "kl" -> [op |-> "kl", d |-> Draw(Slots), s |-> Draw(Live)]
         [] o = "kd" -> [op |-> "kd", s |-> Draw(Slots)]
         [] o \in {"kx", "kx2", "kx3", "kx4"} -> [op |-> "kx", w |-> w, s |-> Draw(Live), x |-> Operand(w), r |-> r]
         [] o \in {"rnd", "rnd2", "rnd3"} -> [op |-> "rnd", w |-> w, f |-> Draw({"enc", "encl", "dec", "decl"}), x |-> Operand(w), y |-> Operand(w), r |-> r]
         [] o \in {"mix", "mix2"} -> [op |-> "mix", f |-> Draw({"mc", "imc"}), x |-> Operand(1), r |-> r]
         [] o \in {"chain", "chain2"} -> [op |-> "chain", w |-> w, f |-> Draw({"enc", "dec"}), x |-> Operand(w),
                              k |-> TLCEval([i \in 1..Draw(0..16) |-> Operand(w)]), r |-> r]
         [] o \in {"bit", "bit2"} -> [op |-> "bit", w |-> w, f |-> Draw({"and", "or", "xor", "not"}), x |-> Operand(w), y |-> Operand(w), r |-> r]
         [] o = "cmp" -> LET x == Operand(w) IN [op |-> "cmp", w |-> w, f |-> Draw({"eq", "ne", "isz"}), x |-> x,
                              y |-> IF Draw(0..1) = 0 THEN x ELSE Operand(w)]
         [] o = "slice" -> [op |-> "slice", w |-> w, h |-> RBytes(Draw({0, 1, n - 1, n, n + 1, n + 15}))]
         [] o = "store" -> [op |-> "store", w |-> w, x |-> Operand(w), h |-> RBytes(Draw({1, n - 1, n, n + 1, n + 17}))]
         [] o = "set" -> [op |-> "set", w |-> w, x |-> [g |-> 0, h |-> RBytes(n)], r |-> r]
         [] o = "bytes" -> [op |-> "bytes", w |-> w, f |-> Draw({"new", "arr", "ref", "slice", "zero", "default"}), p |-> 0, h |-> RBytes(n)]
         [] o = "u128" -> [op |-> "u128", h |-> RBytes(16)]
         [] o = "fmt" -> [op |-> "fmt", f |-> Draw({"d", "#d", "?", "#?", "x", "#x", "X", "#X", "b", "#b"}), x |-> Operand(1)]
         [] o = "dbg" -> [op |-> "dbg", w |-> w, f |-> Draw({"0", "1"}), x |-> Operand(w)]
         [] o = "pack" -> LET f == Draw({"2of1", "4of1", "4of2", "2from1s", "4to1s", "tour"}) IN
                          [op |-> "pack", f |-> f, h |-> RBytes(CASE f \in {"2of1", "4of1"} -> 16 [] f \in {"4of2", "2from1s"} -> 32 [] OTHER -> 64)]
GenNext == \E e \in {TLCEval(RandomCall)} :
              /\ Do(e)
              /\ PrintT(<<"CALL", TLCGet("level"), ToJson([e |-> e, o |-> out'])>>)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
