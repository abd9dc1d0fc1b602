---------------------------- MODULE AesHistories ----------------------------
(***************************************************************************)
(* The lives of cipher objects.  What an object does is determined by its  *)
(* key and direction (AesApi); an implementation could, wrongly, also let  *)
(* it depend on how the object came about and on what happened to it.  So  *)
(* this model keeps that too: born is how the object was made, and used    *)
(* what it last did.  TLC explores every state of two objects and emits    *)
(* every transition; the tours that cover all of them are executed on the  *)
(* real library, and TLC judges the outcomes by AesApi (AesTrace).         *)
(* The model itself is checked to be a refinement: forgetting born and     *)
(* used leaves the life of a (key, direction) pair.                        *)
(***************************************************************************)
EXTENDS Integers, TLC, Json

CONSTANTS Slots, Names      \* of objects and of keys
VARIABLES obj
Dirs == {"E", "D"}
Born == {"new", "converted", "copied"}
Used == {"fresh", "used"}
None == [key |-> "-"]
Object == [key : Names, dir : Dirs, born : Born, used : Used]

Flip(d) == IF d = "E" THEN "D" ELSE "E"
Make(s, d, k) == obj' = [obj EXCEPT ![s] = [key |-> k, dir |-> d, born |-> "new", used |-> "fresh"]]
Convert(d, s) == /\ obj[s] # None
                 /\ obj' = [obj EXCEPT ![d] = [obj[s] EXCEPT !.dir = Flip(@), !.born = "converted", !.used = "fresh"]]
\* a clone; clone_from replaces an object of the same type
Copy(d, s) == /\ obj[s] # None
              /\ obj' = [obj EXCEPT ![d] = [obj[s] EXCEPT !.born = "copied", !.used = "fresh"]]
CopyOver(d, s) == obj[d] # None /\ obj[s] # None /\ d # s /\ obj[d].dir = obj[s].dir /\ Copy(d, s)
Drop(s) == obj[s] # None /\ obj' = [obj EXCEPT ![s] = None]
Use(s) == obj[s] # None /\ obj' = [obj EXCEPT ![s].used = "used"]

Do(e) == CASE e.op = "kn" -> Make(e.s, e.f, e.k)
           [] e.op = "kc" -> Convert(e.d, e.s)
           [] e.op = "kl" -> Copy(e.d, e.s)
           [] e.op = "kf" -> CopyOver(e.d, e.s)
           [] e.op = "kd" -> Drop(e.s)
           [] e.op = "kx" -> Use(e.s)
Calls == [op : {"kn"}, s : Slots, f : Dirs, k : Names] \cup [op : {"kc", "kl", "kf"}, d : Slots, s : Slots]
         \cup [op : {"kd", "kx"}, s : Slots]
Init == obj = [s \in Slots |-> None]
Next == \E e \in Calls : Do(e) /\ PrintT(<<"EDGE", ToJson(obj), ToJson(e), ToJson(obj')>>)
Spec == Init /\ [][Next]_obj

Type == \A s \in Slots : obj[s] \in Object \cup {None}
Plain(o) == IF o = None THEN None ELSE [key |-> o.key, dir |-> o.dir]
View(f) == [s \in Slots |-> Plain(f[s])]
\* how an object came about and what it did leave no trace in what it is
PlainStep(p, e) ==
    CASE e.op = "kn" -> [p EXCEPT ![e.s] = [key |-> e.k, dir |-> e.f]]
      [] e.op = "kc" -> IF p[e.s] = None THEN p ELSE [p EXCEPT ![e.d] = [key |-> p[e.s].key, dir |-> Flip(p[e.s].dir)]]
      [] e.op \in {"kl", "kf"} -> IF p[e.s] = None THEN p ELSE [p EXCEPT ![e.d] = p[e.s]]
      [] e.op = "kd" -> [p EXCEPT ![e.s] = None]
      [] e.op = "kx" -> p
Faithful == [][\E e \in Calls : View(obj') = PlainStep(View(obj), e)]_obj
=============================================================================
