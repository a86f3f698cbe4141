------------------------------ MODULE GenPurity -----------------------------
(* Call histories over a pool of caller objects: which function, on which   *)
(* values, held in which container, with which request.  Repetition of       *)
(* earlier calls (same key, other container) is made frequent.  Between      *)
(* calls the caller rewrites its objects ("mut") or the last result ("scr"); *)
(* "par" makes two calls at the same time.                                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
D == atoi(IOEnv.GEN_D)
NF == atoi(IOEnv.GEN_NF)         \* number of function templates
VARIABLES hist, done, focus, turn
Calls == { j \in 1..Len(hist) : hist[j].act = "call" }
Put(h) == hist' = Append(hist, h)
One(f, v, c, r) == [act |-> "call", f |-> f, v |-> v, c |-> c, r |-> r]
Init == hist = <<>> /\ done = FALSE /\ focus = <<>> /\ turn = 0
Fresh  == \E k \in {RandomElement(1..3)}, v \in {RandomElement(1..4)}, c \in {RandomElement(1..8)}, r \in {RandomElement(1..5)} : Put(One(focus[k], v, c, r))
Other  == \E f \in {RandomElement(1..NF)}, v \in {RandomElement(1..4)}, r \in {RandomElement(1..5)} : Put(One(f, v, 1 + (f % 8), r))
Repeat == \E j \in {RandomElement(Calls)}, c \in {RandomElement(1..8)}, same \in BOOLEAN : Put(IF same THEN hist[j] ELSE [hist[j] EXCEPT !.c = c])
Write  == \E v \in {RandomElement(1..4)}, scr \in {RandomElement(BOOLEAN)} : Put([act |-> IF scr THEN "scr" ELSE "mut", v |-> v])
Par    == \E k \in {RandomElement(1..3)}, g \in {RandomElement(1..NF)}, v \in {RandomElement(1..4)}, w \in {RandomElement(1..4)}, c \in {RandomElement(1..8)},
             r \in {RandomElement(1..5)}, q \in {RandomElement(1..5)}, twin \in {RandomElement(BOOLEAN)} :
          Put([act |-> "par", calls |-> <<One(focus[k], v, c, r), One(IF twin THEN focus[k] ELSE g, w, c, IF twin THEN q ELSE r)>>])
Emit == PrintT(<<"GEN", ToJson(hist)>>) /\ done' = TRUE /\ UNCHANGED <<hist, focus, turn>>
Pick == \E f \in {RandomElement(1..NF)} : focus' = Append(focus, f) /\ UNCHANGED <<hist, done, turn>>
Next == IF done THEN FALSE ELSE IF Len(focus) < 3 THEN Pick ELSE IF Len(hist) >= D THEN Emit
        ELSE /\ done' = FALSE /\ focus' = focus /\ turn' = RandomElement(0..9)
             /\ (IF Calls = {} THEN Fresh ELSE CASE turn \in {0, 1} -> Other [] turn \in {2, 3, 4, 5} -> Repeat [] turn \in {6, 7} -> Write [] turn = 8 -> Par [] OTHER -> Fresh)
Spec == Init /\ [][Next]_<<hist, done, focus, turn>>
=============================================================================
