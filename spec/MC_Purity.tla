------------------------------ MODULE MC_Purity -----------------------------
(* The monitor of Purity against a tiny library, correct or broken in one of *)
(* the known ways, on every sequence of calls and caller's writes up to      *)
(* MC_L: a correct library is never accused, and a broken one is accused at  *)
(* the first call whose effect a caller can see.                             *)
EXTENDS Purity, Integers, IOUtils
L == atoi(IOEnv.MC_L)
Modes == {"pure", "mutate", "cache", "cacheid", "sticky", "alias", "share", "ambient", "scratch"}
\* two caller objects (pairs of digits); functions: sum, reversed copy, and a random number (drawn from the generator)
\* pend: a call in progress in another thread; work: the library's internal work array
VARIABLES mode, heap, own, res, cache, amb, bad, visible, n, st, pend, work
vars == <<mode, heap, own, res, cache, amb, bad, visible, n, st, pend, work>>
H0 == <<<<1, 2>>, <<2, 2>>>>
F(f, v) == IF f = "sum" THEN <<v[1] + v[2]>> ELSE IF f = "rnd" THEN <<7>> ELSE <<v[2], v[1]>>
Init == /\ mode \in Modes /\ heap = H0 /\ own = H0 /\ res = <<>> /\ cache = <<>> /\ amb = <<0, 0>> /\ bad = {} /\ visible = FALSE /\ n = 0 /\ pend = <<>> /\ work = <<0, 0>>
        /\ st = [heap |-> H0, res |-> <<>>, amb |-> <<0, 0>>]
Call(f, a) ==
    LET v   == heap[a]
        hit == cache # <<>> /\ cache[1] = f
        out == CASE mode = "cache" /\ hit -> cache[2]                                    \* keyed without the data
                 [] mode = "cacheid" /\ hit /\ cache[3] = a -> cache[2]                  \* keyed by object, not by value
                 [] mode = "share" /\ hit /\ cache[3] = v -> IF cache[4] = 0 THEN cache[2] ELSE res[cache[4]]   \* hands out the cached object
                 [] mode = "sticky" /\ f = "sum" /\ n > 1 -> <<v[1] + v[2] + 1>>         \* remembers earlier calls
                 [] OTHER -> F(f, v)
        h   == IF mode = "mutate" /\ f = "rev" THEN [heap EXCEPT ![a] = <<@[2], @[1]>>] ELSE heap
        r   == IF mode = "alias" /\ f = "sum" /\ res # <<>> THEN Append([res EXCEPT ![1] = out], out) ELSE Append(res, out)
        am  == IF f = "rnd" THEN <<amb[1], amb[2] + 1>>
               ELSE IF mode = "ambient" /\ f = "sum" THEN IF n % 2 = 0 THEN <<amb[1] + 1, amb[2]>> ELSE <<amb[1], amb[2] + 1>>
               ELSE amb
        s   == [amb |-> am, draws |-> f = "rnd", heap |-> h, res |-> r, out |-> out]
        w   == Verdict(st, s, LAMBDA x, y : x = y, F(f, own[a]))
    IN  /\ heap' = h /\ res' = r /\ amb' = am /\ bad' = w /\ n' = n + 1 /\ own' = own
        /\ cache' = IF mode \in {"cache", "cacheid", "share"} /\ cache = <<>>
                    THEN <<f, out, IF mode = "cacheid" THEN a ELSE v, Len(r)>> ELSE cache
        /\ visible' = (visible \/ h # own \/ SubSeq(r, 1, Len(res)) # res \/ out # F(f, own[a]) \/ (f # "rnd" /\ am # amb))
        /\ st' = After(st, s) /\ mode' = mode /\ pend' = pend /\ work' = v
\* a call that is in progress while others run: it reads its argument first and answers later
Begin(f, a) == /\ pend = <<>> /\ mode \in {"pure", "scratch"} /\ pend' = <<f, a>> /\ work' = heap[a] /\ n' = n + 1
               /\ UNCHANGED <<mode, heap, own, res, cache, amb, bad, visible, st>>
End == /\ pend # <<>>
       /\ LET out == F(pend[1], IF mode = "scratch" THEN work ELSE heap[pend[2]])
              w == Overlap(st, [heap |-> heap, res |-> res, amb |-> amb, outs |-> <<<<out>>>>], LAMBDA x, y : x = y, <<F(pend[1], own[pend[2]])>>)
          IN  bad' = w /\ visible' = (visible \/ out # F(pend[1], own[pend[2]]))
       /\ pend' = <<>> /\ n' = n + 1 /\ UNCHANGED <<mode, heap, own, res, cache, amb, st, work>>
\* the caller's own writes
Rewrite(a) == LET h == [heap EXCEPT ![a] = <<@[1] + 1, @[2]>>] IN
    /\ pend = <<>> /\ heap[a][1] < 4 /\ heap' = h /\ own' = h /\ n' = n + 1 /\ st' = Written(st, [heap |-> h, res |-> res])
    /\ UNCHANGED <<mode, res, cache, amb, bad, visible, pend, work>>
Scribble == /\ res # <<>> /\ n' = n + 1
            /\ LET r == [res EXCEPT ![Len(res)] = <<9>>] IN res' = r /\ st' = Written(st, [heap |-> heap, res |-> r])
            /\ UNCHANGED <<mode, heap, own, cache, amb, bad, visible, pend, work>>
Next == n < L /\ bad = {} /\ ((\E f \in {"sum", "rev", "rnd"}, a \in 1..2 : Call(f, a)) \/ (\E f \in {"sum", "rev"}, a \in 1..2 : Begin(f, a)) \/ End \/ (\E a \in 1..2 : Rewrite(a)) \/ Scribble)
Spec == Init /\ [][Next]_vars
Inv == (bad # {} <=> visible) /\ (mode = "pure" => bad = {})
=============================================================================
