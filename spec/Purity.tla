------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* The library as seen by its callers: a heap of the caller's objects, the *)
(* results handed out so far, and the actions                              *)
(*   Call(key, args)  the library is called.  A key is the function with   *)
(*                    the VALUES of its arguments; fun[key] is what that   *)
(*                    call returns in a fresh process;                     *)
(*   Rewrite(objs)    the caller writes other values into its own objects; *)
(*   Scribble         the caller writes into a result it was given;        *)
(*   Overlap(calls)   calls are in progress at the same time (threads).    *)
(*                                                                         *)
(* Pure behaviour: a call changes no caller object and no earlier result,  *)
(* and returns fun[key], whatever happened before.                         *)
(* The process itself has a state too (numpy's error handling and print    *)
(* options; the global random number generators), which no call changes,   *)
(* except that the noise generators draw from the generators.              *)
(* An observation is [heap, results, ambient, out] after the action.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

\* st: [heap |-> digests of caller objects, res |-> digests of results so far, amb |-> <<options, generators>>]
\* draws: the call is one of the noise generators
Verdict(st, s, same(_, _), fun) ==
    (IF s.heap = st.heap THEN {} ELSE {"argument-modified"})
    \cup (IF SubSeq(s.res, 1, Len(st.res)) = st.res /\ Len(s.res) = Len(st.res) + 1 THEN {} ELSE {"earlier-result-changed"})
    \cup (IF s.amb[1] = st.amb[1] /\ (s.draws \/ s.amb[2] = st.amb[2]) THEN {} ELSE {"ambient-state-changed"})
    \cup (IF same(s.out, fun) THEN {} ELSE {"result-depends-on-history"})
\* several calls in progress at the same time; outs[i]: the answers which the i-th caller got (their results are not kept)
Overlap(st, s, same(_, _), funs) ==
    (IF s.heap = st.heap THEN {} ELSE {"argument-modified"})
    \cup (IF s.res = st.res THEN {} ELSE {"earlier-result-changed"})
    \cup (IF s.amb = st.amb THEN {} ELSE {"ambient-state-changed"})
    \cup (IF \A i \in 1..Len(s.outs) : \A j \in 1..Len(s.outs[i]) : same(s.outs[i][j], funs[i]) THEN {} ELSE {"result-depends-on-schedule"})
\* the state after an accepted call (caller objects are as before, one more result)
After(st, s) == [heap |-> st.heap, res |-> s.res, amb |-> s.amb]
\* the caller's own writes: objects and results are from now on what the caller sees
Written(st, s) == [heap |-> s.heap, res |-> s.res, amb |-> st.amb]
=============================================================================
