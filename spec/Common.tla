------------------------------- MODULE Common -------------------------------
(* Helpers shared by all specifications.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Inf == 1000000000          \* stands for "no bound" (sys.maxsize in the code)

Range1(s) == {s[i] : i \in DOMAIN s}
MinOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x >= y
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumFn(f, S) == FoldSet(LAMBDA x, a : a + f[x], 0, S)

(* First failing clause of a sequence of <<name, holds>> pairs ("" = none). *)
FirstBad(cl) ==
  LET bad == SelectSeq(cl, LAMBDA c : ~c[2])
  IN IF bad = <<>> THEN "" ELSE bad[1][1]
(* The first non-empty clause name. *)
FirstOf(names) ==
  LET bad == SelectSeq(names, LAMBDA c : c # "")
  IN IF bad = <<>> THEN "" ELSE bad[1]
=============================================================================
