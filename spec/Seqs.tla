-------------------------------- MODULE Seqs -------------------------------
(* Folds over sequences (recursion over a long sequence is quadratic in TLC). *)
EXTENDS Sequences
LOCAL INSTANCE SequencesExt
Fold(f(_, _), base, s) == FoldLeft(f, base, s)
Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Concat(ss) == FlattenSeq(ss)
=============================================================================
