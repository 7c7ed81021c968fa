------------------------------ MODULE Apalache ------------------------------
\* The operators of Apalache's standard module that compiled Quint uses, for TLC; the folds are
\* those of the community modules, which TLC evaluates natively.
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
__x := __e == __x = __e
Guess(__S) == CHOOSE __x \in __S: TRUE
SetAsFun(__S) ==
    LET __Dom == { __p[1]: __p \in __S } IN
    [ __x \in __Dom |-> (CHOOSE __p \in __S: __p[1] = __x)[2] ]
MkSeq(__N, __F(_)) == [ __i \in (1..__N) |-> __F(__i) ]
FunAsSeq(__fn, __len, __capacity) == [ __i \in (1..__len) |-> __fn[__i] ]
ApaFoldSeqLeft(__Op(_,_), __v, __seq) == FoldLeft(__Op, __v, __seq)
ApaFoldSet(__Op(_,_), __v, __S) == FoldSet(LAMBDA __a, __b: __Op(__b, __a), __v, __S)
=============================================================================
