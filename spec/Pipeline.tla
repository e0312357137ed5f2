------------------------------ MODULE Pipeline ------------------------------
(* Texts to documents.  A text is a sequence of sentences, a sentence a      *)
(* sequence of tokens; Sep are the tokens an over-long sentence is cut at.   *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
RECURSIVE Runs(_, _, _)          \* maximal runs of tokens that are no separators
Runs(s, Sep, cur) == IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                     ELSE IF Head(s) \in Sep THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Runs(Tail(s), Sep, <<>>)
                     ELSE Runs(Tail(s), Sep, Append(cur, Head(s)))
Cut(s, Sep, Limit) == IF Len(s) <= Limit THEN <<s>> ELSE SelectSeq(Runs(s, Sep, <<>>), LAMBDA p : Len(p) <= Limit)
\* the sentences of a text that are analysed
Analysed(text, Sep, Limit) == FlattenSeq([i \in DOMAIN text |-> Cut(text[i], Sep, Limit)])
\* the document: for each of them its tuples
Doc(text, Sep, Limit, TuplesOf(_)) == LET a == Analysed(text, Sep, Limit) IN [i \in DOMAIN a |-> TuplesOf(a[i])]
=============================================================================
