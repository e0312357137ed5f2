----------------------------- MODULE Containers -----------------------------
(* What arguments, tuples, sentences and documents answer.  An argument is   *)
(* [w, c, a] (word, code, affirmative), a tuple a sequence of arguments, a   *)
(* document a sequence of sentences, a sentence a sequence of tuples.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
AdjCodes == {"A", "L"}
VerbCodes == {"I", "R", "T"}
NounCodes == {"N", "O", "P", "S", "U"}
Codes == AdjCodes \cup VerbCodes \cup NounCodes \cup {"C"}
\* the documentation calls a copula both a verb and (in an example) a noun
TagsOf(c) == IF c \in AdjCodes THEN {"ADJ"} ELSE IF c \in VerbCodes THEN {"VERB"} ELSE IF c = "C" THEN {"VERB", "NOUN"} ELSE {"NOUN"}
ArgText(x, decorated) == IF decorated /\ ~x.a THEN "NOT " \o x.w ELSE x.w
RECURSIVE Glue(_, _)
Glue(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Glue(Tail(s), sep)
TupleCode(t) == Glue([i \in DOMAIN t |-> t[i].c], "")
TupleText(t, decorated) == TupleCode(t) \o "(" \o Glue([i \in DOMAIN t |-> ArgText(t[i], decorated)], ", ") \o ")"
AllOf(doc) == FlattenSeq(doc)
=============================================================================
