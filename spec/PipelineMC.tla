----------------------------- MODULE PipelineMC -----------------------------
(* The pipeline as a system: workers sentencize the texts, the sentences of  *)
(* all texts are flattened, parsed in batches, analysed by workers, and      *)
(* regrouped by ranges.  Every interleaving of the workers, every number of  *)
(* workers and every batch size give each text its own document.             *)
EXTENDS Pipeline, TLC
CONSTANTS MaxTexts, Kinds, MaxK, MaxB
\* sentences: <<id>> short, <<id, id>> too long without separators (Limit = 1), <<id, 0, id>> too long with one
Sep == {0}
Limit == 1
Shapes == [none |-> <<>>, one |-> << <<1>> >>, two |-> << <<1>>, <<2>> >>, dropped |-> << <<1, 2>> >>, cut |-> << <<1, 0, 2>>, <<3>> >>, ends |-> << <<0, 1, 0>> >>]
VARIABLES texts, K, B, stage, todo, got, flat, parsed, ranges, res, docs
vars == <<texts, K, B, stage, todo, got, flat, parsed, ranges, res, docs>>
Tag(t, shape) == [s \in DOMAIN shape |-> [w \in DOMAIN shape[s] |-> IF shape[s][w] = 0 THEN 0 ELSE 10 * t + shape[s][w]]]
Init == /\ \E n \in 0..MaxTexts : texts \in [1..n -> {Tag(0, Shapes[k]) : k \in Kinds}]
        /\ K \in 1..MaxK /\ B \in 1..MaxB /\ stage = "sentencize" /\ todo = DOMAIN texts /\ got = [t \in DOMAIN texts |-> <<>>]
        /\ flat = <<>> /\ parsed = <<>> /\ ranges = <<>> /\ res = <<>> /\ docs = <<>>
Named(t) == Tag(t, texts[t])
\* the slice of each worker: contiguous, balanced
Slice(n, k) == {i \in 1..n : \E q \in {n \div K}, r \in {n % K} : LET start == (k - 1) * q + (IF k - 1 < r THEN k - 1 ELSE r) IN i > start /\ i <= start + q + (IF k <= r THEN 1 ELSE 0)}
Ready(n) == {i \in todo : \E k \in 1..K : i \in Slice(n, k) /\ ~\E j \in todo : j < i /\ j \in Slice(n, k)}    \* each worker goes through its slice in order
Sentencize == /\ stage = "sentencize" /\ \E t \in Ready(Len(texts)) : todo' = todo \ {t} /\ got' = [got EXCEPT ![t] = Analysed(Named(t), Sep, Limit)]
              /\ UNCHANGED <<texts, K, B, stage, flat, parsed, ranges, res, docs>>
Sum(m) == Len(FlattenSeq(SubSeq(got, 1, m)))
Flatten == /\ stage = "sentencize" /\ todo = {} /\ stage' = "parse"
           /\ flat' = FlattenSeq(got) /\ ranges' = [t \in DOMAIN texts |-> <<Sum(t - 1), Sum(t)>>]
           /\ UNCHANGED <<texts, K, B, todo, got, parsed, res, docs>>
ParseBatch == /\ stage = "parse" /\ Len(parsed) < Len(flat)
              /\ parsed' = parsed \o SubSeq(flat, Len(parsed) + 1, IF Len(parsed) + B < Len(flat) THEN Len(parsed) + B ELSE Len(flat))
              /\ UNCHANGED <<texts, K, B, stage, todo, got, flat, ranges, res, docs>>
Parsed == /\ stage = "parse" /\ Len(parsed) = Len(flat) /\ stage' = "analyse" /\ todo' = DOMAIN flat /\ res' = [i \in DOMAIN flat |-> <<>>]
          /\ UNCHANGED <<texts, K, B, got, flat, parsed, ranges, docs>>
Analyse == /\ stage = "analyse" /\ \E i \in Ready(Len(flat)) : todo' = todo \ {i} /\ res' = [res EXCEPT ![i] = <<"tuples of", parsed[i]>>]
           /\ UNCHANGED <<texts, K, B, stage, got, flat, parsed, ranges, docs>>
Regroup == /\ stage = "analyse" /\ todo = {} /\ stage' = "done"
           /\ docs' = [t \in DOMAIN texts |-> SubSeq(res, ranges[t][1] + 1, ranges[t][2])]
           /\ UNCHANGED <<texts, K, B, todo, got, flat, parsed, ranges, res>>
Next == Sentencize \/ Flatten \/ ParseBatch \/ Parsed \/ Analyse \/ Regroup
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OneEach == stage = "done" => docs = [t \in DOMAIN texts |-> Doc(Named(t), Sep, Limit, LAMBDA s : <<"tuples of", s>>)]
Slices == \A k1, k2 \in 1..K : k1 # k2 => Slice(Len(texts), k1) \cap Slice(Len(texts), k2) = {}
AllSliced == UNION {Slice(Len(texts), k) : k \in 1..K} = DOMAIN texts
Ends == <>(stage = "done")
=============================================================================
