---------------------------- MODULE Standardizer ----------------------------
(* Spelling variation: a rule matches  start + mid + end  with the longest  *)
(* possible start, and picks the variant whose base form is most probable.  *)
EXTENDS Words

\* the splits of a word by a rule, with start made of letters only
Splits(w, mids, ends) == {<<m, e>> \in mids \X ends :
                            LET n == Len(w) - Len(m) - Len(e) IN
                            /\ n >= 1 /\ Ends(w, m \o e)
                            /\ \A i \in 1..n : Ch(w, i) \in Letters}
\* the longest start; mids and ends of these rules never make two splits of equal start
StartLen(w, x) == Len(w) - Len(x[1]) - Len(x[2])
Split(w, mids, ends) ==
  LET S == Splits(w, mids, ends) IN
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE x \in S : \A y \in S : StartLen(w, y) <= StartLen(w, x)
       IN  IF StartLen(w, x) < 3 THEN <<>> ELSE <<SubSeq(w, 1, StartLen(w, x)), x[1], x[2]>>

Rules == <<"our", "ise", "ce", "ogue", "ell", "ae", "oe">>

\* the standard spelling by one rule, or NoWord when the rule says nothing
Apply(rule, lm, w) ==
  CASE rule = "our" ->
         LET s == Split(w, {"our", "or"}, {"ing", "ed", "s", ""}) IN
         IF s = <<>> THEN NoWord
         ELSE LET b == Best(lm, {s[1] \o "or", s[1] \o "our"}) IN IF b = NoWord THEN NoWord ELSE b \o s[3]
    [] rule = "ise" ->
         LET s == Split(w, {"ys", "yz", "is", "iz"}, {"ations", "ation", "ers", "er", "ing", "ed", "es", "e"}) IN
         IF s = <<>> THEN NoWord
         ELSE LET v == Ch(s[2], 1)
                  b == Best(lm, {s[1] \o v \o "ze", s[1] \o v \o "se"})
              IN  IF b = NoWord THEN NoWord ELSE Cut(b, 1) \o s[3]
    [] rule = "ce" ->
         LET s == Split(w, {"c", "s"}, {"ives", "ive", "es", "e"}) IN
         IF s = <<>> THEN NoWord
         ELSE LET b == Best(lm, {s[1] \o "se", s[1] \o "ce"}) IN IF b = NoWord THEN NoWord ELSE Cut(b, 1) \o s[3]
    [] rule = "ogue" ->
         LET s == Split(w, {"og", "ogue"}, {"s", ""}) IN
         IF s = <<>> THEN NoWord
         ELSE LET b == Best(lm, {s[1] \o "og", s[1] \o "ogue"}) IN IF b = NoWord THEN NoWord ELSE b \o s[3]
    [] rule = "ell" ->
         LET s == Split(w, {"el", "ell"}, {"ing", "ers", "ed", "er"}) IN
         IF s = <<>> THEN NoWord ELSE Best(lm, {s[1] \o "el" \o s[3], s[1] \o "ell" \o s[3]})
    [] OTHER -> IF Len(w) > 4 /\ Occurs(w, rule) THEN Best(lm, {ReplaceAll(w, rule, "e"), w}) ELSE NoWord

RECURSIVE FromRule(_, _, _)
FromRule(k, lm, w) == IF k > Len(Rules) THEN w
                      ELSE LET r == Apply(Rules[k], lm, w) IN IF r # NoWord THEN r ELSE FromRule(k + 1, lm, w)

Standard(lm, w) == IF Known(lm, w, 5) THEN w ELSE FromRule(1, lm, w)
=============================================================================
