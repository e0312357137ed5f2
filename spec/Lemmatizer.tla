----------------------------- MODULE Lemmatizer -----------------------------
(* world: [lm, adjs, preterits, pps, plurals, comparatives, superlatives]   *)
(* Result: <<lemma, inflection>>                                            *)
EXTENDS Words

NounTags == {"NOUN", "PROPN", "PRON", "SYM", "NUM"}
None == "NONE"

Fixed(w, tag) ==
  CASE tag = "VERB" /\ w \in {"'m", "am", "'re", "are"} -> <<"be", None>>
    [] tag = "VERB" /\ w \in {"'s", "is"} -> <<"be", "THIRD_PERSON">>
    [] tag = "VERB" /\ w = "being" -> <<"be", "PROGRESSIVE">>
    [] tag = "VERB" /\ w = "has" -> <<"have", "THIRD_PERSON">>
    [] tag = "VERB" /\ w = "doing" -> <<"do", "PROGRESSIVE">>
    [] tag = "VERB" /\ w = "need" -> <<w, None>>
    [] tag = "ADJ" /\ w = "better" -> <<"good", "COMPARATIVE">>
    [] tag = "ADJ" /\ w = "best" -> <<"good", "SUPERLATIVE">>
    [] tag = "ADV" /\ w = "better" -> <<"well", "COMPARATIVE">>
    [] tag = "ADV" /\ w = "best" -> <<"well", "SUPERLATIVE">>
    [] tag = "ADV" /\ w = "'" -> <<"'s", None>>
    [] tag \in NounTags /\ w = "'s" -> <<"we", None>>
    [] tag \in NounTags /\ w = "acumen" -> <<w, None>>
    [] OTHER -> <<>>

Irregular(wd, w, tag) ==
  CASE tag = "NOUN" /\ w \in DOMAIN wd.plurals -> <<wd.plurals[w], "PLURAL">>
    [] tag = "VERB" /\ w \in DOMAIN wd.pps -> <<wd.pps[w], "PAST">>
    [] tag = "VERB" /\ w \in DOMAIN wd.preterits -> <<wd.preterits[w], "PAST">>
    [] tag = "ADJ" /\ w \in DOMAIN wd.comparatives -> <<wd.comparatives[w], "COMPARATIVE">>
    [] tag = "ADJ" /\ w \in DOMAIN wd.superlatives -> <<wd.superlatives[w], "SUPERLATIVE">>
    [] OTHER -> <<>>

Prefixed(wd, w, tag) ==
  LET p == PrefixOf(w) IN
  IF p = <<>> THEN <<>>
  ELSE LET r == Irregular(wd, p[2], tag) IN IF r = <<>> THEN <<>> ELSE <<p[1] \o r[1], r[2]>>

\* the candidate base form the language model prefers: by its use after a pronoun or modal for verbs, next to another
\* candidate otherwise, else by its own frequency
Contexts == {"i", "you", "we", "they", "may", "might", "can", "could", "would", "should"}
Candidate(wd, stem, ends, tag) ==
  LET cands == {stem \o e : e \in ends}
      before == IF tag = "VERB" THEN Contexts ELSE cands
      best == Best(wd.lm, {b \o " " \o c : b \in before, c \in cands})
  IN  IF Cardinality(ends) = 1 THEN (IF \E c \in cands : Known(wd.lm, c, 1) THEN CHOOSE c \in cands : TRUE ELSE NoWord)
      ELSE IF best # NoWord THEN CHOOSE c \in cands : \E b \in before : best = b \o " " \o c
      ELSE Best(wd.lm, cands)

Choose(wd, w, stem, ends, inflection, tag) ==
  LET c == Candidate(wd, stem, ends, tag)
      p == PrefixOf(stem)
      d == IF p = <<>> THEN NoWord ELSE Candidate(wd, p[2], ends, tag)
  IN  IF c # NoWord THEN <<c, inflection>>
      ELSE IF d # NoWord THEN <<p[1] \o d, inflection>>
      ELSE <<w, None>>

\* an inflection rule: [tag, end, min (letters before), need, inf, ends, drop]
\* need: "double" vowel + doubled consonant before; "cons" consonant before; "any"
\* ends "last": the last letter before, alone or with these suffixes
R(tag, end, min, need, inf, drop, ends) == [tag |-> tag, end |-> end, min |-> min, need |-> need, inf |-> inf, drop |-> drop, ends |-> ends]
RulesOf == <<
  R("ADJ", "est", 4, "double", "SUPERLATIVE", 2, {}),
  R("ADJ", "er", 4, "double", "COMPARATIVE", 2, {}),
  R("ADJ", "iest", 2, "cons", "SUPERLATIVE", 0, {"y"}),
  R("ADJ", "est", 3, "any", "SUPERLATIVE", 1, {"", "e"}),
  R("ADJ", "ier", 2, "cons", "COMPARATIVE", 0, {"y"}),
  R("ADJ", "er", 3, "notadj", "COMPARATIVE", 1, {"", "e"}),
  R("VERB", "icking", 2, "cons", "PROGRESSIVE", 0, {"ic"}),
  R("VERB", "icked", 2, "cons", "PAST", 0, {"ic"}),
  R("VERB", "ing", 4, "double", "PROGRESSIVE", 2, {}),
  R("VERB", "ing", 3, "any", "PROGRESSIVE", 1, {"", "e"}),
  R("VERB", "icks", 2, "cons", "THIRD_PERSON", 0, {"ic"}),
  R("VERB", "ed", 4, "double", "PAST", 2, {}),
  R("VERB", "ied", 2, "cons", "PAST", 0, {"y"}),
  R("VERB", "ies", 1, "cons", "THIRD_PERSON", 0, {"y", "ie"}),
  R("VERB", "ed", 2, "any", "PAST", 1, {"", "e"}),
  R("VERB", "es", 2, "any", "THIRD_PERSON", 1, {"", "e"}),
  R("VERB", "s", 2, "any", "THIRD_PERSON", 1, {""}),
  R("NOUN", "a", 5, "any", "PLURAL", 0, {"on"}),
  R("NOUN", "ieves", 1, "cons", "PLURAL", 0, {"ief"}),
  R("NOUN", "i", 4, "any", "PLURAL", 0, {"us"}),
  R("NOUN", "ies", 2, "cons", "PLURAL", 0, {"y", "ie"}),
  R("NOUN", "ves", 2, "any", "PLURAL", 0, {"f", "fe", "ve"}),
  R("NOUN", "men", 2, "any", "PLURAL", 0, {"man"}),
  R("NOUN", "es", 2, "any", "PLURAL", 1, {"", "e", "is"}),
  R("NOUN", "s", 2, "notss", "PLURAL", 1, {""}) >>

Applies(wd, r, w, tag) ==
  LET start == Cut(w, Len(r.end)) IN
  /\ r.tag = tag /\ Ends(w, r.end) /\ Len(w) > Len(r.end) /\ Len(start) >= r.min
  /\ CASE r.need = "double" -> FromEnd(start, 3) \in Vowels /\ FromEnd(start, 2) \in Consonants /\ FromEnd(start, 2) = FromEnd(start, 1)
       [] r.need = "cons" -> FromEnd(start, 1) \in Consonants
       [] r.need = "notadj" -> ~\E k \in DOMAIN wd.adjs : wd.adjs[k] = w
       [] r.need = "notss" -> ~Ends(w, "ss") /\ ~Known(wd.lm, w \o "es", 1)
       [] OTHER -> TRUE

\* stem and candidate endings of a rule
StemEnds(r, w) ==
  LET start == Cut(w, Len(r.end))
      l == FromEnd(start, 1)
  IN  IF r.drop = 2 THEN <<Cut(start, 2), {l, l \o l}>>
      ELSE IF r.drop = 1 THEN <<Cut(start, 1), {l \o e : e \in r.ends}>>
      ELSE <<start, r.ends>>

RuleIdx(wd, w, tag) == {k \in DOMAIN RulesOf : Applies(wd, RulesOf[k], w, tag)}

LemmaLow(wd, w, tag) ==
  LET f == Fixed(w, tag)  i == Irregular(wd, w, tag)  p == Prefixed(wd, w, tag)  K == RuleIdx(wd, w, tag) IN
  CASE f # <<>> -> f
    [] f = <<>> /\ i # <<>> -> i
    [] f = <<>> /\ i = <<>> /\ p # <<>> -> p
    [] OTHER -> IF K = {} THEN <<w, None>>
                ELSE LET r == RulesOf[CHOOSE k \in K : \A j \in K : k <= j]
                         se == StemEnds(r, w)
                     IN  Choose(wd, w, se[1], se[2], r.inf, tag)
Lemma(wd, w, tag) == LemmaLow(wd, Lower(w), tag)

-----------------------------------------------------------------------------
(* Past participle; wd.irregular: lemma -> past participle                  *)
PastParticiple(wd, w) ==
  CASE w \in DOMAIN wd.irregular -> wd.irregular[w]
    [] w \notin DOMAIN wd.irregular /\ Len(w) > 1 /\ FromEnd(w, 2) \in Consonants /\ FromEnd(w, 1) = "y" -> Cut(w, 1) \o "ied"
    [] w \notin DOMAIN wd.irregular /\ Len(w) > 1 /\ FromEnd(w, 1) = "e" -> w \o "d"
    [] w \notin DOMAIN wd.irregular /\ Len(w) > 1 /\ FromEnd(w, 2) \in Vowels /\ FromEnd(w, 1) \in Consonants ->
         LET b == Best(wd.lm, {w \o "ed", w \o FromEnd(w, 1) \o "ed"}) IN IF b = NoWord THEN w \o "ed" ELSE b
    [] OTHER -> w \o "ed"
=============================================================================
