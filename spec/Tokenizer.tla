----------------------------- MODULE Tokenizer -----------------------------
(* The rule-based tokenizer as a rewriting system: the state is a text     *)
(* buffer that goes through a fixed series of stages; every stage is a     *)
(* list of <<pattern, replacement, trigger characters>> rules.  A rule can *)
(* only fire when the buffer holds one of its trigger characters.          *)
EXTENDS Regex

LOW  == In(LOWER)
UP   == In(UPPER)
LET_ == In(LETTER)
DIG  == In(DIGIT)
WRD  == In(WORD)
SPC  == In(WS)
NSPC == NotIn(WS)
NSPCDOT == NotIn(WS \cup {Dot})
ALN  == In(ALNUM)
WD   == WB

-----------------------------------------------------------------------------
\* Stage 1: typographic variants
EMD == 8212
END_ == 8211
Sanitize(s) ==
  LET q == [k \in 1..Len(s) |-> CASE s[k] \in {8216, 8217, 8242} -> Apos
                                  [] s[k] \in {8220, 8221, 8243} -> Quote
                                  [] OTHER -> s[k]]
  IN  Squeeze(Sub(Plus(In({EMD, END_})), <<TL(" - ")>>, q))

-----------------------------------------------------------------------------
\* Stage 2: unsplittable spans, replaced by numbered keys
ProtectRules ==
  << <<Sq(<<SPC, LitI("'n'"), SPC>>), {Apos}>>,
     <<Sq(<<SPC, Alt(<<LitI("'n"), LitI("n'")>>), SPC>>), {Apos}>>,
     <<Sq(<<Alt(<<Sq(<<LitI("http"), Opt(Ch("sS")), Lit("://")>>), LitI("www.")>>),
            Plus(NSPCDOT), Plus(Sq(<<Lit("."), Plus(NSPCDOT)>>)), Star(Sq(<<Lit("/"), Star(NSPC)>>))>>), {Dot}>>,
     <<Sq(<<Plus(NSPCDOT), Plus(Sq(<<Lit("."), Plus(NSPCDOT)>>)), Lit("/"), Star(NSPC)>>), {Dot}>>,
     <<Alt(<<Sq(<<Ch(":;"), Opt(Lit("-")), Lit(")")>>), Sq(<<Ch(":;"), Opt(Lit("-")), Lit("(")>>)>>), Chars("()")>> >>

Has(s, S) == \E k \in DOMAIN s : s[k] \in S

Key(n) == C("_PROTECTED_") \o NumCodes(n) \o C("_")

RECURSIVE ProtectFrom(_, _, _)
\* kept: sequence of protected spans; the n-th one is stood for by Key(n)
ProtectFrom(k, s, kept) ==
  IF k > Len(ProtectRules) THEN <<kept, s>>
  ELSE IF ~Has(s, ProtectRules[k][2]) THEN ProtectFrom(k + 1, s, kept)
  ELSE LET f == FindFrom(ProtectRules[k][1], s, 1)
       IN  IF f = <<>> THEN ProtectFrom(k + 1, s, kept)
           ELSE LET span == SubSeq(s, f[1], f[2] - 1)
                IN  ProtectFrom(k, Replace(s, span, Key(Len(kept) + 1)), Append(kept, span))

-----------------------------------------------------------------------------
\* Stage 3: symbols that must not be split, given their context
NSD == C("_NSD_")
Num == Sq(<<DIG, Star(In(DIGIT \cup {Dot, 44}))>>)
OS == Opt(SPC)
Abbr == Alt(<<LitI("m"), LitI("mr"), LitI("mrs"), LitI("ms"), LitI("sr"), LitI("dr"), LitI("prof"), LitI("rev"),
              LitI("gov"), LitI("sen"), LitI("rep"), LitI("lt"), LitI("sgt"), LitI("ave"), LitI("st"), LitI("ed"),
              LitI("feat")>>)
NoSplitRules ==
  << <<Sq(<<Lit("."), Ahead(Sq(<<SPC, LOW>>))>>), <<TC(NSD)>>, {Dot}>>,
     <<Sq(<<Lit("."), Ahead(Sq(<<OS, Ch(",:;?!")>>))>>), <<TC(NSD)>>, {Dot}>>,
     <<Sq(<<Lit("."), Ahead(Sq(<<SPC, Plus(DIG), WB>>))>>), <<TC(NSD)>>, {Dot}>>,
     <<Sq(<<WB, G(1, Abbr), Lit("."), Ahead(Sq(<<SPC, LET_>>))>>), <<TG(1), TC(NSD)>>, {Dot}>>,
     <<Sq(<<Behind(1, SPC), G(1, Num), Lit("'"), G(2, Num), Lit("\"")>>), <<TG(1), TL("ft"), TG(2), TL("in")>>, {Quote}>>,
     <<Sq(<<Behind(1, SPC), G(1, Num), Lit("'")>>), <<TG(1), TL("ft")>>, {Apos}>>,
     <<Sq(<<Behind(1, SPC), G(1, Num), Lit("\"")>>), <<TG(1), TL("in")>>, {Quote}>>,
     <<Sq(<<OS, Lit(">"), OS, Lit("="), OS>>), <<TL("_NSGE_")>>, Chars(">")>>,
     <<Sq(<<OS, Lit("<"), OS, Lit("="), OS>>), <<TL("_NSLE_")>>, Chars("<")>>,
     <<Sq(<<OS, Lit("="), OS, Lit(">"), OS>>), <<TL("_RNSGE_")>>, Chars("=")>>,
     <<Sq(<<OS, Lit("="), OS, Lit("<"), OS>>), <<TL("_RNSLE_")>>, Chars("=")>> >>

-----------------------------------------------------------------------------
\* Stage 4: runs that are always segmented off
AlwaysSet == Chars(".?!=\";|\\(){}[]") \cup {8230, END_}
AlwaysRules ==
  << <<Alt(<<Rep(Ch(".?!"), 2, INF), Plus(In({8230})), Plus(Lit("=")), Plus(Lit("!")), Plus(Lit("?")),
             Plus(Lit("\"")), Plus(Lit(";")), Plus(Lit("|")), Plus(Lit("\\")), Plus(Lit("(")), Plus(Lit(")")),
             Plus(Lit("{")), Plus(Lit("}")), Plus(Lit("[")), Plus(Lit("]")), Plus(In({END_}))>>),
       <<TL(" "), TG(0), TL(" ")>>, AlwaysSet>> >>

-----------------------------------------------------------------------------
\* Stage 5: dots inside or at the end of a word
NDot == NotIn({Dot})
KeepDot ==
  << Rep(Sq(<<WRD, Lit(".")>>), 2, INF),
     Sq(<<Opt(Lit(".")), Rep(Sq(<<Plus(NDot), Lit(".")>>), 2, INF), Plus(NDot)>>),
     Sq(<<LET_, Lit(".")>>),
     Rep(Sq(<<Plus(DIG), Lit(".")>>), 2, INF),
     Rep(Lit("."), 2, INF) >>
SplitDotRules ==
  << <<Sq(<<G(1, Plus(LOW)), G(2, Lit(".")), G(3, In(UPPER \cup {Apos}))>>),
       <<TG(1), TL(" "), TG(2), TL(" "), TG(3)>>, {Dot}>>,
     <<Sq(<<Lit("."), EOS>>), <<TL(" "), TG(0)>>, {Dot}>> >>

-----------------------------------------------------------------------------
\* Stage 6: context-dependent segmentation
AZ3 == Rep(LET_, 3, INF)
Big == Sq(<<LET_, Rep(LOW, 2, INF)>>)
SE == Alt(<<SPC, EOS>>)
SB == Alt(<<BOS, SPC>>)
SegmentRules ==
  << <<Sq(<<WB, G(1, LitI("can")), G(2, LitI("not")), WB>>), <<TG(1), TL(" "), TG(2)>>, Chars("cC")>>,
     <<Sq(<<Behind(1, LET_), Plus(Lit("*")), Ahead(LET_)>>), <<TL(" * ")>>, Chars("*")>>,
     <<Sq(<<Behind(3, Rep(LET_, 3, 3)), Lit("+"), Ahead(AZ3)>>), <<TL(" + ")>>, Chars("+")>>,
     <<Sq(<<G(1, Plus(DIG)), Lit("+"), Ahead(LET_)>>), <<TG(1), TL("+ ")>>, Chars("+")>>,
     <<Sq(<<WB, Lit("&"), NWB>>), <<TL(" & ")>>, Chars("&")>>,
     <<Sq(<<NWB, Lit("&"), WB>>), <<TL(" & ")>>, Chars("&")>>,
     <<Sq(<<G(1, Big), Lit("&"), G(2, Big)>>), <<TG(1), TL(" & "), TG(2)>>, Chars("&")>>,
     <<Sq(<<Behind(2, Sq(<<ALN, LET_>>)), Lit("/")>>), <<TL(" / ")>>, Chars("/")>>,
     <<Sq(<<Lit("/"), Ahead(Sq(<<LET_, ALN>>))>>), <<TL(" / ")>>, Chars("/")>>,
     <<Sq(<<Behind(1, LET_), Lit("%")>>), <<TL(" % ")>>, Chars("%")>>,
     <<Sq(<<Lit("%"), Ahead(LET_)>>), <<TL(" % ")>>, Chars("%")>>,
     <<Sq(<<Lit(":"), Ahead(SE)>>), <<TL(" : ")>>, Chars(":")>>,
     <<Sq(<<Behind(1, SPC), Lit(":")>>), <<TL(" : ")>>, Chars(":")>>,
     <<Sq(<<G(1, Big), Lit(":"), G(2, Sq(<<LET_, Plus(LET_)>>))>>), <<TG(1), TL(" : "), TG(2)>>, Chars(":")>>,
     <<Sq(<<G(1, AZ3), Lit(":"), G(2, Plus(DIG))>>), <<TG(1), TL(" : "), TG(2)>>, Chars(":")>>,
     <<Sq(<<G(1, Plus(DIG)), Lit(":"), G(2, Plus(LET_))>>), <<TG(1), TL(" : "), TG(2)>>, Chars(":")>>,
     <<Sq(<<NotBehind(1, Lit("-")), Lit(">")>>), <<TL(" > ")>>, Chars(">")>>,
     <<Sq(<<Lit("<"), NotAhead(Lit("-"))>>), <<TL(" < ")>>, Chars("<")>>,
     <<Sq(<<NotBehind(1, DIG), Lit(",")>>), <<TL(" , ")>>, Chars(",")>>,
     <<Sq(<<Lit(","), NotAhead(DIG)>>), <<TL(" , ")>>, Chars(",")>>,
     <<Sq(<<SB, Lit("'"), NotAhead(Lit("s"))>>), <<TL(" ' ")>>, {Apos}>>,
     <<Sq(<<Lit("'"), SE>>), <<TL(" ' ")>>, {Apos}>>,
     <<Sq(<<Behind(3, Rep(WRD, 3, 3)), Lit("'"), Ahead(Rep(WRD, 3, 3))>>), <<TL(" ' ")>>, {Apos}>>,
     <<Sq(<<SB, Lit("'"), Ahead(Sq(<<Ch("sS"), WRD>>))>>), <<TL(" ' ")>>, {Apos}>>,
     <<Sq(<<G(1, Alt(<<LitI("n't"), LitI("'re"), LitI("'ll"), LitI("'ve"), LitI("'m"), LitI("'d"), LitI("'s")>>)),
            Ahead(SE)>>), <<TL(" "), TG(1), TL(" ")>>, {Apos}>>,
     <<Sq(<<SPC, G(1, Ch("*-")), G(2, Plus(LET_)), Ahead(SE)>>), <<TL(" "), TG(1), TL(" "), TG(2), TL(" ")>>, Chars("*-")>> >>

-----------------------------------------------------------------------------
\* Stage 7: marks give back their symbols
UnmarkPairs ==
  << <<NSD, C(".")>>, <<C("_NSGE_"), C(" >= ")>>, <<C("_NSLE_"), C(" <= ")>>,
     <<C("_RNSGE_"), C(" => ")>>, <<C("_RNSLE_"), C(" =< ")>> >>

\* Stage 8: initials around an ampersand, and dots after an ellipsis, are glued back
ReattachRules ==
  << <<Sq(<<WB, G(1, UP), SPC, G(2, UP), SPC, Lit("&"), SPC, G(3, UP), WB>>), <<TG(1), TG(2), TL("&"), TG(3)>>, Chars("&")>>,
     <<Sq(<<WB, G(1, UP), SPC, Lit("&"), SPC, G(2, UP), SPC, G(3, UP), WB>>), <<TG(1), TL("&"), TG(2), TG(3)>>, Chars("&")>>,
     <<Sq(<<WB, G(1, UP), SPC, Lit("&"), SPC, G(2, UP), WB>>), <<TG(1), TL("&"), TG(2)>>, Chars("&")>>,
     <<Sq(<<G(1, Rep(Lit("."), 2, INF)), Lit(" .")>>), <<TG(1), TL(".")>>, {Dot}>> >>

-----------------------------------------------------------------------------
RECURSIVE Rewrite(_, _, _)
Rewrite(rules, k, s) ==
  IF k > Len(rules) THEN s
  ELSE IF Has(s, rules[k][3]) THEN Rewrite(rules, k + 1, Sub(rules[k][1], rules[k][2], s))
  ELSE Rewrite(rules, k + 1, s)

DotWord(w) ==
  IF ~Has(w, {Dot}) THEN <<w>>
  ELSE IF \E k \in DOMAIN KeepDot : FullMatch(KeepDot[k], w) THEN <<w>>
  ELSE Split(Rewrite(SplitDotRules, 1, w))

SplitDots(s) == LET ws == Split(s) IN JoinSp(Flat([k \in 1..Len(ws) |-> DotWord(ws[k])]))

RECURSIVE Unmark(_, _)
Unmark(k, s) == IF k > Len(UnmarkPairs) THEN s
                ELSE Unmark(k + 1, IF Has(s, {95}) THEN Replace(s, UnmarkPairs[k][1], UnmarkPairs[k][2]) ELSE s)

RECURSIVE Restore(_, _, _)
\* the span protected last comes back first: it may itself contain an earlier key
Restore(kept, n, s) == IF n = 0 THEN s ELSE Restore(kept, n - 1, Replace(s, Key(n), kept[n]))

Stages == <<"sanitize", "protect", "nosplit", "always", "dots", "segment", "unmark", "reattach", "restore">>

\* one stage of the rewriting system; b = [txt, kept]
Step(stage, b) ==
  CASE stage = "sanitize" -> [b EXCEPT !.txt = Sanitize(@)]
    [] stage = "protect"  -> LET p == ProtectFrom(1, b.txt, <<>>) IN [txt |-> p[2], kept |-> p[1]]
    [] stage = "nosplit"  -> [b EXCEPT !.txt = Rewrite(NoSplitRules, 1, @)]
    [] stage = "always"   -> [b EXCEPT !.txt = Rewrite(AlwaysRules, 1, @)]
    [] stage = "dots"     -> [b EXCEPT !.txt = SplitDots(@)]
    [] stage = "segment"  -> [b EXCEPT !.txt = Squeeze(Rewrite(SegmentRules, 1, @))]
    [] stage = "unmark"   -> [b EXCEPT !.txt = Unmark(1, @)]
    [] stage = "reattach" -> [b EXCEPT !.txt = Rewrite(ReattachRules, 1, @)]
    [] stage = "restore"  -> [b EXCEPT !.txt = Restore(b.kept, Len(b.kept), @)]

RECURSIVE RunStages(_, _)
RunStages(k, b) == IF k > Len(Stages) THEN b ELSE RunStages(k + 1, Step(Stages[k], b))

\* the whole tokenizer as a function (used by Sentencizer)
Tok(text) == IF text = <<>> THEN << <<>> >>
             ELSE Split(RunStages(1, [txt |-> text, kept |-> <<>>]).txt)

-----------------------------------------------------------------------------
(* Content conservation, stated independently of the rules: the visible    *)
(* characters of the tokens are those of the text, up to the documented    *)
(* local normalisations.                                                   *)
Canon1(c) == CASE c \in {8216, 8217, 8242} -> Apos
               [] c \in {8220, 8221, 8243} -> Quote
               [] c \in {EMD, END_} -> 45
               [] OTHER -> c

\* visible input characters, runs of en/em dashes (blank-separated runs stay separate) as one hyphen
Visible(s) ==
  LET at == SelectSeq(Positions(s), LAMBDA i : s[i] \notin WS /\ ~(s[i] \in {EMD, END_} /\ i > 1 /\ s[i - 1] \in {EMD, END_}))
  IN  [k \in 1..Len(at) |-> Canon1(s[at[k]])]

NumMark == DIGIT \cup {Dot, 44}
RECURSIVE Aligned(_, _, _, _), AlignedElse(_, _, _, _)
\* a: visible input, o: concatenated tokens; positions i, j.  What agrees is passed over at once: nothing below can be
\* chosen instead of agreement, but for a run of stars, where it makes no difference which of them are left out
Aligned(a, i, o, j) ==
  LET n == IF Len(a) - i < Len(o) - j THEN Len(a) - i + 1 ELSE Len(o) - j + 1
      d == IF n < 1 THEN 0 ELSE SelectInSeq([k \in 1..n |-> k - 1], LAMBDA k : a[i + k] # o[j + k])
  IN  IF d = 0 THEN AlignedElse(a, i + (IF n < 1 THEN 0 ELSE n), o, j + (IF n < 1 THEN 0 ELSE n))
      ELSE AlignedElse(a, i + d - 1, o, j + d - 1)
AlignedElse(a, i, o, j) ==
  IF i > Len(a) THEN j > Len(o)
  ELSE \/ /\ a[i] = Apos /\ i > 1 /\ a[i - 1] \in NumMark                      \* feet
          /\ j < Len(o) /\ o[j] = 102 /\ o[j + 1] = 116
          /\ Aligned(a, i + 1, o, j + 2)
       \/ /\ a[i] = Quote /\ i > 1 /\ a[i - 1] \in NumMark                     \* inches
          /\ j < Len(o) /\ o[j] = 105 /\ o[j + 1] = 110
          /\ Aligned(a, i + 1, o, j + 2)
       \/ /\ a[i] = 42 /\ i > 1 /\ a[i - 1] = 42                               \* a run of stars between letters
          /\ Aligned(a, i + 1, o, j)

Conserved(text, toks) == Aligned(Visible(text), 1, Flat(toks), 1)
WellFormed(text, toks) ==
  IF text = <<>> THEN toks = << <<>> >>
  ELSE \A k \in DOMAIN toks : toks[k] # <<>> /\ ~Has(toks[k], WS)
============================================================================
