------------------------------- MODULE Logic -------------------------------
(* From a parsed sentence to semantic tuples.                                *)
(*                                                                           *)
(* A sentence S is a record of sequences over its words 1..n: tok (text),    *)
(* tag, dep, par (0: no parent), and root (0: none).  Stages:                *)
(*   Nodify: words -> nodes        (names merged, particles attached)        *)
(*   Canonize: base forms, corrections, noun chunks, canonical forms         *)
(*   Attach: arguments of verbs, nouns and adjectives                        *)
(*   Tuples: semantic tuples                                                 *)
(* A node is named by the word it starts from.  Tables T: T.std[text] is the *)
(* standard spelling, T.lem[tag][text] = <<base form, suffix>>, T.pp[verb]   *)
(* the past participle, T.adjs and T.nouns the word lists.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Words

Functional == {"ART", "AUX", "CMARK", "NEG", "INTJ", "MARK", "IMARK", "PART", "MODAL"}
Markers == {"MARK", "CMARK", "IMARK"}
NounTags == {"NOUN", "PROPN", "PRON", "SYM", "NUM"}
PropTags == NounTags \cup {"ADJ"}
Relative == {"that", "which", "who"}
Reflexive == {"myself", "yourself", "yourselves", "himself", "herself", "itself", "ourself", "ourselves", "theirself", "themselves", "oneself"}
SubjectForm == [me |-> "i", you |-> "you", her |-> "she", him |-> "he", us |-> "we", them |-> "they"]

Up(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
RECURSIVE JoinW(_)
JoinW(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o " " \o JoinW(Tail(s))
Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
Cat(s, F(_)) == FlattenSeq([i \in DOMAIN s |-> F(s[i])])     \* all F(x) one after the other

-----------------------------------------------------------------------------
WordsOf(S) == 1..Len(S.tok)
Below(S, w, l) == {c \in WordsOf(S) : S.par[c] = w /\ S.dep[c] = l}
Inside(S, w) == w = S.root \/ S.par[w] # 0 \/ \E c \in WordsOf(S) : S.par[c] = w
RECURSIVE NameChain(_, _)      \* the words merged with w
NameChain(S, w) == LET f == Below(S, w, "FLAT") IN IF f = {} THEN <<w>> ELSE <<w>> \o NameChain(S, CHOOSE c \in f : TRUE)

\* where the guarantees of Nodify apply: names do not fork and only their first word has other dependents; particles have none
InDomain(S) == \A w \in WordsOf(S) :
                 /\ Cardinality(Below(S, w, "FLAT")) <= 1
                 /\ (S.par[w] # 0 /\ S.dep[w] = "FLAT") => \A c \in WordsOf(S) : S.par[c] = w => S.dep[c] = "FLAT"
                 /\ (S.par[w] # 0 /\ S.dep[w] = "PART") => \A c \in WordsOf(S) : S.par[c] # w
                 /\ ~(Below(S, w, "FLAT") # {} /\ Below(S, w, "PART") # {})

IsNode(S, w) == Inside(S, w) /\ (S.par[w] # 0 => S.dep[w] \notin {"FLAT", "PART"})
Nodify(S) ==
  IF S.root = 0 THEN [K |-> {}, kept |-> {}, text |-> <<>>, tag |-> <<>>, idx |-> <<>>, parts |-> <<>>, to |-> <<>>, par |-> <<>>, dep |-> <<>>]
  ELSE LET K == {w \in WordsOf(S) : IsNode(S, w)}
           P(w) == IF S.par[w] # 0 /\ S.par[w] \in K THEN S.par[w] ELSE 0
           chain == [w \in K |-> NameChain(S, w)]
       IN  [K     |-> K,
            kept  |-> {w \in K : ~(P(w) # 0 /\ S.dep[w] \in Functional)},
            text  |-> [w \in K |-> JoinW(Map(chain[w], LAMBDA i : S.tok[i]))],
            tag   |-> [w \in K |-> S.tag[Last(chain[w])]],
            idx   |-> [w \in K |-> Last(chain[w])],
            parts |-> [w \in K |-> Map(Up({c \in Below(S, w, "PART") : c > w}), LAMBDA i : Lower(S.tok[i]))],
            to    |-> [w \in K |-> \E c \in Below(S, w, "PART") : c < w /\ Lower(S.tok[c]) = "to"],
            par   |-> [w \in K |-> P(w)],
            dep   |-> [w \in K |-> S.dep[w]]]

\* the tree of nodes
KidsOf(N, k) == {c \in N.K : N.par[c] = k}
Via(N, k, l) == Up({c \in N.K : N.par[c] = k /\ N.dep[c] = l})
HasVia(N, k, l) == \E c \in N.K : N.par[c] = k /\ N.dep[c] = l
HasViaSet(N, k, ls) == \E c \in N.K : N.par[c] = k /\ N.dep[c] \in ls
UnderVia(N, k, l) == N.par[k] # 0 /\ N.dep[k] = l

-----------------------------------------------------------------------------
WithParts(N, k, lemma) == JoinW(<<lemma>> \o N.parts[k])
Canonize(N, T, chunking) ==
  LET std == [k \in N.K |-> IF k \in N.kept THEN T.std[Lower(N.text[k])] ELSE Lower(N.text[k])]
      lemma == [k \in N.K |-> IF k \in N.kept THEN T.lem[N.tag[k]][std[k]][1] ELSE std[k]]
      \* corrections of childless complements and properties
      Open(k) == /\ k \in N.kept /\ KidsOf(N, k) = {} /\ N.par[k] # 0
                 /\ (N.dep[k] = "CPL" /\ N.tag[N.par[k]] \in NounTags) \/ N.dep[k] \in {"PROP", "IPROP"}
      tag == [k \in N.K |-> IF Open(k) /\ N.tag[k] \in NounTags /\ lemma[k] \in T.adjs THEN "ADJ"
                            ELSE IF Open(k) /\ N.tag[k] = "ADJ" /\ lemma[k] \in T.nouns THEN "NOUN" ELSE N.tag[k]]
      \* a noun modified from the left by unmarked nouns
      Modifies(k) == /\ k \in N.kept /\ tag[k] \in NounTags /\ UnderVia(N, k, "CPL") /\ ~HasViaSet(N, k, Markers)
                     /\ N.idx[k] < N.idx[N.par[k]] /\ tag[N.par[k]] \in NounTags
      mods == [k \in N.K |-> {c \in KidsOf(N, k) : Modifies(c)}]
      parts(k) == LET RECURSIVE Grow(_)
                      Grow(X) == LET Y == X \cup UNION {mods[x] : x \in X} IN IF Y = X THEN X ELSE Grow(Y)
                  IN  Grow({k})
      chunk == [k \in N.K |-> IF chunking /\ k \in N.kept /\ mods[k] # {} /\ ~Modifies(k)
                              THEN JoinW(Map(SetToSortSeq(parts(k), LAMBDA a, b : N.idx[a] < N.idx[b]), LAMBDA i : lemma[i])) ELSE ""]
      asVerb == [k \in N.K |-> IF k \in N.kept /\ tag[k] = "ADJ" THEN T.lem["VERB"][std[k]] ELSE <<"", "NONE">>]
      canon == [k \in N.K |->
                  IF k \notin N.kept THEN lemma[k]
                  ELSE IF tag[k] = "PRON" /\ lemma[k] \in DOMAIN SubjectForm THEN SubjectForm[lemma[k]]
                  ELSE IF tag[k] = "NOUN" /\ chunk[k] # "" THEN chunk[k]
                  ELSE IF tag[k] \in {"ADJ", "VERB"} THEN WithParts(N, k, lemma[k])
                  ELSE lemma[k]]
      active == [k \in N.K |-> IF asVerb[k][2] = "PAST" THEN WithParts(N, k, asVerb[k][1]) ELSE ""]
  IN  [K |-> N.K, kept |-> N.kept, idx |-> N.idx, par |-> N.par, dep |-> N.dep, parts |-> N.parts, to |-> N.to,
       tag |-> tag, lemma |-> lemma, canon |-> canon, active |-> active]

-----------------------------------------------------------------------------
(* Arguments.  Each result is a sequence of records [to, ...] saying which   *)
(* node receives which argument.                                             *)
Conj(N, k) == IF k \in N.kept THEN Via(N, k, "AND") \o Via(N, k, "OR") ELSE <<>>
Agg(N, k) == <<k>> \o Conj(N, k)                                    \* a node and what is coordinated to it
Give(v, xs) == Map(xs, LAMBDA x : [to |-> v, x |-> x])
\* coordinated verbs share a subject unless they have one, and an object if they have no dependent at all
SubjTo(N, v, s) == Cat(<<v>> \o SelectSeq(Conj(N, v), LAMBDA c : ~HasVia(N, c, "SUBJ")), LAMBDA u : Give(u, Agg(N, s)))
ObjTo(N, v, o) == Cat(<<v>> \o SelectSeq(Conj(N, v), LAMBDA c : KidsOf(N, c) = {}), LAMBDA u : Give(u, Agg(N, o)))

\* what a pronoun stands for (0: itself)
RelRef(N, verb, pron) == IF /\ UnderVia(N, verb, "CPL") /\ N.tag[pron] = "PRON" /\ N.canon[pron] \in Relative
                            /\ N.tag[N.par[verb]] \in NounTags /\ ~HasViaSet(N, verb, Markers) THEN N.par[verb] ELSE 0
SubjOf(N, verb) == LET s == Via(N, verb, "SUBJ") IN IF s = <<>> THEN 0 ELSE s[1]
TrueSubj(N, verb) == LET s == SubjOf(N, verb) IN IF s = 0 THEN 0 ELSE IF RelRef(N, verb, s) # 0 THEN RelRef(N, verb, s) ELSE s
ObjReflRef(N, verb, pron) == IF N.canon[pron] \in Reflexive THEN TrueSubj(N, verb) ELSE 0
SubjReflRef(N, verb, pron) == IF N.canon[pron] \in Reflexive /\ UnderVia(N, verb, "OBJ") /\ N.tag[N.par[verb]] = "VERB"
                              THEN TrueSubj(N, N.par[verb]) ELSE 0
Or3(a, b, c) == IF a # 0 THEN a ELSE IF b # 0 THEN b ELSE c

Attach(N) ==
  LET ks == Up(N.kept)
      Kin(l) == SelectSeq(ks, LAMBDA k : UnderVia(N, k, l))
      cpls == Kin("CPL")
      marked == {k \in N.kept : UnderVia(N, k, "CPL") /\ HasVia(N, k, "MARK")}
      naked == {k \in N.kept : UnderVia(N, k, "CPL") /\ ~HasViaSet(N, k, Markers)}
      P(k) == N.par[k]
      \* subjects and objects recovered across complements
      Inherits(k) == k \in marked /\ N.tag[k] = "VERB" /\ ~HasVia(N, k, "SUBJ") /\ N.tag[P(k)] = "VERB"
      TakesHead(k) == /\ ~Inherits(k) /\ k \in naked /\ N.tag[P(k)] \in NounTags /\ ~HasVia(N, k, "OBJ")
                      /\ SubjOf(N, k) # 0 /\ N.canon[SubjOf(N, k)] \notin Relative
      subjs == Cat(Kin("SUBJ"), LAMBDA k : SubjTo(N, P(k), Or3(RelRef(N, P(k), k), SubjReflRef(N, P(k), k), k)))
               \o Cat(cpls, LAMBDA k : IF Inherits(k) /\ SubjOf(N, P(k)) # 0 THEN SubjTo(N, k, TrueSubj(N, P(k))) ELSE <<>>)
      objs == Cat(Kin("OBJ"), LAMBDA k : ObjTo(N, P(k), Or3(RelRef(N, P(k), k), ObjReflRef(N, P(k), k), k)))
              \o Cat(cpls, LAMBDA k : IF TakesHead(k) THEN ObjTo(N, k, P(k)) ELSE <<>>)
      props == Cat(Kin("PROP"), LAMBDA k : Give(P(k), Agg(N, k)))
      copulas == Cat(Kin("PROP"), LAMBDA k :
                   LET s == SubjOf(N, P(k))
                       owner == IF s = 0 THEN 0 ELSE Or3(RelRef(N, P(k), s), s, 0)
                   IN  IF s = 0 THEN <<>>
                       ELSE Cat(Agg(N, owner), LAMBDA o : Map(SelectSeq(Agg(N, k), LAMBDA p : ~HasViaSet(N, p, Markers)),
                                                               LAMBDA p : [to |-> o, cop |-> P(k), x |-> p])))
      iprops == Cat(Kin("IPROP"), LAMBDA k : Give(P(k), Agg(N, k)))
      owned == Cat(Kin("IPROP"), LAMBDA k :
                 LET o == Via(N, P(k), "OBJ") IN
                 IF o = <<>> THEN <<>>
                 ELSE Cat(Agg(N, o[1]), LAMBDA y : Map(Agg(N, k), LAMBDA p : [to |-> y, subj |-> SubjOf(N, P(k)), verb |-> P(k), x |-> p])))
      adjs == Cat(cpls, LAMBDA k : IF k \notin marked /\ N.tag[k] = "ADJ" THEN Give(P(k), Agg(N, k)) ELSE <<>>)
              \o Cat(cpls, LAMBDA k : IF HasVia(N, k, "CMARK") /\ N.tag[P(k)] = "ADJ" /\ N.tag[k] \in NounTags THEN Give(k, Agg(N, P(k))) ELSE <<>>)
      pps == Cat(cpls, LAMBDA k : IF k \notin marked /\ N.tag[k] = "ADJ" /\ N.tag[P(k)] \in NounTags /\ N.active[k] # "" /\ HasVia(N, k, "PROP")
                                  THEN Map(Agg(N, Via(N, k, "PROP")[1]), LAMBDA p : [to |-> P(k), pp |-> k, x |-> p]) ELSE <<>>)
      agents == Cat(cpls, LAMBDA k : IF k \in marked /\ N.canon[Via(N, k, "MARK")[1]] = "by" /\ (UnderVia(N, P(k), "PROP") \/ UnderVia(N, P(k), "CPL"))
                                     THEN Give(P(k), Agg(N, k)) ELSE <<>>)
  IN  [subjs |-> subjs, objs |-> objs, iobjs |-> Cat(Kin("IOBJ"), LAMBDA k : Give(P(k), Agg(N, k))),
       exists |-> Cat(Kin("EXIST"), LAMBDA k : Give(P(k), Agg(N, k))), props |-> props, iprops |-> iprops,
       adjs |-> adjs, copulas |-> copulas, owned |-> owned, pps |-> pps, agents |-> agents]

Of(rel, k) == SelectSeq(rel, LAMBDA r : r.to = k)
ArgsOf(rel, k) == Map(Of(rel, k), LAMBDA r : r.x)

-----------------------------------------------------------------------------
NounCode(N, k) == CASE N.tag[k] = "PROPN" -> "P" [] N.tag[k] = "PRON" -> "O" [] N.tag[k] = "NUM" -> "U" [] N.tag[k] = "SYM" -> "S" [] OTHER -> "N"
AdjCode(N, k) == IF N.active[k] # "" THEN "L" ELSE "A"
PropCode(N, k) == IF N.tag[k] = "ADJ" THEN AdjCode(N, k) ELSE NounCode(N, k)
Arg(w, c) == [w |-> w, c |-> c, a |-> TRUE]
NArg(N, k) == Arg(N.canon[k], NounCode(N, k))
Even(bs) == Cardinality({i \in DOMAIN bs : ~bs[i]}) % 2 = 0
Signed(w, c, bs) == [w |-> w, c |-> c, a |-> Even(bs)]

Tuples(N, A, T) ==
  LET ks == Up(N.kept)
      aff == [k \in N.K |-> k \notin N.kept \/ ~HasVia(N, k, "NEG")]
      IsNoun(k) == N.tag[k] \in NounTags
      Nouns(s) == SelectSeq(s, IsNoun)
      subjs == [k \in N.K |-> ArgsOf(A.subjs, k)]
      objs == [k \in N.K |-> ArgsOf(A.objs, k)]
      props == [k \in N.K |-> ArgsOf(A.props, k)]
      stuck == {k \in N.K : props[k] # <<>> \/ ArgsOf(A.iprops, k) # <<>> \/ ArgsOf(A.exists, k) # <<>>}     \* cannot take an object
      verbs == SelectSeq(ks, LAMBDA k : N.tag[k] = "VERB")
      finite == SelectSeq(verbs, LAMBDA k : ~N.to[k] /\ k \notin stuck)
      IsVerb(k) == N.tag[k] = "VERB"
      Light(k) == N.canon[k] \in {"have", "get", "be", "do"}
      \* the object is a clause
      inner == {o \in N.K : \E v \in Range(finite) : Nouns(subjs[v]) # <<>> /\ IsVerb(o) /\ o \in Range(objs[v])}
      Clause(v) ==
        Cat(Nouns(subjs[v]), LAMBDA s1 :
          Cat(SelectSeq(objs[v], IsVerb), LAMBDA o1 :
            Cat(IF subjs[o1] = <<>> THEN <<s1>> ELSE Nouns(subjs[o1]), LAMBDA s2 :
              LET base == <<aff[s1], aff[v], aff[s2], aff[o1]>>
                  T5(c1, x, xc) == <<NArg(N, s1), Signed(N.canon[v], "T", base \o <<aff[x]>>), NArg(N, s2), Arg(N.canon[o1], c1), Arg(N.canon[x], xc)>>
              IN  (IF o1 \in stuck THEN <<>>
                   ELSE (IF objs[o1] = <<>> /\ ~Light(o1)
                         THEN << <<NArg(N, s1), Signed(N.canon[v], "T", base), NArg(N, s2), Arg(N.canon[o1], "I")>> >> ELSE <<>>)
                        \o Map(Nouns(objs[o1]), LAMBDA x : T5("T", x, NounCode(N, x))))
                  \o Map(props[o1], LAMBDA x : T5("C", x, PropCode(N, x))))))
      Plain(v) == (IF objs[v] = <<>> /\ ~Light(v)
                   THEN Map(Nouns(subjs[v]), LAMBDA s : <<NArg(N, s), Signed(N.canon[v], "I", <<aff[s], aff[v]>>)>>) ELSE <<>>)
                  \o Cat(Nouns(objs[v]), LAMBDA o :
                       Map(Nouns(subjs[v]), LAMBDA s : <<NArg(N, s), Signed(N.canon[v], "T", <<aff[s], aff[v], aff[o]>>), NArg(N, o)>>))
                  \o Cat(Nouns(ArgsOf(A.iobjs, v)), LAMBDA o :
                       Map(Nouns(subjs[v]), LAMBDA s : <<NArg(N, s), Signed(N.canon[v], "R", <<aff[s], aff[v], aff[o]>>), NArg(N, o)>>))
      Pp(v) == WithParts(N, v, T.pp[N.lemma[v]])
      \* agents of a passive adjective: the active triple, with the elements of the sentence it comes from
      Active(n, adj, elems) == IF N.active[adj] = "" THEN <<>>
                               ELSE Map(Nouns(ArgsOf(A.agents, adj)), LAMBDA g :
                                      <<NArg(N, g), Signed(N.active[adj], "T", <<aff[g]>> \o elems), NArg(N, n)>>)
      Noun(n) ==
        Cat(SelectSeq(Of(A.owned, n), LAMBDA r : N.tag[r.x] \in PropTags), LAMBDA r :
          << <<NArg(N, n), Signed("be " \o Pp(r.verb), "C", <<aff[r.verb], aff[n], aff[r.x]>> \o (IF r.subj = 0 THEN <<>> ELSE <<aff[r.subj]>>)),
               Arg(N.canon[r.x], PropCode(N, r.x))>> >>)
        \o Cat(SelectSeq(Of(A.copulas, n), LAMBDA r : N.tag[r.x] \in PropTags), LAMBDA r :
          << <<NArg(N, n), Signed(N.canon[r.cop], "C", <<aff[n], aff[r.cop], aff[r.x]>>), Arg(N.canon[r.x], PropCode(N, r.x))>> >>
          \o (IF N.tag[r.x] = "ADJ" THEN Active(n, r.x, <<aff[r.x], aff[n], aff[r.cop]>>) ELSE <<>>))
        \o Cat(SelectSeq(Of(A.pps, n), LAMBDA r : N.tag[r.x] \in PropTags), LAMBDA r :
          << <<NArg(N, n), Signed("be " \o N.canon[r.pp], "C", <<aff[n], aff[r.pp], aff[r.x]>>), Arg(N.canon[r.x], PropCode(N, r.x))>> >>)
        \o Cat(ArgsOf(A.adjs, n), LAMBDA j :
          << <<NArg(N, n), Signed("be", "C", <<aff[j], aff[n]>>), Arg(N.canon[j], AdjCode(N, j))>> >> \o Active(n, j, <<aff[j], aff[n]>>))
      \* the object undergoes the action
      Passive(v) == IF N.canon[v] \in {"have", "get"} THEN <<>>
                    ELSE Map(Nouns(objs[v]), LAMBDA o :
                           <<NArg(N, o), Signed("be", "C", <<aff[v], aff[o]>> \o (IF subjs[v] = <<>> THEN <<>> ELSE <<\E s \in Range(subjs[v]) : aff[s]>>)),
                             Arg(Pp(v), "L")>>)
  IN  Cat(finite, Clause)
      \o Cat(SelectSeq(finite, LAMBDA k : k \notin inner), Plain)
      \o Cat(SelectSeq(ks, LAMBDA k : IsNoun(k) /\ k \notin inner), Noun)
      \o Cat(SelectSeq(verbs, LAMBDA k : k \notin stuck), Passive)

Analyse(S, T, chunking) == IF S.root = 0 THEN <<>> ELSE LET N == Canonize(Nodify(S), T, chunking) IN Tuples(N, Attach(N), T)

\* guarantees of every tuple
Nominal == {"N", "P", "O", "U", "S"}
Shape(t) == LET c == Map(t, LAMBDA a : a.c) IN
            \/ Len(c) = 2 /\ c[1] \in Nominal /\ c[2] = "I"
            \/ Len(c) = 3 /\ c[1] \in Nominal /\ c[2] \in {"T", "R"} /\ c[3] \in Nominal
            \/ Len(c) = 3 /\ c[1] \in Nominal /\ c[2] = "C" /\ c[3] \in Nominal \cup {"A", "L"}
            \/ Len(c) = 4 /\ c[1] \in Nominal /\ c[2] = "T" /\ c[3] \in Nominal /\ c[4] = "I"
            \/ Len(c) = 5 /\ c[1] \in Nominal /\ c[2] = "T" /\ c[3] \in Nominal /\ c[4] = "T" /\ c[5] \in Nominal
            \/ Len(c) = 5 /\ c[1] \in Nominal /\ c[2] = "T" /\ c[3] \in Nominal /\ c[4] = "C" /\ c[5] \in Nominal \cup {"A", "L"}
OneSign(t) == \A i \in DOMAIN t : ~t[i].a => i = 2
Unsigned(t) == Map(t, LAMBDA a : <<a.w, a.c>>)
=============================================================================
