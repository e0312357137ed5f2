------------------------------ MODULE LogicMC ------------------------------
(* Every sentence of up to MaxW words that grows from its root over a small  *)
(* lexicon: the guarantees of Logic hold on all of them, and each can be     *)
(* replayed by the real pipeline.                                            *)
EXTENDS Logic, TLC, Json
CONSTANTS MaxW, Emit
VARIABLES S
Lex == { <<"eat", "VERB">>, <<"have", "VERB">>, <<"dog", "NOUN">>, <<"low", "NOUN">>, <<"that", "PRON">>, <<"himself", "PRON">>, <<"them", "PRON">>,
         <<"eaten", "ADJ">>, <<"big", "ADJ">>, <<"by", "PREP">>, <<"not", "ADV">>, <<"to", "FRAG">>, <<"up", "FRAG">>, <<"Bob", "PROPN">> }
Roles == [VERB |-> {"SUBJ", "OBJ", "CPL", "AND", "PROP"}, NOUN |-> {"SUBJ", "OBJ", "IOBJ", "CPL", "PROP", "IPROP", "EXIST", "OR", "ART"}, PRON |-> {"SUBJ", "OBJ"},
          ADJ |-> {"CPL", "PROP", "IPROP", "AND"}, PREP |-> {"MARK", "CMARK"}, ADV |-> {"NEG"}, FRAG |-> {"PART"}, PROPN |-> {"SUBJ", "FLAT", "CPL"}]
Single == {"SUBJ", "OBJ", "MARK", "CMARK", "PROP", "FLAT", "IPROP"}
Voc == {Lower(w[1]) : w \in Lex}
Tags == DOMAIN Roles
Texts == Voc \cup {Lower(a[1] \o " Bob") : a \in Lex} \cup {Lower(a[1] \o " Bob Bob") : a \in Lex}
T == [std |-> [x \in Texts |-> x],
      lem |-> [t \in Tags |-> [x \in Texts |-> IF t = "VERB" /\ x = "eaten" THEN <<"eat", "PAST">> ELSE <<x, "NONE">>]],
      pp |-> [x \in Texts |-> x \o "en"], adjs |-> {"big", "low", "eaten"}, nouns |-> {"dog", "big"}]
Empty == [tok |-> <<>>, tag |-> <<>>, dep |-> <<>>, par |-> <<>>, root |-> 0]
AddRight(w, l, p) == [tok |-> Append(S.tok, w[1]), tag |-> Append(S.tag, w[2]), dep |-> Append(S.dep, l), par |-> Append(S.par, p), root |-> S.root]
Shift(p) == IF p = 0 THEN 0 ELSE p + 1
AddLeft(w, l, p) == [tok |-> <<w[1]>> \o S.tok, tag |-> <<w[2]>> \o S.tag, dep |-> <<l>> \o S.dep, par |-> <<p + 1>> \o Map(S.par, Shift), root |-> S.root + 1]
Init == S \in {[tok |-> <<w[1]>>, tag |-> <<w[2]>>, dep |-> <<"ROOT">>, par |-> <<0>>, root |-> 1] : w \in {x \in Lex : x[2] \in {"VERB", "NOUN", "ADJ", "PROPN"}}}
Show(s) == PrintT("BEH " \o ToJson([sent |-> [i \in 1..Len(s.tok) |-> <<s.tok[i], s.tag[i], s.dep[i], s.par[i] - 1>>]]))
Next == /\ Len(S.tok) < MaxW
        /\ \E w \in Lex : \E l \in Roles[w[2]], p \in 1..Len(S.tok) :
             /\ (l \in Single) => Below(S, p, l) = {}
             /\ S' \in {AddRight(w, l, p), AddLeft(w, l, p)}
             /\ InDomain(S')
        /\ Emit => Show(S')
Spec == Init /\ [][Next]_S

N0 == Nodify(S)
N1 == Canonize(N0, T, TRUE)
Ts(X) == Analyse(X, T, TRUE)
Good == \A t \in Range(Ts(S)) : Shape(t) /\ OneSign(t)
\* each word of the tree ends up in exactly one place
Once == \A w \in WordsOf(S) :
          Cardinality({k \in N0.K : \E i \in DOMAIN NameChain(S, k) : NameChain(S, k)[i] = w}
                      \cup {<<"part", k>> : k \in {x \in N0.K : w \in Below(S, x, "PART")}}) = 1
Kept0 == \A k \in N0.K : (k \in N0.kept) = (N0.par[k] = 0 \/ N0.dep[k] \notin Functional)
\* chunking is off: no canonical form is a chunk
NoChunk == \A k \in N0.kept : Canonize(N0, T, FALSE).canon[k] \in {N1.lemma[k], WithParts(N1, k, N1.lemma[k])} \cup {"they"}
\* one more negation of a word that has dependents already leaves the tuples as they are but for their signs, and a second one on the same word changes nothing
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
Bare(ts) == Map(ts, Unsigned)
NegLaw == \A k \in N0.kept : KidsOf(N0, k) # {} =>
            LET one == Ts(AddRight(<<"not", "ADV">>, "NEG", k))
                now == Ts(S)
            IN  SameBag(Bare(one), Bare(now)) /\ (HasVia(N0, k, "NEG") => SameBag(one, now))
\* arguments are nodes; a subject that is no pronoun reaches its verb, with all that is coordinated to it; a relative pronoun never stays where it can be resolved
ArgLaw == LET A == Attach(N1)
              Has(rel, v, x) == \E i \in DOMAIN rel : rel[i].to = v /\ rel[i].x = x
          IN  /\ \A f \in DOMAIN A : \A i \in DOMAIN A[f] : A[f][i].x \in N1.K /\ A[f][i].to \in N1.K
              /\ \A k \in N1.kept : UnderVia(N1, k, "SUBJ") /\ N1.tag[k] # "PRON" => \A c \in Range(Agg(N1, k)) : Has(A.subjs, N1.par[k], c)
              /\ \A k \in N1.kept : UnderVia(N1, k, "OBJ") /\ N1.tag[k] # "PRON" => \A c \in Range(Agg(N1, k)) : Has(A.objs, N1.par[k], c)
              /\ \A k \in N1.kept : N1.par[k] # 0 /\ N1.dep[k] \in {"SUBJ", "OBJ"} /\ RelRef(N1, N1.par[k], k) # 0 => ~Has(A.subjs, N1.par[k], k) /\ ~Has(A.objs, N1.par[k], k)
              /\ \A v, k \in N1.kept : Has(A.agents, v, k) => \E m \in N1.K : N1.canon[m] = "by"
=============================================================================
