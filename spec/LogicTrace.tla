----------------------------- MODULE LogicTrace -----------------------------
(* Labelled sentences through the logical part of the real pipeline: the     *)
(* specification goes through its stages and compares the tuples.            *)
EXTENDS Logic, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, stage, N, A, ts, verdict
vars == <<cid, stage, N, A, ts, verdict>>
C == Cases[cid]
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
Bare(s) == Map(s, Unsigned)
\* tuples found on both sides as often, signs aside, have the same signs
SignsAgree(a, b) == LET ba == Bare(a)
                        bb == Bare(b)
                    IN  \A i \in DOMAIN a : Count(ba, ba[i]) = Count(bb, ba[i]) => Count(a, a[i]) = Count(b, a[i])
Tb == [std |-> C.T.std, lem |-> C.T.lem, pp |-> C.T.pp, adjs |-> Range(C.T.adjs), nouns |-> Range(C.T.nouns)]
None == <<>>
Init == /\ cid \in 1..Len(Cases) /\ N = None /\ A = None /\ ts = None /\ verdict = {}
        /\ stage = IF "exc" \in DOMAIN Cases[cid] THEN "exc" ELSE IF Cases[cid].wild THEN "tuples" ELSE "words"
\* the stages as observed (where they could be read)
Has(f) == f \in DOMAIN C.obs
At(M, k) == IF k = 0 THEN 0 ELSE M.idx[k]
JudgeNodesOf(M, f) ==
  IF ~Has(f) THEN {}
  ELSE LET want == [j \in 1..Cardinality(M.kept) |->
                      LET k == Up(M.kept)[j] IN
                      [i |-> M.idx[k], text |-> M.text[k], tag |-> M.tag[k], parts |-> M.parts[k], to |-> M.to[k], par |-> At(M, M.par[k]),
                       dep |-> IF M.par[k] = 0 THEN "" ELSE M.dep[k]]]
           got == Map(C.obs[f], LAMBDA o : [i |-> o.i, text |-> o.text, tag |-> o.tag, parts |-> o.parts, to |-> o.to, par |-> o.par, dep |-> o.dep])
           kids(k) == Map(Up(KidsOf(M, k)), LAMBDA c : <<M.dep[c], M.idx[c]>>)
       IN  IF ~SameBag(got, want) THEN {"nodes"}
           ELSE IF \E o \in Range(C.obs[f]), k \in M.kept : o.i = M.idx[k] /\ ~SameBag(o.kids, kids(k)) THEN {"nodes"} ELSE {}
JudgeNodes(M) == JudgeNodesOf(M, "nodes") \cup JudgeNodesOf(M, "shuffled")
JudgeCanon(M) ==
  IF ~Has("canon") \/ "nodes" \in verdict THEN {}
  ELSE LET want == [j \in 1..Cardinality(M.kept) |-> LET k == Up(M.kept)[j] IN [i |-> M.idx[k], tag |-> M.tag[k], canon |-> M.canon[k], active |-> M.active[k]]]
       IN  IF SameBag(C.obs.canon, want) THEN {} ELSE {"canon"}
JudgeArgs(M, B) ==
  IF ~Has("args") \/ verdict # {} THEN {}
  ELSE LET o == C.obs.args
           Kept(rel) == SelectSeq(rel, LAMBDA r : r.to \in M.kept)
           two(rel) == Map(Kept(rel), LAMBDA r : <<M.idx[r.to], M.idx[r.x]>>)
           same == /\ SameBag(o.subjs, two(B.subjs)) /\ SameBag(o.objs, two(B.objs)) /\ SameBag(o.iobjs, two(B.iobjs))
                   /\ SameBag(o.exists, two(B.exists)) /\ SameBag(o.props, two(B.props)) /\ SameBag(o.iprops, two(B.iprops))
                   /\ SameBag(o.adjs, two(B.adjs)) /\ SameBag(o.agents, two(B.agents))
                   /\ SameBag(o.copulas, Map(Kept(B.copulas), LAMBDA r : <<M.idx[r.to], M.idx[r.cop], M.idx[r.x]>>))
                   /\ SameBag(o.pps, Map(Kept(B.pps), LAMBDA r : <<M.idx[r.to], M.idx[r.pp], M.idx[r.x]>>))
                   /\ SameBag(o.owned, Map(Kept(B.owned), LAMBDA r : <<M.idx[r.to], At(M, r.subj), M.idx[r.verb], M.idx[r.x]>>))
                   /\ SameBag(o.neg, Map(Up({k \in M.kept : HasVia(M, k, "NEG")}), LAMBDA k : <<M.idx[k]>>))
       IN  IF same THEN {} ELSE {"args"}
Move(from, to) == stage = from /\ stage' = to /\ UNCHANGED cid
DoNodify == Move("words", "nodes") /\ N' = Nodify(C) /\ verdict' = JudgeNodes(N') /\ UNCHANGED <<A, ts>>
DoCanon == Move("nodes", "canon") /\ N' = Canonize(N, Tb, C.chunk) /\ verdict' = verdict \cup JudgeCanon(N') /\ UNCHANGED <<A, ts>>
DoAttach == Move("canon", "args") /\ A' = Attach(N) /\ verdict' = verdict \cup JudgeArgs(N, A') /\ UNCHANGED <<N, ts>>
DoTuples == Move("args", "tuples") /\ ts' = Tuples(N, A, Tb) /\ UNCHANGED <<N, A, verdict>>
\* what was read from the stages counts if, put together, they do what the whole does, or the whole is wrong as well
Trusted == Has("comp") /\ (SameBag(C.res, C.obs.comp) \/ ~SameBag(C.res, ts))
Judge == IF stage = "exc" THEN {"exc"}
         ELSE (IF Trusted THEN verdict ELSE {}) \cup {v \in {"tuples", "negation", "shape", "sign", "wiring", "whole"} :
                 CASE v = "wiring" -> Trusted /\ ~SameBag(C.res, C.obs.comp)          \* the pipeline is the stages put together
                   [] v = "whole" -> ~C.wild /\ C.chunk /\ ~Has("comp") /\ ~SameBag(C.res, ts)   \* stages not readable: only the whole is judged
                   [] v = "tuples" -> ~C.wild /\ (C.chunk \/ Has("comp")) /\ ~SameBag(Bare(C.res), Bare(ts))
                   [] v = "negation" -> ~C.wild /\ (C.chunk \/ Has("comp")) /\ ~(SignsAgree(C.res, ts) /\ SignsAgree(ts, C.res))
                   [] v = "shape" -> \E i \in DOMAIN C.res : ~Shape(C.res[i])
                   [] v = "sign" -> \E i \in DOMAIN C.res : ~OneSign(C.res[i])}
Finish == /\ stage \in {"exc", "tuples"} /\ stage' = "done" /\ UNCHANGED <<cid, N, A, ts>> /\ verdict' = Judge
          /\ (verdict' = {}) => PrintT("CASE " \o ToString(cid) \o " OK")
          /\ \A v \in verdict' : PrintT("CASE " \o ToString(cid) \o " FAIL " \o v)
          /\ (verdict' \ {"exc"} # {}) => PrintT(<<"EXPECTED", cid, Map(ts, LAMBDA t : Map(t, LAMBDA a : <<a.w, a.c, a.a>>))>>)
Spec == Init /\ [][DoNodify \/ DoCanon \/ DoAttach \/ DoTuples \/ Finish]_vars
Domain0 == stage = "words" => InDomain(C)
Guarantees == stage = "tuples" => \A i \in DOMAIN ts : Shape(ts[i]) /\ OneSign(ts[i])
=============================================================================
