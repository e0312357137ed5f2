------------------------------- MODULE Regex -------------------------------
(* Backtracking regular-expression semantics (the subset of Python's `re`  *)
(* the rules need): a match is the first element of a priority-ordered     *)
(* sequence of <<end position, captures>>.                                 *)
EXTENDS Text

\* constructors
In(S)    == [t |-> "c", s |-> S]
NotIn(S) == [t |-> "n", s |-> S]
Ch(str)  == [t |-> "c", s |-> Chars(str)]
AnyChar    == [t |-> "n", s |-> {10}]
Sq(rs)   == [t |-> "s", rs |-> rs]
Lit(str) == [t |-> "l", p |-> C(str)]
LitI(str)== [t |-> "li", p |-> C(str)]                \* case-insensitive, str in lower case
Alt(rs)  == [t |-> "a", rs |-> rs]
INF == 9999
Rep(r, lo, hi) == [t |-> "r", r |-> r, lo |-> lo, hi |-> hi]
Plus(r)  == Rep(r, 1, INF)
Star(r)  == Rep(r, 0, INF)
Opt(r)   == Rep(r, 0, 1)
G(k, r)  == [t |-> "g", k |-> k, r |-> r]
Ahead(r)    == [t |-> "la", r |-> r]
NotAhead(r) == [t |-> "nla", r |-> r]
Behind(w, r)    == [t |-> "lb", w |-> w, r |-> r]     \* fixed width w
NotBehind(w, r) == [t |-> "nlb", w |-> w, r |-> r]
WB  == [t |-> "wb"]
NWB == [t |-> "nwb"]
BOS == [t |-> "bos"]
EOS == [t |-> "eos"]

NoCaps == << <<1, 0>>, <<1, 0>>, <<1, 0>> >>

AtWB(s, i) == (i > 1 /\ s[i - 1] \in WORD) # (i <= Len(s) /\ s[i] \in WORD)

RECURSIVE RunLen(_, _, _, _, _)
RunLen(neg, S, s, i, max) ==
  IF max = 0 \/ i > Len(s) THEN 0
  ELSE IF (s[i] \in S) # neg THEN 1 + RunLen(neg, S, s, i + 1, max - 1) ELSE 0

RECURSIVE UniqFrom(_, _, _, _)
UniqFrom(m, k, seen, acc) ==
  IF k > Len(m) THEN acc
  ELSE IF m[k] \in seen THEN UniqFrom(m, k + 1, seen, acc)
  ELSE UniqFrom(m, k + 1, seen \cup {m[k]}, Append(acc, m[k]))
Uniq(m) == IF Len(m) < 2 \/ Cardinality({m[k] : k \in DOMAIN m}) = Len(m) THEN m ELSE UniqFrom(m, 1, {}, <<>>)

RECURSIVE M(_, _, _, _), SeqM(_, _, _, _, _), SeqLayer(_, _, _, _), RepD(_, _, _, _, _, _), RepAll(_, _, _, _, _, _),
          RepM(_, _, _, _, _)

M(r, s, i, c) ==
  CASE r.t = "c" -> IF i <= Len(s) /\ s[i] \in r.s THEN << <<i + 1, c>> >> ELSE <<>>
    [] r.t = "n" -> IF i <= Len(s) /\ s[i] \notin r.s THEN << <<i + 1, c>> >> ELSE <<>>
    [] r.t = "l" -> IF StartsAt(s, i, r.p) THEN << <<i + Len(r.p), c>> >> ELSE <<>>
    [] r.t = "li" -> IF /\ i + Len(r.p) - 1 <= Len(s)
                        /\ \A k \in 1..Len(r.p) : Low1(s[i + k - 1]) = r.p[k]
                     THEN << <<i + Len(r.p), c>> >> ELSE <<>>
    [] r.t = "s" -> SeqM(r.rs, 1, s, i, c)
    [] r.t = "a" -> Uniq(Flat([k \in 1..Len(r.rs) |-> M(r.rs[k], s, i, c)]))
    [] r.t = "r" -> IF r.r.t \in {"c", "n"}
                    THEN LET n == RunLen(r.r.t = "n", r.r.s, s, i, r.hi)
                         IN  IF n < r.lo THEN <<>>
                             ELSE [k \in 1..(n - r.lo + 1) |-> <<i + n - k + 1, c>>]
                    ELSE RepM(r, 0, s, i, c)
    [] r.t = "g" -> LET m == M(r.r, s, i, c)
                    IN  [k \in 1..Len(m) |-> <<m[k][1], [m[k][2] EXCEPT ![r.k] = <<i, m[k][1] - 1>>]>>]
    [] r.t = "la" -> IF M(r.r, s, i, c) # <<>> THEN << <<i, c>> >> ELSE <<>>
    [] r.t = "nla" -> IF M(r.r, s, i, c) = <<>> THEN << <<i, c>> >> ELSE <<>>
    [] r.t = "lb" -> IF i - r.w >= 1 /\ (\E k \in DOMAIN M(r.r, s, i - r.w, c) : M(r.r, s, i - r.w, c)[k][1] = i)
                     THEN << <<i, c>> >> ELSE <<>>
    [] r.t = "nlb" -> IF i - r.w >= 1 /\ (\E k \in DOMAIN M(r.r, s, i - r.w, c) : M(r.r, s, i - r.w, c)[k][1] = i)
                      THEN <<>> ELSE << <<i, c>> >>
    [] r.t = "wb" -> IF AtWB(s, i) THEN << <<i, c>> >> ELSE <<>>
    [] r.t = "nwb" -> IF AtWB(s, i) THEN <<>> ELSE << <<i, c>> >>
    [] r.t = "bos" -> IF i = 1 THEN << <<i, c>> >> ELSE <<>>
    [] r.t = "eos" -> IF i = Len(s) + 1 THEN << <<i, c>> >> ELSE <<>>

\* the results of every way through rs[k..], without repetitions: a second path to the same position with the same
\* captures can only give again what the first one gave
SeqM(rs, k, s, i, c) ==
  IF k > Len(rs) THEN << <<i, c>> >>
  ELSE LET m == M(rs[k], s, i, c)
       IN  IF m = <<>> THEN <<>>
           ELSE IF Len(m) = 1 THEN SeqM(rs, k + 1, s, m[1][1], m[1][2])
           ELSE SeqLayer(rs, k + 1, s, m)

SeqLayer(rs, k, s, front) ==
  IF k > Len(rs) \/ front = <<>> THEN front
  ELSE SeqLayer(rs, k + 1, s, Uniq(Flat([j \in 1..Len(front) |-> M(rs[k], s, front[j][1], front[j][2])])))

\* depth-first, greedy; acc = [out |-> results so far, seen |-> positions explored]
RepM(r, n, s, i, c) == RepD(r, n, s, i, c, [out |-> <<>>, seen |-> {}]).out

RepD(r, n, s, i, c, acc) ==
  LET key == <<IF r.hi = INF /\ n > r.lo THEN r.lo ELSE n, i, c>>
  IN  IF key \in acc.seen THEN acc
      ELSE LET m == IF n >= r.hi THEN <<>> ELSE SelectSeq(M(r.r, s, i, c), LAMBDA x : x[1] > i)
               a == RepAll(r, n + 1, s, m, 1, [acc EXCEPT !.seen = @ \cup {key}])
           IN  IF n >= r.lo THEN [a EXCEPT !.out = Append(@, <<i, c>>)] ELSE a

RepAll(r, n, s, m, j, acc) ==
  IF j > Len(m) THEN acc ELSE RepAll(r, n, s, m, j + 1, RepD(r, n, s, m[j][1], m[j][2], acc))

FullMatch(r, s) == LET m == M(r, s, 1, NoCaps)
                   IN  \E k \in DOMAIN m : m[k][1] = Len(s) + 1

\* re.fullmatch captures: the first (highest-priority) result that spans s
FullCaps(r, s) == LET m == SelectSeq(M(r, s, 1, NoCaps), LAMBDA x : x[1] = Len(s) + 1)
                  IN  IF m = <<>> THEN <<>> ELSE m[1][2]

RECURSIVE FindFrom(_, _, _)
\* re.search from position i: <<start, end, caps>> or <<>> (sixteen positions at a time)
FindFrom(r, s, i) ==
  IF i > Len(s) + 1 THEN <<>>
  ELSE LET n == IF Len(s) + 2 - i < 16 THEN Len(s) + 2 - i ELSE 16
           k == SelectInSeq([j \in 1..n |-> i + j - 1], LAMBDA j : M(r, s, j, NoCaps) # <<>>)
       IN  IF k = 0 THEN FindFrom(r, s, i + n)
           ELSE LET m == M(r, s, i + k - 1, NoCaps) IN <<i + k - 1, m[1][1], m[1][2]>>

\* replacement template: sequence of [l |-> codes] / [g |-> group number]; group 0 is the whole match
TL(str) == [l |-> C(str), g |-> -1]
TC(codes) == [l |-> codes, g |-> -1]
TG(k) == [l |-> <<>>, g |-> k]

Expand(tpl, s, f) ==
  Flat([k \in 1..Len(tpl) |->
         IF tpl[k].g = -1 THEN tpl[k].l
         ELSE IF tpl[k].g = 0 THEN SubSeq(s, f[1], f[2] - 1)
         ELSE SubSeq(s, f[3][tpl[k].g][1], f[3][tpl[k].g][2])])

\* re.sub (every pattern used consumes at least one character): the leftmost match, then the leftmost one after it, ...
MatchAt(r, s, i) == LET m == M(r, s, i, NoCaps) IN IF m = <<>> THEN <<>> ELSE <<i, m[1][1], m[1][2]>>
Sub(r, tpl, s) ==
  LET hits == SelectSeq([i \in 1..Len(s) |-> MatchAt(r, s, i)], LAMBDA x : x # <<>>)
  IN  Patch(s, [k \in 1..Len(hits) |-> <<hits[k][1], hits[k][2], Expand(tpl, s, hits[k])>>])

RECURSIVE SubAll(_, _, _)
SubAll(rules, k, s) == IF k > Len(rules) THEN s
                       ELSE SubAll(rules, k + 1, Sub(rules[k][1], rules[k][2], s))
============================================================================
