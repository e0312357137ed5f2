------------------------------- MODULE Text -------------------------------
(* Text as sequences of Unicode code points, plus the string helpers the   *)
(* Python code relies on (str.split, str.strip, str.replace, str.lower).   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [c \in {SubSeq(ASCII, k, k) : k \in 1..Len(ASCII)} |->
             31 + (CHOOSE k \in 1..Len(ASCII) : SubSeq(ASCII, k, k) = c)]

\* TLA+ string literal -> code points
C(str) == [k \in 1..Len(str) |-> CodeOf[SubSeq(str, k, k)]]
Chars(str) == {CodeOf[SubSeq(str, k, k)] : k \in 1..Len(str)}

SP == 32
LOWER == 97..122
UPPER == 65..90
LETTER == LOWER \cup UPPER
DIGIT == 48..57
ALNUM == LETTER \cup DIGIT
\* Letters outside ASCII that the case generators use (all are \w, none is [a-zA-Z])
XLETTER == {178, 223, 228, 233, 241, 252, 322, 700, 1078, 1488, 20013, 119808}
WORD == ALNUM \cup {95} \cup XLETTER
\* str.isspace / \s
WS == (9..13) \cup (28..32) \cup {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)

Quote == 34
Apos == 39
Dot == 46
Pilcrow == 182

Low1(c) == IF c \in UPPER THEN c + 32 ELSE c
Lower(s) == [k \in 1..Len(s) |-> Low1(s[k])]

Positions(s) == [k \in 1..Len(s) |-> k]
Flat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

\* whitespace-separated words of s: from every first to every last character of a word
Split(s) ==
  LET n  == Len(s)
      st == SelectSeq(Positions(s), LAMBDA i : s[i] \notin WS /\ (i = 1 \/ s[i - 1] \in WS))
      en == SelectSeq(Positions(s), LAMBDA i : s[i] \notin WS /\ (i = n \/ s[i + 1] \in WS))
  IN  [k \in 1..Len(st) |-> SubSeq(s, st[k], en[k])]

JoinSp(ws) == IF ws = <<>> THEN <<>> ELSE Tail(Flat([k \in 1..Len(ws) |-> <<SP>> \o ws[k]]))

\* ' '.join(s.split())
Squeeze(s) == JoinSp(Split(s))

NoBlank(s) == SelectSeq(s, LAMBDA c : c \notin WS)

StartsAt(s, i, p) == /\ i + Len(p) - 1 <= Len(s)
                     /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]

\* the pieces of s between spans (in order; a span that begins before the end of the one before is passed over), each
\* span <<first, after the last, what stands in its place>>
Patch(s, spans) ==
  IF spans = <<>> THEN s
  ELSE LET f == FoldLeft(LAMBDA a, x : IF x[1] < a.i THEN a
                                       ELSE [i |-> x[2], out |-> Append(Append(a.out, SubSeq(s, a.i, x[1] - 1)), x[3])],
                         [i |-> 1, out |-> <<>>], spans)
       IN  Flat(f.out) \o SubSeq(s, f.i, Len(s))

\* str.replace
Replace(s, old, new) ==
  LET at == SelectSeq(Positions(s), LAMBDA i : s[i] = old[1] /\ StartsAt(s, i, old))
  IN  Patch(s, [k \in 1..Len(at) |-> <<at[k], at[k] + Len(old), new>>])

HasSub(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : StartsAt(s, i, p)

RECURSIVE NumCodes(_)
NumCodes(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NumCodes(n \div 10), 48 + (n % 10))

RECURSIVE NumOf(_)
NumOf(s) == IF s = <<>> THEN 0 ELSE 10 * NumOf(Front(s)) + (s[Len(s)] - 48)
============================================================================
