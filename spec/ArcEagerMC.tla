----------------------------- MODULE ArcEagerMC -----------------------------
(* Every sentence of up to MaxW words, every choice of words left out, every *)
(* sequence of predicted transitions.                                        *)
EXTENDS ArcEager, TLC, Json
CONSTANTS MaxW, Emit
VARIABLES deps, p, ts
vars == <<deps, p, ts>>
Labels == {"NODEP", "SUBJ", "ROOT"}
Init == /\ deps \in UNION {[1..n -> Labels] : n \in 0..MaxW}
        /\ p = Start(deps) /\ ts = <<>>
Next == /\ ~Complete(p) /\ UNCHANGED deps
        /\ \E t \in Trans : p' = Do(p, t, deps) /\ ts' = Append(ts, [i |-> Top(p), j |-> Front0(p), t |-> t])
        /\ (Emit /\ Complete(p')) => PrintT("BEH " \o ToJson([deps |-> deps, ts |-> ts', arcs |-> p'.arcs]))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OK == WellFormed(p.arcs, deps)
Bound == Len(ts) <= 2 * Len(deps)
Progress == ~Complete(p) => p.stack # <<>>
HasRoot == p.arcs # <<>> => Roots(p.arcs) # {}
PairsOnce == \A a, b \in DOMAIN ts : a < b => (ts[a].i # ts[b].i \/ ts[a].j # ts[b].j)
Ends == <>Complete(p)
=============================================================================
