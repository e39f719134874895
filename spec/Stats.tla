-------------------------------- MODULE Stats --------------------------------
(* sample sets built up one sample at a time; every reachable set is emitted with the  *)
(* exact values of all estimators                                                      *)
EXTENDS StatsOps, TLC, Json
CONSTANTS MinX, MaxX, Rhos, As, Ps, Ms, Alphas, Sorted
VARIABLES s, al, be
vars == <<s, al, be>>
Init == s = <<>> /\ \E w \in Alphas : al = w[1] /\ be = w[2]
Key(x) == ((x[1] * 40 + x[2]) * 40 + x[3]) * 40 + x[4] + 20
Add(x) == /\ Len(s) < MaxX
          /\ (Sorted /\ s # <<>>) => Key(s[Len(s)]) <= Key(x)
          /\ s' = Append(s, x) /\ UNCHANGED <<al, be>>
Next == \E r \in Rhos, a \in As, p \in Ps, m \in Ms : Add(<<r, a, p, m>>)

\* ---- properties of the estimators themselves
Big == Len(s) >= 2 /\ Usable(s)
\* the order of the samples is irrelevant
OrderFree == Big => LET q == Reverse(s) IN /\ Eq(E(s, al, be), E(q, al, be)) /\ Eq(Cv(s, al, be), Cv(q, al, be))
                                            /\ Z(s) = Z(q) /\ ZVar(s) = ZVar(q)
\* an error is never the square root of something negative
ErrorReal == Big => ZVar(s)[1] >= 0
\* the sampling density only enters through the ratios
DensityFree == Big => LET q == [i \in DOMAIN s |-> <<1, s[i][2], s[i][3], s[i][4]>>] IN Eq(E(s, al, be), E(q, al, be)) /\ Eq(Cv(s, al, be), Cv(q, al, be))
\* repeating the whole set changes no estimate
Repetition == Big => Eq(E(s \o s, al, be), E(s, al, be)) /\ Eq(Cv(s \o s, al, be), Cv(s, al, be)) /\ Eq(Z(s \o s), Z(s))
\* no derivative, no energy
Flat == (Big /\ al = be /\ \A i \in DOMAIN s : s[i][3] = s[i][4]) => E(s, al, be)[1] = 0
Emit == (Len(s) >= MinX /\ Usable(s)) => PrintT("@@" \o ToJson([s |-> s, al |-> al, be |-> be, x |-> Expect(s, al, be)]))
=============================================================================
