-------------------------------- MODULE WeightsMC --------------------------------
(***************************************************************************)
(* The kernels and weights by themselves, for every filter and every pair   *)
(* of lengths up to MaxN: what makes a resize an average.                   *)
(***************************************************************************)
EXTENDS Weights

CONSTANT MaxN
VARIABLES f, n, m, rows
vars == <<f, n, m, rows>>

Init == f = 0 /\ n = 1 /\ m = 1 /\ rows = <<>>
Filters == (0..(Len(Filter) - 1)) \ {1}
Choose == /\ rows = <<>>
          /\ \E g \in Filters, a \in 1..MaxN, b \in 1..MaxN :
                a # b /\ f' = g /\ n' = a /\ m' = b /\ rows' = Rows(g, a, b)
Next == Choose

Chosen == rows # <<>>
Wide(r) == Gain(r) > 40000                        \* ill-conditioned: the raw weights cancel
InRange == Chosen => \A i \in 1..m : LET r == rows[i] IN
              /\ Len(r.w) >= 1 /\ r.start >= 0 /\ r.start + Len(r.w) <= n
\* weights add up to one
Unity == Chosen => \A i \in 1..m : Wide(rows[i])
              \/ LET s == FScale(SumF(rows[i].w, 1, F0), 65536) IN s >= 65530 /\ s <= 65542
\* and so they do in fixed point, however many there are
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
FixedUnity == Chosen => \A i \in 1..m : Wide(rows[i])
              \/ \E j \in 1..Len(rows[i].w) : FEq(rows[i].w[j], F1)
              \/ LET s == Sum(Fix(rows[i]).w, 1) IN s >= 32766 /\ s <= 32770
\* windows move forward
Forward == Chosen => \A i \in 2..m : rows[i].start >= rows[i - 1].start
\* a window is about the scaled centre of its output sample
Centered == Chosen => \A i \in 1..m : LET r == rows[i] c == ((2 * i - 1) * n) \div (2 * m) IN
              r.start <= c + 1 /\ r.start + Len(r.w) >= c
\* non-negative kernels give non-negative weights: no gain
Positive == Chosen /\ FilterOf(f).name \in {"Bilinear", "Hermite", "BSpline", "Box", "Area", "Welch", "Hann", "Gaussian", "Blackman", "Hamming"}
              => \A i \in 1..m : Gain(rows[i]) <= 1001
================================================================================
