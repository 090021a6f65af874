-------------------------------- MODULE Weights --------------------------------
(***************************************************************************)
(* Rows(f, n, m): how filter f computes m samples from n samples along one *)
(* axis.  Rows(f, n, m)[i + 1] belongs to output sample i; it has the      *)
(* index `start' of its first tap and the sequence `w' of its weights.     *)
(***************************************************************************)
EXTENDS Kernels

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

RECURSIVE SumF(_, _, _)
SumF(w, i, s) == IF i > Len(w) THEN s ELSE SumF(w, i + 1, s (+) w[i])
\* weights that sum to zero carry no information: the sample below the center is taken
Normalize(w, at) ==
    LET s == SumF(w, 1, F0)
        r == F1 (/) s
    IN IF FEq(s, F0) THEN [j \in 1..Len(w) |-> IF j = at THEN F1 ELSE F0]
       ELSE [j \in 1..Len(w) |-> w[j] (.) r]

\* elliptical weighting: every tap leaks 30% of itself into the next one
RECURSIVE EwaFrom(_, _)
EwaFrom(w, j) ==
    IF j > Len(w) THEN w
    ELSE EwaFrom([w EXCEPT ![j] = (FS("0.7") (.) w[j]) (+) ((F1 (-) FS("0.7")) (.) w[j - 1])], j + 1)

\* the weight of a tap at distance x for a kernel stretched by `cut'
Tap(d, cut, x) ==
    IF d.window.kernel = "none" THEN K(d.kernel, x (.) (F1 (/) cut))
    ELSE LET y == IF FLt(F0, d.window.blur) THEN x (.) (F1 (/) d.window.blur) ELSE x
             z == y (.) (F1 (/) cut)
             u == IF FLt(y, d.window.size) THEN K(d.window.kernel, z (.) d.window.size) ELSE F0
         IN u (.) K(d.kernel, z)

KernelRow(d, n, m, i) ==
    LET scale == FI(n) (/) FI(m)
        cut == IF d.fixed THEN F1 ELSE FMax(scale, F1)
        base == FRound(FI(d.taps) (.) cut)
        radius == FI(base) (/) F2
        center == FMin((FI(i) (+) FHalf) (.) scale, FI(n))
        start == MaxI(FFloor(center (-) radius), 0)
        end == MinI(MinI(FCeil(center (+) radius), start + base), n)
        raw == [j \in 1..(end - start) |->
                  Tap(d, cut, FAbs(FI(start + j - 1) (-) (center (-) FHalf)))]
        w == IF d.ewa THEN EwaFrom(raw, 2) ELSE raw
    IN [start |-> start,
        w |-> Normalize(w, MinI(MaxI(FFloor(center), start), end - 1) - start + 1)]

\* enlarging by area: output sample i covers part of the samples s and s + 1
AreaRow(n, m, i) ==
    LET scale == FI(n) (/) FI(m)
        s == FFloor(FI(i) (.) scale)
        fx == FI(i + 1) (-) ((FI(s) (+) F1) (.) (F1 (/) scale))
        dx == IF FLe(fx, F0) THEN F0 ELSE fx (-) FI(FFloor(fx))
        w == << F1 (-) dx, dx >>
        start == MaxI(s, 0)
        end == MinI(s + 2, n)
    IN [start |-> start, w |-> Normalize([j \in 1..(end - start) |-> w[j]], 1)]

Row(f, n, m, i) ==
    LET d == FilterOf(f)
    IN IF d.area /\ FLt(FI(n) (/) FI(m), F1) THEN AreaRow(n, m, i) ELSE KernelRow(d, n, m, i)

Rows(f, n, m) == [r \in 1..m |-> Row(f, n, m, r - 1)]

\* the 16 bit fixed point form of a row; a row with a tap above one does not fit and is kept exact
Fix(row) == [start |-> row.start, w |-> InFixed(row.w)]
\* how much the row can amplify an error of its input, times 1000
Gain(row) == AbsSum(row.w)
\* indices of the samples the row may depend on
Support(row) == row.start .. (row.start + Len(row.w) - 1)
================================================================================
