--------------------------------- MODULE Stores ---------------------------------
(***************************************************************************)
(* Image containers: how they are made, written, copied and frozen.         *)
(*                                                                         *)
(* `a' is the container under test, `b' the last one derived from it.  A    *)
(* container is a record of its size, channels, declared stride (0: packed  *)
(* rows), bit depth, buffer, and whether it is the mutable kind.  Elements  *)
(* are integers; `unit' is the element that stands for 1.  `home' is the    *)
(* caller's buffer; a mutable container made over it (`lent') writes there. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES a, b, unit, home
stores == <<a, b, unit, home>>

Nothing == [w |-> 0, h |-> 0, ch |-> 0, stride |-> 0, bd |-> 0, data |-> <<>>, mut |-> FALSE, lent |-> FALSE]
Exists(s) == s.ch > 0
Row(s) == s.w * s.ch
Safe(s) == IF s.stride = 0 THEN Row(s) ELSE s.stride
Value(seed, i, u) == u * ((seed * 31 + i * 7) % 251)
Filled(seed, len, u) == [i \in 1..len |-> Value(seed, i - 1, u)]

\* a container made from a buffer of len elements: only a packed buffer of the right length will do
Fits(w, h, ch, len) == len = w * h * ch
Mismatch(w, h, ch, len) == << w * h * ch, w, h, ch, len >>
Made(w, h, ch, data, mut) == [w |-> w, h |-> h, ch |-> ch, stride |-> w * ch, bd |-> 0, data |-> data, mut |-> mut, lent |-> FALSE]
Alloc(w, h, ch, depth, mut) == [Made(w, h, ch, [i \in 1..(w * h * ch) |-> 0], mut) EXCEPT !.bd = depth]
\* the fields are public: a container can also be put together with a stride of its own
Parts(w, h, ch, stride, depth, data, mut) ==
    [w |-> w, h |-> h, ch |-> ch, stride |-> stride, bd |-> depth, data |-> data, mut |-> mut, lent |-> FALSE]

\* a container over a buffer that stays the caller's
Lend(s) == [s EXCEPT !.lent = s.mut]

Copy(s) == [s EXCEPT !.lent = FALSE]
Frozen(s) == [s EXCEPT !.mut = FALSE, !.lent = FALSE]
\* the visible elements of s over those of d, which has the same size
Over(s, d) == [d EXCEPT !.data = [i \in 1..Len(d.data) |->
                  LET y == (i - 1) \div Safe(d) x == (i - 1) % Safe(d)
                  IN IF x < Row(d) THEN s.data[y * Safe(s) + x + 1] ELSE d.data[i]]]
Into(s, stride, seed, depth) ==
    LET eff == IF stride = 0 THEN Row(s) ELSE stride
    IN Over(s, Parts(s.w, s.h, s.ch, stride, depth, Filled(seed, eff * s.h, unit), TRUE))

Write(s, i, v) == [s EXCEPT !.data[i + 1] = v * unit]
Reaches(s, i, v) == home' = IF s.lent THEN [home EXCEPT ![i + 1] = v * unit] ELSE home

\* one operation on an existing container
Do(op, n) ==
    /\ UNCHANGED unit
    /\ op \notin {"wa", "wb"} => UNCHANGED home
    /\ CASE op = "wa" -> Exists(a) /\ n[1] < Len(a.data) /\ a' = Write(a, n[1], n[2]) /\ Reaches(a, n[1], n[2]) /\ UNCHANGED b
         [] op = "wb" -> Exists(b) /\ n[1] < Len(b.data) /\ b' = Write(b, n[1], n[2]) /\ Reaches(b, n[1], n[2]) /\ UNCHANGED a
         [] op = "da" -> Exists(a) /\ a' = [a EXCEPT !.bd = n[1]] /\ UNCHANGED b
         [] op = "copied" -> Exists(a) /\ b' = Copy(a) /\ UNCHANGED a
         [] op = "freeze" -> Exists(a) /\ b' = Frozen(a) /\ UNCHANGED a
         [] op = "into" -> Exists(a) /\ (n[1] = 0 \/ n[1] >= Row(a)) /\ b' = Into(a, n[1], n[2], n[3]) /\ UNCHANGED a
         [] op = "swap" -> Exists(b) /\ a' = b /\ b' = a
         [] OTHER -> FALSE

\* what the accessors of a container report
Report(s) == [w |-> s.w, h |-> s.h, ch |-> s.ch, safe |-> Safe(s), bd |-> s.bd, sw |-> s.w, sh |-> s.h, data |-> s.data]

\* names of containers: kind, sample, and what they stand for
Kinds == [Planar |-> 1, CbCr |-> 2, Rgb |-> 3, Rgba |-> 4]
Samples == [k \in {"8", "16", "F32", "F16"} |-> CASE k = "8" -> "u8" [] k = "16" -> "u16" [] k = "F32" -> "f32" [] k = "F16" -> "f16"]

Whole(s) == Exists(s) => Len(s.data) = Safe(s) * s.h
================================================================================
