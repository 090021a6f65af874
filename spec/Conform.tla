-------------------------------- MODULE Conform --------------------------------
(***************************************************************************)
(* What the pixels of a result must be.                                    *)
(*                                                                         *)
(* An event carries the visible components of the source (`in') and of the *)
(* destination (`out') as integers: levels for the integer formats, and    *)
(* multiples of 2^-16 for the float formats.  For a large image only some  *)
(* rows (lh of them) or some columns (lw) are carried, and the resize is   *)
(* along the other axis.  For a very long axis a window is carried: the    *)
(* outputs wx..wx+wk-1 along the resized axis and the samples              *)
(* wa..wa+wn-1 of the source, which must hold all they depend on.          *)
(*                                                                         *)
(* Ideal values are in thousandths of an integer unit.                     *)
(***************************************************************************)
EXTENDS Weights, Requests

CONSTANT KnownFindings    \* sequence of [property, kind, f] records: see known-findings.json

Listed(kind, f) == \E i \in 1..Len(KnownFindings) :
                      KnownFindings[i].kind = kind /\ \E j \in 1..Len(KnownFindings[i].f) : KnownFindings[i].f[j] = f

Horizontal(e) == e.sw # e.dw
Vertical(e) == e.sh # e.dh
Cut(e) == "wk" \in DOMAIN e

\* part is << first row, number of rows, first sample, number of samples >>
PartRows(f, n, m, part) ==
    [i \in 1..part[2] |->
        LET r == Row(f, n, m, part[1] + i - 1)
        IN IF Assert(r.start >= part[3] /\ r.start + Len(r.w) <= part[3] + part[4], <<"the window is too small for", f, n, m, part>>)
           THEN [r EXCEPT !.start = @ - part[3]] ELSE r]
\* one table of rows is kept: consecutive events often share it
ASSUME TLCSet(7, [k |-> <<0, 0, 0, <<>> >>, r |-> <<>>, x |-> <<>>])
ASSUME TLCSet(8, [k |-> <<0, 0, 0, <<>> >>, r |-> <<>>, x |-> <<>>])
Table(slot, f, n, m, part) ==
    IF TLCGet(slot).k = <<f, n, m, part>> THEN TLCGet(slot)
    ELSE LET r == TLCEval(PartRows(f, n, m, part))
             t == [k |-> <<f, n, m, part>>, r |-> r, x |-> TLCEval([i \in 1..Len(r) |-> Fix(r[i])])]
         IN IF TLCSet(slot, t) THEN t ELSE t
Part(e, n, m) == IF Cut(e) THEN <<e.wx, e.wk, e.wa, e.wn>> ELSE <<0, m, 0, n>>
HTable(e) == Table(7, e.f, e.sw, e.dw, Part(e, e.sw, e.dw))
VTable(e) == Table(8, e.f, e.sh, e.dh, Part(e, e.sh, e.dh))

Float(e) == e.ty \in {"f32", "f16"}
\* formats whose weights may be held in 16 bit fixed point
FixedPoint(e) == Packed(e) \/ e.ty = "u8" \/ (e.ty = "u16" /\ BD(e) <= 12)
Top(e) == IF Packed(e) THEN 1023 ELSE IF e.ty = "u8" THEN 255 ELSE IF e.ty = "u16" THEN 2^BD(e) - 1 ELSE 65536

\* size of the logged part
IW(e) == IF Cut(e) /\ Horizontal(e) THEN e.wn ELSE Get(e, "lw", e.sw)
IH(e) == IF Cut(e) /\ Vertical(e) THEN e.wn ELSE Get(e, "lh", e.sh)
OW(e) == IF Cut(e) /\ Horizontal(e) THEN e.wk ELSE Get(e, "lw", e.dw)
OH(e) == IF Cut(e) /\ Vertical(e) THEN e.wk ELSE Get(e, "lh", e.dh)

\* the ideal value of component c of the output pixel (x, y), in thousandths; q = 15 for fixed point weights
RowsOf(t, q) == IF q = 15 THEN t.x ELSE t.r
AlongX(v, rows, w, n, x, y, c, q) ==
    LET r == rows[x + 1] IN Dot(r.w, v, (y * w + r.start) * n + c + 1, n, q)
AlongY(v, rows, w, n, x, y, c, q) ==
    LET r == rows[y + 1] IN Dot(r.w, v, (r.start * w + x) * n + c + 1, w * n, q)

Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Abs(x) == IF x < 0 THEN -x ELSE x
Div(a, b) == IF a < 0 THEN -((2 * (-a) + b) \div (2 * b)) ELSE (2 * a + b) \div (2 * b)

RECURSIVE MaxGainFrom(_, _, _)
MaxGainFrom(rows, i, g) ==
    IF i > Len(rows) THEN g ELSE MaxGainFrom(rows, i + 1, MaxI(g, Gain(rows[i])))
MaxGain(rows) == MaxGainFrom(rows, 1, 1000)

(***************************************************************************)
(* Tolerances of one pass, in thousandths: how far above and below the     *)
(* ideal value an output may lie.  Half a level is the rounding of the     *)
(* result; the rest is the representation of the weights.                  *)
(***************************************************************************)
\* single precision: the weights are normalised by a sum of n and applied in another, each wrong by n / 2^25
TapsOf(f, n, m) == (FilterOf(f).taps * MaxI(n, m)) \div m + 1
Long(e) == MaxI(TapsOf(e.f, e.sw, e.dw), TapsOf(e.f, e.sh, e.dh))
Summed(e, m) == MulDiv(m, Long(e), 16777)
Slop(e) == 20 + IF FixedPoint(e) THEN (Top(e) * 2000) \div 32768 ELSE Summed(e, Top(e))
\* when speed is preferred each 8 bit product is rounded by itself: the error grows with the number of taps,
\* but is kept below a level
Fast(e) == e.ty = "u8" /\ Get(e, "wl", "s") = "s"
FastSlop(e) == 8 * (IF Horizontal(e) THEN MinI(TapsOf(e.f, e.sw, e.dw), 100) ELSE 0)
Up(e) == IF Fast(e) THEN 1520 + FastSlop(e) ELSE 500 + Slop(e)
Down(e) == 500 + Slop(e) + IF Fast(e) THEN FastSlop(e) ELSE 0
\* floats: the resolution of the log and the relative error of the arithmetic at magnitude v (thousandths)
FTol(e, v, gain) ==
    LET m == MaxI(65536, v \div 1000)
    IN IF e.ty = "f16" THEN 1000 + (m * 11) \div 20 + 10 * gain ELSE 600 + (gain * (m \div 1000)) \div 100 + m \div 100 + Summed(e, m)

Bound(e, v) == IF Float(e) THEN v ELSE Clamp(v, 0, 1000 * Top(e))
Close(e, out, ideal, gain) ==
    IF Float(e) THEN
        \/ Abs(out) >= 2000000 \/ Abs(ideal) >= 2000000000      \* outside the range of the log
        \/ Abs(1000 * out - ideal) <= FTol(e, Abs(ideal), gain)
    ELSE LET b == Bound(e, ideal) IN 1000 * out - b <= Up(e) /\ b - 1000 * out <= Down(e)

Pixels(e) == (0..(OW(e) - 1)) \X (0..(OH(e) - 1)) \X (0..(Chan(e) - 1))
At(e, p) == e.out[(p[2] * OW(e) + p[1]) * Chan(e) + p[3] + 1]

\* packed 10 bit results are opaque
Opaque(e, p) == Packed(e) /\ p[3] = 3

Ideal1(e, v, t, q, p) ==
    IF Horizontal(e) THEN AlongX(v, RowsOf(t, q), IW(e), Chan(e), p[1], p[2], p[3], q)
    ELSE AlongY(v, RowsOf(t, q), IW(e), Chan(e), p[1], p[2], p[3], q)

\* the output components that a one axis resize got wrong under weights of precision q
Wrong1(e, q) ==
    LET t == IF Horizontal(e) THEN HTable(e) ELSE VTable(e)
        g == MaxGain(t.r)
        v == e.in
    IN { p \in Pixels(e) : IF Opaque(e, p) THEN At(e, p) # 3 ELSE ~Close(e, At(e, p), Ideal1(e, v, t, q, p), g) }

(***************************************************************************)
(* Two axes: the intermediate image has the destination's format, so its   *)
(* rounding is amplified by the rows of the second pass.                   *)
(***************************************************************************)
Middle(e, v, q) ==
    LET t == VTable(e)
        w == e.sw * Chan(e)
    IN TLCEval([k \in 1..(w * e.dh) |->
          LET y == (k - 1) \div w  i == (k - 1) % w
              d == Dot(RowsOf(t, q)[y + 1].w, v, RowsOf(t, q)[y + 1].start * w + i + 1, w, q)
          IN IF Float(e) THEN Div(d, 1000) ELSE Clamp(Div(d, 1000), 0, Top(e))])
\* its samples are rounded both by the code and by Middle
Wrong2(e, v, q) ==
    LET m == Middle(e, v, q)
        t == HTable(e)
        g == MaxGain(t.r)
        up == Up(e) + ((500 + Up(e)) * g) \div 1000
        down == Down(e) + ((500 + Down(e)) * g) \div 1000
        gv == MaxGain(VTable(e).r)
    IN { p \in Pixels(e) :
           LET i == AlongX(m, RowsOf(t, q), e.sw, Chan(e), p[1], p[2], p[3], q)
               b == Bound(e, i)
               o == At(e, p)
           IN IF Opaque(e, p) THEN o # 3
              ELSE IF Float(e) THEN
                 ~(\/ Abs(o) >= 2000000 \/ Abs(i) >= 2000000000
                   \/ Abs(1000 * o - i) <= (FTol(e, Abs(i), gv) * g) \div 500 + 1000)
              ELSE ~(1000 * o - b <= up /\ b - 1000 * o <= down) }

\* the tables an event needs; they are computed here, once
Tables(e) == (IF Horizontal(e) THEN {HTable(e)} ELSE {}) \cup (IF Vertical(e) THEN {VTable(e)} ELSE {})
Wrong(e, q) == IF Tables(e) = {} THEN {}
               ELSE IF Horizontal(e) /\ Vertical(e) THEN Wrong2(e, e.in, q) ELSE Wrong1(e, q)

First(w) == CHOOSE p \in w : \A o \in w : p[2] < o[2] \/ (p[2] = o[2] /\ (p[1] < o[1] \/ (p[1] = o[1] /\ p[3] <= o[3])))
Show(e, w) == IF w = {} THEN TRUE
              ELSE PrintT(<<"WRONG", e.id, "count", Cardinality(w), "at x,y,c", First(w), "out", At(e, First(w))>>)

\* A convolving resize without alpha association.
Convolved(e) ==
    \/ FixedPoint(e) /\ Wrong(e, 15) = {}
    \/ Wrong(e, 0) = {}
    \/ (Show(e, Wrong(e, 0)) /\ FALSE)

(***************************************************************************)
(* Alpha association: colours are multiplied by alpha, averaged like any   *)
(* channel, and divided by the averaged alpha, which the event shows.      *)
(***************************************************************************)
\* a window is logged with what holds of the whole picture
ConstantAlpha(e) == IF Cut(e) THEN e.ca = 1 ELSE \A k \in 1..(IW(e) * IH(e)) : e.in[4 * k] = e.in[4]
\* b: how products close to a tie are rounded, in thousandths
Associated(e, b) ==
    TLCEval([k \in 1..Len(e.in) |->
        IF k % 4 = 0 THEN e.in[k]
        ELSE LET a == e.in[4 * ((k + 3) \div 4)]
             IN IF b = 0 THEN MulDiv(e.in[k], a, Top(e)) ELSE (MulDiv(1000 * e.in[k], a, Top(e)) + 500 + b) \div 1000])
\* depths whose colours are associated in single precision: a tie may fall either way
Ties(e) == IF e.ty = "u16" /\ BD(e) \notin {10, 12, 16} THEN {4, -4} ELSE {}

\* the AVX-512 build divides 8 bit colours in half precision: three roundings to eleven bits
Divided(e) == IF e.ty = "u8" /\ Get(e, "v", "") \in {"avx512", "novbmi"} THEN 400 ELSE 0
AlphaTol(e, a, o, ideal, gain, two) ==
    IF Float(e) THEN (IF e.ty = "f16" THEN 3 ELSE 1) * (FTol(e, Abs(ideal), gain) * two + Abs(o) + 1000)
    ELSE (Down(e) * two) + MulDiv(500 + Divided(e), a, Top(e)) + 20
WrongAlpha(e, q, b) ==
    LET v == Associated(e, b)
        both == Horizontal(e) /\ Vertical(e)
        t == IF Horizontal(e) THEN HTable(e) ELSE VTable(e)
        m == IF both THEN Middle(e, v, q) ELSE v
        g == MaxGain(t.r)
        two == IF both THEN (2 * g + 1999) \div 1000 ELSE 1
        ideal(p) == IF both THEN AlongX(m, RowsOf(t, q), e.sw, 4, p[1], p[2], p[3], q) ELSE Ideal1(e, v, t, q, p)
    IN { p \in Pixels(e) :
          LET i == Bound(e, ideal(p))
              o == At(e, p)
              a == At(e, <<p[1], p[2], 3>>)
              tol == AlphaTol(e, a, o, i, g, two)
              back == IF Float(e) THEN Clamp(MulDiv(o, a, 65536), -2000000, 2000000) * 1000
                      ELSE MulDiv(1000 * o, a, Top(e))
              up == IF e.ty = "u8" /\ Get(e, "wl", "s") = "s" THEN 1000 * two ELSE 0
          IN IF p[3] = 3 THEN
                IF Float(e) THEN Abs(1000 * o - i) > FTol(e, Abs(i), g) * two
                ELSE 1000 * o - i > (Down(e) + up) * two \/ i - 1000 * o > Down(e) * two
             ELSE IF a = 0 THEN FALSE
             ELSE IF Float(e) THEN Abs(o) < 2000000 /\ Abs(i) < 2000000000 /\ Abs(back - i) > tol
             ELSE \/ back - i > tol + up
                  \/ (o < Top(e) /\ i - back > tol) }
AlphaOk(e, q) ==
    LET w == WrongAlpha(e, q, 0)
    IN w = {} \/ (Ties(e) # {} /\ w \cap UNION { w \ WrongAlpha(e, q, b) : b \in Ties(e) } = w)
AlphaAware(e) ==
    Tables(e) # {} /\
    \/ AlphaOk(e, 0)
    \/ FixedPoint(e) /\ AlphaOk(e, 15)
    \/ (Show(e, WrongAlpha(e, 0, 0)) /\ FALSE)

(***************************************************************************)
(* Nearest and same size.                                                  *)
(***************************************************************************)
NearestIndex(i, n, m) ==
    LET s == FI(n) (/) FI(m)
        x == ((FI(i) (+) FHalf) (.) s) (-) FHalf
    IN Clamp(IF FLt(x, F0) THEN FCeil(x) ELSE FFloor(x), 0, n - 1)
Picked(e) ==
    LET index(i, n, m, here) == IF here THEN NearestIndex(e.wx + i, n, m) - e.wa ELSE NearestIndex(i, n, m)
        xs == TLCEval([x \in 0..(OW(e) - 1) |-> index(x, e.sw, e.dw, Cut(e) /\ Horizontal(e))])
        ys == TLCEval([y \in 0..(OH(e) - 1) |-> index(y, e.sh, e.dh, Cut(e) /\ Vertical(e))])
        n == Chan(e)
    IN \A p \in Pixels(e) : At(e, p) = e.in[(ys[p[2]] * IW(e) + xs[p[1]]) * n + p[3] + 1]

Copied(e) == e.dst = e.src

\* the pixels of any well formed request
Correct(e) ==
    IF SameSize(e) THEN Copied(e)
    ELSE IF e.f = Nearest THEN Picked(e)
    ELSE IF Get(e, "pm", 0) = 1 /\ Chan(e) = 4 /\ ~Packed(e)
            \* the half float scaler associates alpha without looking at it
            /\ (e.ty = "f16" \/ ~ConstantAlpha(e)) THEN AlphaAware(e)
    ELSE Convolved(e)
================================================================================
