--------------------------------- MODULE Colours ---------------------------------
(***************************************************************************)
(* Colour space scalers.  Such a scaler decodes 8 bit pixels, averages in    *)
(* its own space and encodes the result.  Along the neutral axis, and in    *)
(* every channel where the space is a linear image of linear light or is    *)
(* made channel by channel, the space is described by one rising curve,     *)
(* Tone(v): an output is right if the tone of its level is the average of    *)
(* the tones of the source, up to two levels.                               *)
(***************************************************************************)
EXTENDS Conform

\* transfer functions: 0 sRGB, 1 Rec.709, 2 gamma 2.2
Decode(tr, x) ==
    CASE tr = 0 -> IF FLt(x, FS("0.039293372")) THEN x (/) FS("12.92")
                   ELSE FPow((x (+) FS("0.0550107189475866")) (/) FS("1.0550107189475866"), FS("2.4"))
      [] tr = 1 -> IF FLt(x, FS("0.08124286")) THEN x (/) FS("4.5")
                   ELSE FPow((x (+) FS("0.09929682680944")) (/) FS("1.09929682680944"), F1 (/) FS("0.45"))
      [] OTHER -> FPow(x, FS("2.2"))
Cbrt(x) == IF FEq(x, F0) THEN F0 ELSE FPow(x, F1 (/) FS("3"))
\* lightness as a function of linear light
Lightness(y) == IF FLt(FS("0.008856"), y) THEN Cbrt(y) ELSE (FS("7.787") (.) y) (+) (FS("16") (/) FS("116"))

Transfer(e) == IF e.api \in {"lineart", "oklab"} THEN Get(e, "tr", 0) ELSE 0
Curve(api, tr, x) ==
    CASE api \in {"linear", "lineart", "xyz"} -> Decode(tr, x)
      [] api \in {"lab", "luv", "lch"} -> Lightness(Decode(tr, x))
      [] api = "oklab" -> Cbrt(Decode(tr, x))
      [] OTHER -> F1 (/) (F1 (+) FExp(F0 (-) x))

One == 500000
ASSUME TLCSet(9, [k |-> <<"", 0>>, t |-> <<>>])
Tones(api, tr) ==
    IF TLCGet(9).k = <<api, tr>> THEN TLCGet(9).t
    ELSE LET t == TLCEval([v \in 0..255 |-> FScale(Curve(api, tr, FI(v) (/) FI(255)), One)])
         IN IF TLCSet(9, [k |-> <<api, tr>>, t |-> t]) THEN t ELSE t

\* colours averaged with the weights alone, or weighted by alpha
AlphaAt(e, k) == IF Chan(e) = 4 THEN e.in[4 * ((k - 1) \div 4) + 4] ELSE 255
Weighted(e) == Chan(e) = 4 /\ Get(e, "pm", 0) = 1
Field(e) == LET t == Tones(e.api, Transfer(e)) IN
    TLCEval([k \in 1..Len(e.in) |->
        IF Chan(e) = 4 /\ k % 4 = 0 THEN e.in[k]
        ELSE IF Weighted(e) THEN MulDiv(t[e.in[k]], AlphaAt(e, k), 255) ELSE t[e.in[k]]])

\* the level o stands for the tone x (thousandths of a unit of One)
Level(t, o, x) ==
    /\ o > 2 => x >= 1000 * (t[o - 2] - 30)
    /\ o < 253 => x <= 1000 * (t[o + 2] + 30)
Averaged(e) ==
    LET t == Tones(e.api, Transfer(e))
        v == Field(e)
        tab == IF Horizontal(e) THEN HTable(e) ELSE VTable(e)
        right(p) ==
            LET x == Ideal1(e, v, tab, 0, p)
                o == At(e, p)
                a == Ideal1(e, v, tab, 0, <<p[1], p[2], 3>>)
            IN IF Chan(e) = 4 /\ p[3] = 3 THEN Abs(1000 * o - Clamp(x, 0, 255000)) <= 1010
               ELSE IF Weighted(e) THEN a < 20000 \/ Level(t, o, MulDiv(x, 255000, a))
               ELSE Level(t, o, x)
        wrong == { p \in Pixels(e) : ~right(p) }
    IN wrong = {} \/ (Show(e, wrong) /\ FALSE)

\* a source of one colour keeps it
FlatColour(e) == \A p \in Pixels(e) : Abs(At(e, p) - e.in[p[3] + 1]) <= IF p[3] = 3 THEN 1 ELSE 2

\* the alpha channel of a colour scaler is the plain average
AlphaAveraged(e) ==
    Chan(e) = 4 =>
      LET tab == IF Horizontal(e) THEN HTable(e) ELSE VTable(e)
      IN \A p \in Pixels(e) : p[3] = 3 =>
            Abs(1000 * At(e, p) - Clamp(Ideal1(e, e.in, tab, 0, p), 0, 255000)) <= 1010

ColourOk(e) ==
    CASE e.k = "flat" -> FlatColour(e)
      [] e.k = "avg" -> Averaged(e)
      [] OTHER -> AlphaAveraged(e)
================================================================================
