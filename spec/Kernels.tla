-------------------------------- MODULE Kernels --------------------------------
(***************************************************************************)
(* The resampling kernels of pic-scale, as functions of the distance       *)
(* x >= 0 from the center of an output sample, in float32.                 *)
(* `Filter[f]' describes filter number f (0..48) of the public enumeration *)
(* ResamplingFunction: its name, its kernel, the number of taps its kernel *)
(* spans when it enlarges, whether it is resized with the scale (`fixed'), *)
(* whether it is elliptically smoothed (`ewa'), whether it integrates area *)
(* and the window multiplied into it.                                      *)
(***************************************************************************)
EXTENDS F32

a (+) b == FAdd(a, b)
a (-) b == FSub(a, b)
a (.) b == FMul(a, b)
a (/) b == FDiv(a, b)

F0 == FI(0)
F1 == FI(1)
F2 == FI(2)
F3 == FI(3)
F4 == FI(4)
F6 == FI(6)
FHalf == FQ(1, 2)
Pi == FS("3.14159265358979323846")
Sqrt2 == FS("1.41421356237309504880")

Sinc(x) == IF FEq(x, F0) THEN F1 ELSE FSin(x) (/) x
\* J1(x) / x, whose limit at 0 is one half
Jinc(x) == IF FEq(x, F0) THEN FHalf ELSE FJ1(x) (/) x

Box(x) == F1
Hat(x) == IF FLt(x, F1) THEN F1 (-) x ELSE F0
CubicSpline(x) ==
    IF FLt(x, F1) THEN (F4 (+) (x (.) x (.) ((F3 (.) x) (-) F6))) (/) F6
    ELSE IF FLt(x, F2) THEN (FI(8) (+) (x (.) (FI(-12) (+) (x (.) (F6 (-) x))))) (/) F6
    ELSE F0
\* the two parameter cubic family of Mitchell and Netravali
BC(b, c, x) ==
    LET q == x (.) x
        t == q (.) x
    IN IF FLt(x, F1)
       THEN (((FI(12) (-) ((FI(9) (.) b) (+) (F6 (.) c))) (.) t)
             (+) (((FI(12) (.) b) (+) (F6 (.) c) (-) FI(18)) (.) q)
             (+) (F6 (-) (F2 (.) b))) (/) F6
       ELSE IF FLt(x, F2)
       THEN (((F0 (-) (b (+) (F6 (.) c))) (.) t)
             (+) (((F6 (.) b) (+) (FI(30) (.) c)) (.) q)
             (+) ((F0 (-) ((FI(12) (.) b) (+) (FI(48) (.) c))) (.) x)
             (+) ((FI(8) (.) b) (+) (FI(24) (.) c))) (/) F6
       ELSE F0
RobB == FI(12) (/) (FI(19) (+) (FI(9) (.) Sqrt2))
RobC == FI(13) (/) (FI(58) (+) (FI(216) (.) Sqrt2))
RobSB == F6 (/) (FI(13) (+) (FI(7) (.) Sqrt2))
RobSC == FI(7) (/) (F2 (+) (FI(12) (.) Sqrt2))
BiCubic(x) ==
    LET a == FQ(-1, 2)
        q == x (.) x
        t == q (.) x
    IN IF FLe(F2, x) THEN F0
       ELSE IF FLe(x, F1) THEN (((a (+) F2) (.) t) (-) ((a (+) F3) (.) q)) (+) F1
       ELSE ((a (.) t) (-) (FI(5) (.) a (.) q)) (+) ((FI(8) (.) a (.) x) (-) (F4 (.) a))
Hermite(x) == BC(F0, F0, x)
Hann(x) ==
    IF FLt(F2, x) THEN F0
    ELSE LET r == FCos(x (.) (Pi (/) F4)) IN r (.) r (.) FQ(1, 4)
RaisedCosine(a, b, x) ==
    IF FEq(x, F0) THEN F1 ELSE IF FLe(F1, x) THEN F0 ELSE a (+) (b (.) FCos(x (.) Pi))
Hamming(x) == RaisedCosine(FS("0.54"), FS("0.46"), x)
Hanning(x) == RaisedCosine(FHalf, FHalf, x)
Blackman(x) ==
    IF FLt(x, F2)
    THEN LET z == x (/) F2
         IN Sinc(x) (.) ((FS("0.42") (-) (FS("0.49656062") (.) FCos(F2 (.) Pi (.) z)))
                         (+) (FS("0.07684867") (.) FCos(F4 (.) Pi (.) z)))
    ELSE F0
Welch(x) == IF FLe(F1, x) THEN F0 ELSE F1 (-) (x (.) x)
Quadric(x) ==
    IF FLt(x, FHalf) THEN FQ(3, 4) (-) (x (.) x)
    ELSE IF FLt(x, FQ(3, 2)) THEN LET t == x (-) FQ(3, 2) IN FHalf (.) t (.) t
    ELSE F0
Gaussian(x) ==
    LET s == FS("0.35")
        d == F2 (.) s (.) s
    IN (F1 (/) (FSqrt(F2 (.) Pi) (.) s)) (.) FExp(FNeg(x) (/) (d (.) d))
Sphinx(x) ==
    IF FLt(x, FS("1e-8")) THEN F1
    ELSE LET y == x (.) Pi IN (F3 (.) (FSin(y) (-) (y (.) FCos(y)))) (/) (y (.) y (.) y)
Bartlett(x) == IF FLe(x, F1) THEN F2 (.) x ELSE F2 (-) (F2 (.) x)
BartlettHann(x) ==
    IF FLt(F2, x) THEN F0
    ELSE LET fac == FAbs(x (-) FHalf)
         IN (FS("0.62") (-) (FS("0.4832") (.) fac)) (+) (FS("0.38") (.) FCos(F2 (.) Pi (.) fac))
\* modified Bessel function I0 by its power series
RECURSIVE I0Sum(_, _, _, _)
I0Sum(s, y, t, i) ==
    IF FLt(FS("1e-12"), t) THEN I0Sum(s (+) t, y, t (.) (y (/) (i (.) i)), i (+) F1) ELSE s
I0(x) == LET y == (x (.) x) (/) F4 IN I0Sum(F1, y, y, F2)
Kaiser(x) ==
    IF FLt(F1, x) THEN F0
    ELSE I0(FS("6.33") (.) FSqrt(F1 (-) (x (.) x))) (/) I0(FS("6.33"))
Bohman(x) ==
    IF FLt(F1, x) THEN F0
    ELSE LET d == Pi (.) x IN ((F1 (-) x) (.) FCos(d)) (+) (FSin(d) (/) Pi)
RECURSIVE LagProd(_, _, _, _, _)
LagProd(s, n, i, x, v) ==
    IF i = 2 * s THEN v
    ELSE LagProd(s, n, i + 1, x,
                 IF i = n THEN v ELSE v (.) ((FI(n - i) (-) x) (/) FI(n - i)))
Lagrange(s, x) == IF FLt(FI(s), x) THEN F0 ELSE LagProd(s, FFloor(FI(s) (+) x), 0, x, F1)
Spline16(x) ==
    IF FLt(x, F1)
    THEN (((((x (-) FQ(9, 5)) (.) x) (-) FQ(1, 5)) (.) x)) (+) F1
    ELSE LET y == x (-) F1 IN ((((FQ(-1, 3) (.) y) (+) FQ(4, 5)) (.) y) (-) FQ(7, 15)) (.) y
Cub(a, b, c, y) == ((((a (.) y) (+) b) (.) y) (+) c) (.) y
Spline36(x) ==
    IF FLt(x, F1) THEN Cub(FQ(13, 11), FQ(-453, 209), FQ(-3, 209), x) (+) F1
    ELSE IF FLt(x, F2) THEN Cub(FQ(-6, 11), FQ(270, 209), FQ(-156, 209), x (-) F1)
    ELSE Cub(FQ(1, 11), FQ(-45, 209), FQ(26, 209), x (-) F2)
Spline64(x) ==
    IF FLt(x, F1) THEN Cub(FQ(49, 41), FQ(-6387, 2911), FQ(-3, 2911), x) (+) F1
    ELSE IF FLt(x, F2) THEN Cub(FQ(-24, 41), FQ(4032, 2911), FQ(-2328, 2911), x (-) F1)
    ELSE IF FLt(x, F3) THEN Cub(FQ(6, 41), FQ(-1008, 2911), FQ(582, 2911), x (-) F2)
    ELSE Cub(FQ(-1, 41), FQ(168, 2911), FQ(-97, 2911), x (-) F3)
Lanczos(a, x) ==
    IF FLt(x, FI(a)) THEN LET d == Pi (.) x IN Sinc(d) (.) Sinc(d (/) FI(a)) ELSE F0
JincRadius == FS("16.247661874700962")
LanczosJinc(a, x) ==
    IF FLt(JincRadius, x) \/ ~FLt(x, FI(a)) THEN F0
    ELSE LET d == Pi (.) x IN Jinc(d) (.) Jinc(d (/) FI(a))

(***************************************************************************)
(* K(k, x): the kernel called k at distance x.                             *)
(***************************************************************************)
K(k, x) ==
    CASE k = "box" -> Box(x)
      [] k = "hat" -> Hat(x)
      [] k = "cubic" -> CubicSpline(x)
      [] k = "mitchell" -> BC(FQ(1, 3), FQ(1, 3), x)
      [] k = "catmull" -> BC(F0, FHalf, x)
      [] k = "hermite" -> Hermite(x)
      [] k = "bspline" -> BC(F1, F0, x)
      [] k = "robidoux" -> BC(RobB, RobC, x)
      [] k = "robidouxsharp" -> BC(RobSB, RobSC, x)
      [] k = "hann" -> Hann(x)
      [] k = "bicubic" -> BiCubic(x)
      [] k = "hamming" -> Hamming(x)
      [] k = "hanning" -> Hanning(x)
      [] k = "blackman" -> Blackman(x)
      [] k = "welch" -> Welch(x)
      [] k = "quadric" -> Quadric(x)
      [] k = "gaussian" -> Gaussian(x)
      [] k = "sphinx" -> Sphinx(x)
      [] k = "bartlett" -> Bartlett(x)
      [] k = "bartletthann" -> BartlettHann(x)
      [] k = "kaiser" -> Kaiser(x)
      [] k = "bohman" -> Bohman(x)
      [] k = "spline16" -> Spline16(x)
      [] k = "spline36" -> Spline36(x)
      [] k = "spline64" -> Spline64(x)
      [] k = "lanczos2" -> Lanczos(2, x)
      [] k = "lanczos3" -> Lanczos(3, x)
      [] k = "lanczos4" -> Lanczos(4, x)
      [] k = "lanczos6" -> Lanczos(6, x)
      [] k = "lanczos2jinc" -> LanczosJinc(2, x)
      [] k = "lanczos3jinc" -> LanczosJinc(3, x)
      [] k = "lanczos4jinc" -> LanczosJinc(4, x)
      [] k = "lanczos6jinc" -> LanczosJinc(6, x)
      [] k = "lagrange2" -> Lagrange(2, x)
      [] k = "lagrange3" -> Lagrange(3, x)
      [] k = "sinc" -> Sinc(x)
      [] k = "jinc" -> Jinc(x)

NoWindow == [kernel |-> "none", size |-> F0, blur |-> F0]
Win(k, s, b) == [kernel |-> k, size |-> FS(s), blur |-> FS(b)]
Plain(name, k, t) == [name |-> name, kernel |-> k, taps |-> t, fixed |-> FALSE, ewa |-> FALSE, area |-> FALSE, window |-> NoWindow]
Fixed(name, k, t) == [Plain(name, k, t) EXCEPT !.fixed = TRUE]
Ewa(name, k, t) == [Plain(name, k, t) EXCEPT !.ewa = TRUE]
Windowed(d, w) == [d EXCEPT !.window = w]

Filter == <<
    Plain("Bilinear", "hat", 2), Plain("Nearest", "hat", 2), Plain("Cubic", "cubic", 2),
    Plain("MitchellNetravalli", "mitchell", 2), Plain("CatmullRom", "catmull", 2),
    Plain("Hermite", "hermite", 2), Plain("BSpline", "bspline", 2), Plain("Hann", "hann", 3),
    Plain("Bicubic", "bicubic", 2), Plain("Hamming", "hamming", 2), Plain("Hanning", "hanning", 2),
    Plain("Blackman", "blackman", 2), Plain("Welch", "welch", 2), Plain("Quadric", "quadric", 2),
    Plain("Gaussian", "gaussian", 2), Plain("Sphinx", "sphinx", 2), Plain("Bartlett", "bartlett", 2),
    Plain("Robidoux", "robidoux", 2), Plain("RobidouxSharp", "robidouxsharp", 2),
    Fixed("Spline16", "spline16", 2), Fixed("Spline36", "spline36", 4), Fixed("Spline64", "spline64", 6),
    Plain("Kaiser", "kaiser", 2), Plain("BartlettHann", "bartletthann", 2), Plain("Box", "box", 2),
    Plain("Bohman", "bohman", 2), Plain("Lanczos2", "lanczos2", 2), Plain("Lanczos3", "lanczos3", 3),
    Plain("Lanczos4", "lanczos4", 4), Plain("Lanczos2Jinc", "lanczos2jinc", 2),
    Plain("Lanczos3Jinc", "lanczos3jinc", 3), Plain("Lanczos4Jinc", "lanczos4jinc", 4),
    Windowed(Ewa("EwaHanning", "jinc", 1), Win("hanning", "2", "0")),
    Ewa("EwaRobidoux", "robidoux", 2), Ewa("EwaBlackman", "blackman", 2), Ewa("EwaQuadric", "quadric", 2),
    Ewa("EwaRobidouxSharp", "robidouxsharp", 2), Ewa("EwaLanczos3Jinc", "lanczos3jinc", 3),
    Windowed(Plain("Ginseng", "sinc", 3), Win("jinc", "3", "1")),
    Windowed(Ewa("EwaGinseng", "sinc", 3), Win("jinc", "3.2383154841662362", "1")),
    Windowed(Ewa("EwaLanczosSharp", "jinc", 3), Win("jinc", "3.2383154841662362", "0.9812505837223707")),
    Windowed(Ewa("EwaLanczos4Sharpest", "jinc", 4), Win("jinc", "4.2410628637960699", "0.8845120932605005")),
    Windowed(Ewa("EwaLanczosSoft", "jinc", 3), Win("jinc", "3.2383154841662362", "1.0164667662867047")),
    Windowed(Plain("HaasnSoft", "jinc", 3), Win("hanning", "3", "1.11")),
    Plain("Lagrange2", "lagrange2", 2), Plain("Lagrange3", "lagrange3", 3),
    Plain("Lanczos6", "lanczos6", 6), Plain("Lanczos6Jinc", "lanczos6jinc", 6),
    [Plain("Area", "box", 2) EXCEPT !.area = TRUE] >>

FilterOf(f) == Filter[f + 1]
Nearest == 1
================================================================================
