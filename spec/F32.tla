---------------------------------- MODULE F32 ----------------------------------
(***************************************************************************)
(* IEEE-754 single precision arithmetic for TLC.                           *)
(*                                                                         *)
(* TLC has neither reals nor 64 bit integers, and the filters of pic-scale *)
(* are defined over float32: where a tap window starts and ends is decided *)
(* by the float32 value of (i + 1/2) * in / out.  A value here is the bit  *)
(* pattern of a float32, held as a TLC integer.  Every operator below is   *)
(* evaluated by the class of the same name (java/F32.java); its comment    *)
(* is its definition, with R(x) the real number x stands for and rnd the   *)
(* round-to-nearest-even of a real number to float32.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

FI(i)      == CHOOSE x \in Int : TRUE   \* rnd(i), i an integer
FS(s)      == CHOOSE x \in Int : TRUE   \* rnd of the decimal number written in the string s
FQ(a, b)   == CHOOSE x \in Int : TRUE   \* rnd(rnd(a) / rnd(b)), a and b integers
FAdd(x, y) == CHOOSE z \in Int : TRUE   \* rnd(R(x) + R(y))
FSub(x, y) == CHOOSE z \in Int : TRUE
FMul(x, y) == CHOOSE z \in Int : TRUE
FDiv(x, y) == CHOOSE z \in Int : TRUE
FNeg(x)    == CHOOSE z \in Int : TRUE
FAbs(x)    == CHOOSE z \in Int : TRUE
FMax(x, y) == CHOOSE z \in Int : TRUE
FMin(x, y) == CHOOSE z \in Int : TRUE
FLt(x, y)  == CHOOSE b \in BOOLEAN : TRUE
FLe(x, y)  == CHOOSE b \in BOOLEAN : TRUE
FEq(x, y)  == CHOOSE b \in BOOLEAN : TRUE
FSin(x)    == CHOOSE z \in Int : TRUE   \* rnd(sin R(x)), and so on
FCos(x)    == CHOOSE z \in Int : TRUE
FExp(x)    == CHOOSE z \in Int : TRUE
FSqrt(x)   == CHOOSE z \in Int : TRUE
FPow(x, y) == CHOOSE z \in Int : TRUE
FJ1(x)     == CHOOSE z \in Int : TRUE   \* Bessel function of the first kind, order 1
FFloor(x)  == CHOOSE i \in Int : TRUE   \* an integer
FCeil(x)   == CHOOSE i \in Int : TRUE
FRound(x)  == CHOOSE i \in Int : TRUE   \* half away from zero
FScale(x, k) == CHOOSE i \in Int : TRUE \* the integer nearest to k * R(x), saturated to 31 bits

(***************************************************************************)
(* Sums of products, evaluated in double precision.                        *)
(* Dot(w, v, o, k, q): w a sequence of float32 (q = 0) or of integers that *)
(*   stand for multiples of 2^-q; v a sequence of integers; the integer    *)
(*   nearest to 1000 * SUM_j w[j] * v[o + (j-1)*k] , saturated to 31 bits. *)
(* AbsSum(w): the integer nearest to 1000 * SUM_j |w[j]|, saturated.        *)
(***************************************************************************)
Dot(w, v, o, k, q) == CHOOSE i \in Int : TRUE
AbsSum(w)          == CHOOSE i \in Int : TRUE
(***************************************************************************)
(* The weights w in 16 bit fixed point: integers for multiples of 2^-15.    *)
(* What rounding a weight loses is carried to the next one, so the sum of a *)
(* row is kept:  c[0] = 0,  x[j] = w[j] * 2^15 + c[j-1],                    *)
(*   y[j] = round(x[j]),  c[j] = x[j] - y[j],                               *)
(*   InFixed(w)[j] = clamp(y[j], -2^15, 2^15 - 1), unless some weight is     *)
(* beyond one in magnitude and does not fit: then y itself.                 *)
(***************************************************************************)
InFixed(w)          == CHOOSE s \in Seq(Int) : Len(s) = Len(w)
\* the integer nearest to a * b / c (half up), saturated to 31 bits; exact 64 bit arithmetic
MulDiv(a, b, c)    == CHOOSE i \in Int : TRUE
================================================================================
