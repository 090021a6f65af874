import tlc2.value.impl.*;

/** The operators of F32.tla. */
public class F32 {
    private static float f(Value v) { return Float.intBitsToFloat(((IntValue) v).val); }
    private static int n(Value v) { return ((IntValue) v).val; }
    private static Value r(float x) { return IntValue.gen(Float.floatToIntBits(x)); }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Value sat(double d) {
        if (Double.isNaN(d)) return IntValue.gen(Integer.MAX_VALUE);
        return IntValue.gen((int) Math.max(-2147483646.0, Math.min(2147483646.0, Math.rint(d))));
    }

    public static Value FI(Value i) { return r((float) n(i)); }
    public static Value FS(Value s) { return r(Float.parseFloat(((StringValue) s).val.toString())); }
    public static Value FQ(Value a, Value c) { return r((float) n(a) / (float) n(c)); }
    public static Value FAdd(Value x, Value y) { return r(f(x) + f(y)); }
    public static Value FSub(Value x, Value y) { return r(f(x) - f(y)); }
    public static Value FMul(Value x, Value y) { return r(f(x) * f(y)); }
    public static Value FDiv(Value x, Value y) { return r(f(x) / f(y)); }
    public static Value FNeg(Value x) { return r(-f(x)); }
    public static Value FAbs(Value x) { return r(Math.abs(f(x))); }
    public static Value FMax(Value x, Value y) { return r(Math.max(f(x), f(y))); }
    public static Value FMin(Value x, Value y) { return r(Math.min(f(x), f(y))); }
    public static Value FLt(Value x, Value y) { return b(f(x) < f(y)); }
    public static Value FLe(Value x, Value y) { return b(f(x) <= f(y)); }
    public static Value FEq(Value x, Value y) { return b(f(x) == f(y)); }
    public static Value FSin(Value x) { return r((float) Math.sin(f(x))); }
    public static Value FCos(Value x) { return r((float) Math.cos(f(x))); }
    public static Value FExp(Value x) { return r((float) Math.exp(f(x))); }
    public static Value FSqrt(Value x) { return r((float) Math.sqrt(f(x))); }
    public static Value FPow(Value x, Value y) { return r((float) Math.pow(f(x), f(y))); }
    public static Value FJ1(Value x) { return r((float) j1(f(x))); }
    public static Value FFloor(Value x) { return IntValue.gen((int) Math.floor(f(x))); }
    public static Value FCeil(Value x) { return IntValue.gen((int) Math.ceil(f(x))); }
    public static Value FRound(Value x) {
        double d = f(x);
        return IntValue.gen((int) (d < 0 ? -Math.floor(-d + 0.5) : Math.floor(d + 0.5)));
    }
    public static Value FScale(Value x, Value k) { return sat((double) f(x) * n(k)); }

    /** J1 by its integral (1/pi) int_0^pi cos(t - x sin t) dt: the trapezoidal rule converges geometrically. */
    private static double j1(double x) {
        int m = 256;
        double s = 0;
        for (int k = 0; k < m; k++) {
            double t = Math.PI * 2 * k / m;
            s += Math.cos(t - x * Math.sin(t));
        }
        return s / m;
    }

    private static int[] seq(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        int[] a = new int[t.elems.length];
        for (int i = 0; i < a.length; i++) a[i] = ((IntValue) t.elems[i]).val;
        return a;
    }
    public static Value Dot(Value w, Value v, Value o, Value k, Value q) {
        TupleValue wt = (TupleValue) w.toTuple();
        TupleValue vt = (TupleValue) v.toTuple();
        double s = 0;
        int fo = n(o), st = n(k), fq = n(q);
        double sc = fq == 0 ? 1 : Math.scalb(1.0, -fq);
        for (int j = 0; j < wt.elems.length; j++) {
            int wb = ((IntValue) wt.elems[j]).val;
            double x = fq == 0 ? Float.intBitsToFloat(wb) : wb * sc;
            s += x * ((IntValue) vt.elems[fo - 1 + j * st]).val;
        }
        return sat(s * 1000);
    }
    public static Value AbsSum(Value w) {
        double s = 0;
        for (int x : seq(w)) s += Math.abs((double) Float.intBitsToFloat(x));
        return sat(s * 1000);
    }
    public static Value InFixed(Value w) {
        int[] a = seq(w);
        Value[] o = new Value[a.length];
        float carry = 0;
        boolean fits = true;    // a tap above one does not fit 16 bits: such a row is kept exact
        for (int x : a) fits &= Math.abs(Math.round(Float.intBitsToFloat(x) * 32768.0)) <= 32768;
        for (int j = 0; j < a.length; j++) {
            float x = Float.intBitsToFloat(a[j]) * 32768f + carry;
            float y = (float) (x < 0 ? -Math.floor(-(double) x + 0.5) : Math.floor((double) x + 0.5));
            carry = x - y;
            o[j] = IntValue.gen((int) (fits ? Math.max(-32768f, Math.min(32767f, y)) : y));
        }
        return new TupleValue(o);
    }
    public static Value MulDiv(Value a, Value b2, Value c) {
        long p = 2L * n(a) * n(b2) + n(c), d = 2L * n(c);
        long q = Math.floorDiv(p, d);
        return IntValue.gen((int) Math.max(-2147483646L, Math.min(2147483646L, q)));
    }
}
