// Evaluates the operators of spec/Flt.tla for TLC: one IEEE-754 operation each.
import tlc2.value.impl.*;

public class Flt {
    static long word(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        long r = 0;
        for (int i = t.elems.length - 1; i >= 0; i--) r = (r << 8) | (((IntValue) t.elems[i]).val & 0xFF);
        return r;
    }
    static TupleValue tup(long w, int n) {
        Value[] e = new Value[n];
        for (int i = 0; i < n; i++) e[i] = IntValue.gen((int) ((w >>> (8 * i)) & 0xFF));
        return new TupleValue(e);
    }
    static double d(Value v) { return Double.longBitsToDouble(word(v)); }
    static Value r(double x) { return tup(Double.doubleToRawLongBits(x), 8); }
    static float f(Value v) { return Float.intBitsToFloat((int) word(v)); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value FAdd(Value a, Value b) { return r(d(a) + d(b)); }
    public static Value FSub(Value a, Value b) { return r(d(a) - d(b)); }
    public static Value FMul(Value a, Value b) { return r(d(a) * d(b)); }
    public static Value FDiv(Value a, Value b) { return r(d(a) / d(b)); }
    public static Value FNeg(Value a) { return tup(word(a) ^ 0x8000000000000000L, 8); }
    public static Value FAbs(Value a) { return tup(word(a) & 0x7FFFFFFFFFFFFFFFL, 8); }
    public static Value FSqrt(Value a) { return r(Math.sqrt(d(a))); }
    public static Value FFloor(Value a) { return r(Math.floor(d(a))); }
    public static Value FTrunc(Value a) { double x = d(a); return r(x < 0 ? Math.ceil(x) : Math.floor(x)); }
    public static Value FEq(Value a, Value b) { return b(d(a) == d(b)); }
    public static Value FLt(Value a, Value b) { return b(d(a) < d(b)); }
    public static Value FLe(Value a, Value b) { return b(d(a) <= d(b)); }
    public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value I2F(Value a) { return r((double) word(a)); }
    public static Value U2F(Value a) {
        return r(new java.math.BigDecimal(new java.math.BigInteger(Long.toUnsignedString(word(a)))).doubleValue());
    }
    public static Value F2I(Value a) { return tup((long) d(a), 8); }
    public static Value F2U(Value a) {
        return tup(new java.math.BigDecimal(d(a)).toBigInteger().longValue(), 8);
    }
    public static Value FPow2(Value n) { return r(Math.scalb(1.0, ((IntValue) n).val)); }
    public static Value F64of32(Value a) {
        int i = (int) word(a);
        if (Float.isNaN(Float.intBitsToFloat(i))) { // keep sign and payload, quiet
            long s = ((long) i & 0x80000000L) << 32;
            return tup(s | 0x7FF8000000000000L | (((long) i & 0x3FFFFFL) << 29), 8);
        }
        return r((double) Float.intBitsToFloat(i));
    }
    public static Value F32of64(Value a) {
        long w = word(a);
        double x = Double.longBitsToDouble(w);
        if (Double.isNaN(x)) {
            int s = (int) ((w >>> 32) & 0x80000000L);
            return tup((s | 0x7FC00000 | (int) ((w >>> 29) & 0x3FFFFF)) & 0xFFFFFFFFL, 4);
        }
        return tup(Float.floatToRawIntBits((float) x) & 0xFFFFFFFFL, 4);
    }
    public static Value FSub32(Value a, Value b) { return tup(Float.floatToRawIntBits(f(a) - f(b)) & 0xFFFFFFFFL, 4); }
    public static Value FOfRatio(Value n, Value m) { return r((double) ((IntValue) n).val / (double) ((IntValue) m).val); }
    public static Value FOfDec(Value s) { return r(Double.parseDouble(((StringValue) s).val.toString())); }
    public static Value FSin(Value a) { return r(StrictMath.sin(d(a))); }
    public static Value FCos(Value a) { return r(StrictMath.cos(d(a))); }
    public static Value FTan(Value a) { return r(StrictMath.tan(d(a))); }
    public static Value FLog(Value a) { return r(StrictMath.log(d(a))); }
    public static Value FPow(Value a, Value b) { double x = d(a), y = d(b); return r(x == 1.0 || (x == -1.0 && Double.isInfinite(y)) ? 1.0 : StrictMath.pow(x, y));  /* as in C */ }
    public static Value FClose(Value a, Value b) {
        double x = d(a), y = d(b);
        if (x == y || (Double.isNaN(x) && Double.isNaN(y))) return BoolValue.ValTrue;
        return b(Math.abs(x - y) <= 1e-12 * Math.max(Math.abs(x), Math.abs(y)));
    }
}
