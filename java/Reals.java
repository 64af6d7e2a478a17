import tlc2.value.impl.*;
import util.UniqueString;

/**
 * TLC module override for spec/Reals.tla: IEEE-754 binary64 arithmetic.
 *
 * A real is the pair << hi, lo >> of the two signed 32-bit halves of its
 * IEEE-754 bit pattern, so that it survives TLC's 32-bit integers and the JSON
 * reader bit for bit.  Only arithmetic lives here; every formula about
 * boundaries, times, or vectors is written in TLA+.
 */
public class Reals {
    private static double d(Value v) {
        if (v instanceof IntValue) {
            return ((IntValue) v).val;
        }
        TupleValue t = (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val;
        long lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
        return Double.longBitsToDouble((hi << 32) | lo);
    }

    private static Value v(double x) {
        if (x == 0.0) {
            x = 0.0;
        }
        long b = Double.doubleToLongBits(x);
        return new TupleValue(new Value[] {
            IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
    }

    private static Value b(boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static int i(Value v) {
        return ((IntValue) v).val;
    }

    private static double pymod(double a, double m) {
        double r = a % m;
        if (r != 0.0 && ((r < 0.0) != (m < 0.0))) {
            r += m;
        }
        return r;
    }

    public static Value RInt(Value n) { return v(i(n)); }
    public static Value RFrac(Value n, Value m) { return v((double) i(n) / i(m)); }
    public static Value RAdd(Value x, Value y) { return v(d(x) + d(y)); }
    public static Value RSub(Value x, Value y) { return v(d(x) - d(y)); }
    public static Value RMul(Value x, Value y) { return v(d(x) * d(y)); }
    public static Value RDiv(Value x, Value y) { return v(d(x) / d(y)); }
    public static Value RNeg(Value x) { return v(-d(x)); }
    public static Value RAbs(Value x) { return v(Math.abs(d(x))); }
    public static Value RSqrt(Value x) { return v(Math.sqrt(d(x))); }
    public static Value RHypot(Value x, Value y) { return v(StrictMath.hypot(d(x), d(y))); }
    public static Value RSin(Value x) { return v(StrictMath.sin(d(x))); }
    public static Value RCos(Value x) { return v(StrictMath.cos(d(x))); }
    public static Value RAsin(Value x) { return v(StrictMath.asin(d(x))); }
    public static Value RAcos(Value x) { return v(StrictMath.acos(d(x))); }
    public static Value RAtan2(Value y, Value x) { return v(StrictMath.atan2(d(y), d(x))); }
    public static Value RMod(Value x, Value y) { return v(pymod(d(x), d(y))); }
    public static Value RFloor(Value x) { return v(Math.floor(d(x))); }
    public static Value RToInt(Value x) { return IntValue.gen((int) Math.rint(d(x))); }
    public static Value RPow10(Value n) { return v(StrictMath.pow(10.0, i(n))); }
    public static Value RPi() { return v(Math.PI); }
    public static Value RNaN() { return v(Double.NaN); }
    public static Value RIsNaN(Value x) { return b(Double.isNaN(d(x))); }
    public static Value RIsFinite(Value x) { return b(!Double.isNaN(d(x)) && !Double.isInfinite(d(x))); }
    public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
    public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
    public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
    public static Value RStr(Value x) { return new StringValue(Double.toString(d(x))); }
    /** Value of a decimal literal, as the correctly rounded double; NaN if it is not one. */
    public static Value RParse(Value s) {
        try {
            return v(Double.parseDouble(((StringValue) s).getVal().toString().trim()));
        } catch (NumberFormatException e) {
            return v(Double.NaN);
        }
    }
}
