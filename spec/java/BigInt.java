import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC module override for BigInt.tla (decimal strings). */
public class BigInt {
    private static BigInteger b(Value v) {
        if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        throw new RuntimeException("BigInt: not a number: " + v);
    }
    private static Value v(BigInteger x) { return new StringValue(x.toString()); }
    private static Value t(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value BAdd(Value a, Value c) { return v(b(a).add(b(c))); }
    public static Value BSub(Value a, Value c) { return v(b(a).subtract(b(c))); }
    public static Value BMul(Value a, Value c) { return v(b(a).multiply(b(c))); }
    public static Value BDiv(Value a, Value c) {
        BigInteger[] q = b(a).divideAndRemainder(b(c));
        BigInteger r = q[0];
        if (q[1].signum() != 0 && (q[1].signum() != b(c).signum())) r = r.subtract(BigInteger.ONE);
        return v(r);
    }
    public static Value BMod(Value a, Value c) { return v(b(a).mod(b(c))); }
    public static Value BLt(Value a, Value c) { return t(b(a).compareTo(b(c)) < 0); }
    public static Value BLe(Value a, Value c) { return t(b(a).compareTo(b(c)) <= 0); }
    public static Value BPow(Value a, Value n) { return v(b(a).pow(b(n).intValueExact())); }
    public static Value BI(Value n) { return v(b(n)); }
    public static Value ToI(Value a) { return IntValue.gen(b(a).intValueExact()); }
    public static Value SLt(Value a, Value c) {
        return t(((StringValue) a).val.toString().compareTo(((StringValue) c).val.toString()) < 0);
    }
    public static Value Same(Value a, Value c) {
        try { return t(a.equals(c)); } catch (Throwable e) { return BoolValue.ValFalse; }
    }
}
