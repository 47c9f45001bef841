import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC override of module BigInt (see spec/BigInt.tla): the same functions on the
 *  same limb sequences, computed with java.math.BigInteger. */
public class BigInt {
    private static final BigInteger MASK = BigInteger.valueOf(32767);
    private static final int CACHE = 32768;
    private static final IntValue[] LIMB = new IntValue[CACHE];
    private static final IntValue MINUS = IntValue.gen(-1);
    static { for (int i = 0; i < CACHE; i++) LIMB[i] = IntValue.gen(i); }

    /** A canonical limb tuple that remembers the integer it denotes. */
    public static final class Big extends TupleValue {
        final BigInteger v;
        Big(BigInteger v, Value[] e) { super(e); this.v = v; }
    }

    static Value of(BigInteger v) {
        final int s = v.signum();
        if (s == 0) return new Big(v, new Value[] { LIMB[0] });
        final byte[] mag = v.abs().toByteArray();      // big-endian
        int bits = v.abs().bitLength();
        int n = (bits + 14) / 15;
        final Value[] e = new Value[n + 1];
        e[0] = s > 0 ? LIMB[1] : MINUS;
        long acc = 0; int nb = 0, k = 1;
        for (int i = mag.length - 1; i >= 0; i--) {
            acc |= ((long) (mag[i] & 0xff)) << nb; nb += 8;
            while (nb >= 15 && k <= n) { e[k++] = LIMB[(int) (acc & 32767)]; acc >>>= 15; nb -= 15; }
        }
        while (k <= n) { e[k++] = LIMB[(int) (acc & 32767)]; acc >>>= 15; }
        return new Big(v, e);
    }

    static BigInteger big(Value x) {
        if (x instanceof Big) return ((Big) x).v;
        final TupleValue t = (TupleValue) x.toTuple();
        if (t == null) throw new RuntimeException("BigInt: not a big integer: " + x);
        BigInteger v = BigInteger.ZERO;
        for (int i = t.elems.length - 1; i >= 1; i--)
            v = v.shiftLeft(15).add(BigInteger.valueOf(((IntValue) t.elems[i]).val));
        return ((IntValue) t.elems[0]).val < 0 ? v.negate() : v;
    }
    static int i(Value x) { return ((IntValue) x).val; }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value BFromInt(Value n) { return of(BigInteger.valueOf(i(n))); }
    public static Value BSgn(Value x) { return IntValue.gen(big(x).signum()); }
    public static Value BNeg(Value x) { return of(big(x).negate()); }
    public static Value BAbs(Value x) { return of(big(x).abs()); }
    public static Value BAdd(Value x, Value y) { return of(big(x).add(big(y))); }
    public static Value BSub(Value x, Value y) { return of(big(x).subtract(big(y))); }
    public static Value BMul(Value x, Value y) { return of(big(x).multiply(big(y))); }
    public static Value BCmp(Value x, Value y) { return IntValue.gen(big(x).compareTo(big(y))); }
    public static Value BLt(Value x, Value y) { return b(big(x).compareTo(big(y)) < 0); }
    public static Value BLe(Value x, Value y) { return b(big(x).compareTo(big(y)) <= 0); }
    public static Value BPow2(Value n) { return of(BigInteger.ONE.shiftLeft(i(n))); }
    public static Value BBits(Value x) { return IntValue.gen(big(x).abs().bitLength()); }
    private static BigInteger floorDiv(BigInteger x, BigInteger y) {
        final BigInteger[] qr = x.divideAndRemainder(y);
        return qr[1].signum() != 0 && qr[1].signum() != y.signum() ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }
    public static Value BDiv(Value x, Value y) { return of(floorDiv(big(x), big(y))); }
    public static Value BMod(Value x, Value y) {
        final BigInteger X = big(x), Y = big(y);
        return of(X.subtract(floorDiv(X, Y).multiply(Y)));
    }
    public static Value BShl(Value x, Value n) { return of(big(x).shiftLeft(i(n))); }
    public static Value BShr(Value x, Value n) { return of(big(x).shiftRight(i(n))); }
    public static Value BSqrt(Value x) { return of(big(x).sqrt()); }
    public static Value BToInt(Value x) {
        final BigInteger v = big(x);
        if (v.abs().bitLength() > 30) return IntValue.gen(v.signum() * 1073741823);
        return IntValue.gen(v.intValue());
    }
    public static Value BScaled(Value hi, Value lo, Value sh) {
        final BigInteger m = BigInteger.valueOf((long) i(hi) * (1L << 27) + i(lo));
        final int s = i(sh);
        return of(s >= 0 ? m.shiftLeft(s) : m.shiftRight(-s));
    }
}
