import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC override of the busiest operators of module Real (see spec/Real.tla): the
 *  same formulas, step by step, on java.math.BigInteger. */
public class Real {
    static final int P = 176;
    static final BigInteger ONE = BigInteger.ONE.shiftLeft(P), HALF = BigInteger.ONE.shiftLeft(P - 1);
    private static Value of(BigInteger v) { return BigInt.of(v); }
    private static BigInteger b(Value v) { return BigInt.big(v); }
    private static BigInteger n(long k) { return BigInteger.valueOf(k); }

    static BigInteger fdiv(BigInteger x, BigInteger y) {
        final BigInteger[] qr = x.divideAndRemainder(y);
        return qr[1].signum() != 0 && qr[1].signum() != y.signum() ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }
    static BigInteger mul(BigInteger x, BigInteger y) { return x.multiply(y).shiftRight(P); }
    static BigInteger div(BigInteger x, BigInteger y) {
        return y.signum() > 0 ? fdiv(x.shiftLeft(P), y) : fdiv(x.negate().shiftLeft(P), y.negate());
    }
    static BigInteger sqrt(BigInteger x) { return x.shiftLeft(P).sqrt(); }

    public static Value RMul(Value x, Value y) { return of(mul(b(x), b(y))); }
    public static Value RSqr(Value x) { final BigInteger v = b(x); return of(mul(v, v)); }
    public static Value RDiv(Value x, Value y) { return of(div(b(x), b(y))); }
    public static Value RSqrt(Value x) { return of(sqrt(b(x))); }
    public static Value RAdd(Value x, Value y) { return of(b(x).add(b(y))); }
    public static Value RSub(Value x, Value y) { return of(b(x).subtract(b(y))); }
    public static Value RNeg(Value x) { return of(b(x).negate()); }
    public static Value RAbs(Value x) { return of(b(x).abs()); }
    public static Value RDivI(Value x, Value k) { return of(fdiv(b(x), n(BigInt.i(k)))); }
    public static Value RMulI(Value x, Value k) { return of(b(x).multiply(n(BigInt.i(k)))); }
    public static Value RLt(Value x, Value y) { return BigInt.b(b(x).compareTo(b(y)) < 0); }
    public static Value RLe(Value x, Value y) { return BigInt.b(b(x).compareTo(b(y)) <= 0); }
    public static Value RMax(Value x, Value y) { return b(x).compareTo(b(y)) < 0 ? y : x; }

    private static BigInteger atanSer(BigInteger pow, BigInteger mx2) {
        BigInteger acc = BigInteger.ZERO;
        for (int k = 1; pow.signum() != 0 && k <= 401; k += 2) {
            acc = acc.add(fdiv(pow, n(k)));
            pow = mul(pow, mx2);
        }
        return acc;
    }
    private static BigInteger rq(long p, long q) { return fdiv(n(p).shiftLeft(P), n(q)); }
    static final BigInteger PI = atanSer(rq(1, 5), rq(1, 25).negate()).shiftLeft(2)
        .subtract(atanSer(rq(1, 239), mul(rq(1, 239), rq(1, 239)).negate())).shiftLeft(2);
    static final BigInteger PIHALF = PI.shiftRight(1);

    private static BigInteger atanUnit(BigInteger x) {
        if (x.signum() == 0) return x;
        for (int k = 4; k > 0; k--) x = div(x, ONE.add(sqrt(ONE.add(mul(x, x)))));
        return atanSer(x, mul(x, x).negate()).shiftLeft(4);
    }
    public static Value Atan2(Value yv, Value xv) {
        final BigInteger y = b(yv), x = b(xv), ax = x.abs(), ay = y.abs();
        if (x.signum() == 0 && y.signum() == 0) return of(BigInteger.ZERO);
        final BigInteger t = ay.compareTo(ax) <= 0 ? atanUnit(div(ay, ax)) : PIHALF.subtract(atanUnit(div(ax, ay)));
        final BigInteger u = x.signum() < 0 ? PI.subtract(t) : t;
        return of(y.signum() < 0 ? u.negate() : u);
    }
    private static BigInteger ser(BigInteger t, BigInteger mx2, int k) {
        BigInteger acc = BigInteger.ZERO;
        for (; t.signum() != 0 && k <= 120; k += 2) {
            acc = acc.add(t);
            t = fdiv(mul(t, mx2), n((long) (k + 1) * (k + 2)));
        }
        return acc;
    }
    public static Value SinCos(Value xv) {
        final BigInteger x = b(xv);
        final BigInteger q = fdiv(x.shiftLeft(P), PIHALF).add(HALF).shiftRight(P);
        final BigInteger r = x.subtract(q.multiply(PIHALF)), m = mul(r, r).negate();
        final BigInteger s = ser(r, m, 1), c = ser(ONE, m, 0);
        final int k = q.mod(n(4)).intValue();
        final BigInteger S = k == 0 ? s : k == 1 ? c : k == 2 ? s.negate() : c.negate();
        final BigInteger C = k == 0 ? c : k == 1 ? s.negate() : k == 2 ? c.negate() : s;
        return new TupleValue(new Value[] { of(S), of(C) });
    }
}
