// TLC evaluation of spec/Dec.tla's definitions with arbitrary precision.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Dec {
  private static final BigInteger E9 = BigInteger.valueOf(1000000000L);
  private static final BigInteger E12 = BigInteger.valueOf(1000000000000L);
  private static final BigInteger TWO = BigInteger.valueOf(2);

  private static long num(Value x) {
    return ((IntValue) x).val;
  }
  private static long val(Value a) {
    TupleValue t = (TupleValue) ((a instanceof TupleValue) ? a : a.toTuple());
    return Math.addExact(Math.multiplyExact(num((Value) t.elems[0]), 1000000000L), num((Value) t.elems[1]));
  }
  private static Value mk(long v) {
    long h = Math.floorDiv(v, 1000000000L);
    long l = Math.floorMod(v, 1000000000L);
    if (h > Integer.MAX_VALUE || h < Integer.MIN_VALUE) throw new RuntimeException("Dec overflow: " + v);
    return new TupleValue(new Value[] {IntValue.gen((int) h), IntValue.gen((int) l)});
  }
  private static Value mk(BigInteger v) {
    return mk(v.longValueExact());
  }
  private static BigInteger floorDiv(BigInteger p, BigInteger q) {
    BigInteger[] r = p.divideAndRemainder(q);
    if (r[1].signum() != 0 && (r[1].signum() != q.signum())) return r[0].subtract(BigInteger.ONE);
    return r[0];
  }
  private static BigInteger rdiv(BigInteger p, BigInteger q) {
    if (q.signum() < 0) { p = p.negate(); q = q.negate(); }
    return floorDiv(p.multiply(TWO).add(q), q.multiply(TWO));
  }
  private static BigInteger big(long x) { return BigInteger.valueOf(x); }
  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value DInt(Value n) { return mk(Math.multiplyExact(num(n), 1000000000000L)); }
  public static Value DRat(Value p, Value q) { return mk(rdiv(big(num(p)).multiply(E12), big(num(q)))); }
  public static Value DAdd(Value a, Value b) { return mk(Math.addExact(val(a), val(b))); }
  public static Value DSub(Value a, Value b) { return mk(Math.subtractExact(val(a), val(b))); }
  public static Value DNeg(Value a) { return mk(Math.negateExact(val(a))); }
  public static Value DMul(Value a, Value b) { return mk(rdiv(big(val(a)).multiply(big(val(b))), E12)); }
  public static Value DDiv(Value a, Value b) { return mk(rdiv(big(val(a)).multiply(E12), big(val(b)))); }
  public static Value DLe(Value a, Value b) { return bool(val(a) <= val(b)); }
  public static Value DLt(Value a, Value b) { return bool(val(a) < val(b)); }
  public static Value DSign(Value a) { return IntValue.gen(Long.signum(val(a))); }
  public static Value DDot(Value a1, Value b1, Value a2, Value b2) {
    return mk(rdiv(big(val(a1)).multiply(big(val(b1))).add(big(val(a2)).multiply(big(val(b2)))), E12));
  }
  public static Value DLerp(Value a, Value va, Value b, Value vb) {
    BigInteger x = big(val(va)), y = big(val(vb));
    return mk(rdiv(big(val(a)).multiply(y).subtract(big(val(b)).multiply(x)), y.subtract(x)));
  }
  private static Value el(Value p, int i) {
    TupleValue t = (TupleValue) ((p instanceof TupleValue) ? p : p.toTuple());
    return (Value) t.elems[i];
  }
  public static Value DOrient(Value p, Value q, Value r) {
    BigInteger px = big(val(el(p, 0))), py = big(val(el(p, 1)));
    BigInteger c = big(val(el(q, 0))).subtract(px).multiply(big(val(el(r, 1))).subtract(py))
        .subtract(big(val(el(q, 1))).subtract(py).multiply(big(val(el(r, 0))).subtract(px)));
    return IntValue.gen(c.signum());
  }
}
