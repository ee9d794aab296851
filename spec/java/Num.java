import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;

/** Exact 64-bit evaluation of the operators of Num.tla, whose intermediate products do not fit TLC's 32-bit integers. */
public class Num {
  private static long i(Value v) { return ((IntValue) v).val; }
  private static IntValue r(long x) {
    if (x > 2000000000L) x = 2000000000L;
    if (x < -2000000000L) x = -2000000000L;
    return IntValue.gen((int) x);
  }
  private static long rdiv(long p, long q) { // nearest, halves away from zero
    long a = Math.abs(p), h = (2 * a + q) / (2 * q);
    return p < 0 ? -h : h;
  }
  public static Value RDiv(Value p, Value q) { return r(rdiv(i(p), i(q))); }
  public static Value MulDiv(Value a, Value b, Value c) { return r(rdiv(i(a) * i(b), i(c))); }
  public static Value MulDiv2(Value a, Value b, Value c, Value d) {
    return r(new java.math.BigDecimal(i(a)).multiply(new java.math.BigDecimal(i(b)))
      .divide(new java.math.BigDecimal(i(c)).multiply(new java.math.BigDecimal(i(d))), 0, java.math.RoundingMode.HALF_UP).longValue());
  }
  public static Value MulMulDiv(Value a, Value b, Value e, Value c, Value d) {
    return r(new java.math.BigDecimal(i(a)).multiply(new java.math.BigDecimal(i(b))).multiply(new java.math.BigDecimal(i(e)))
      .divide(new java.math.BigDecimal(i(c)).multiply(new java.math.BigDecimal(i(d))), 0, java.math.RoundingMode.HALF_UP).longValue());
  }
  public static Value SqrtMicro(Value x) { return r((long) Math.floor(Math.sqrt((double) i(x) * 1e6))); }
  public static Value Asinh(Value x) {
    double v = i(x) * 1e-7, a = Math.abs(v), y = Math.log(a + Math.sqrt(a * a + 1)) * 1e8;
    return r(Math.round(v < 0 ? -y : y));
  }
}
