import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC evaluation of the operators declared in spec/Rat.tla (exact big rationals). */
public final class Rat {
  private static final int P = 240; // binary digits kept by the approximating operators
  private static final BigInteger UNIT = BigInteger.ONE.shiftLeft(P);

  static RatValue rat(Value v) {
    if (v instanceof RatValue) return (RatValue) v;
    if (v instanceof IntValue) return RatValue.of(BigInteger.valueOf(((IntValue) v).val));
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    throw new RuntimeException("not a number: " + v);
  }

  private static RatValue parse(String s) {
    s = s.trim();
    try {
      int k = s.indexOf('/');
      if (k >= 0) return RatValue.of(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
      BigDecimal x = new BigDecimal(s);
      BigInteger u = x.unscaledValue();
      return x.scale() >= 0 ? RatValue.of(u, BigInteger.TEN.pow(x.scale()))
                            : RatValue.of(u.multiply(BigInteger.TEN.pow(-x.scale())));
    } catch (NumberFormatException e) {
      return RatValue.NAN; // "nan", "inf", "error"
    }
  }

  private static Value[] elems(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value R(Value a) { return rat(a); }
  public static Value RIsNum(Value a) { return bool(!rat(a).isNaN()); }
  public static Value RAdd(Value a, Value b) { return rat(a).add(rat(b)); }
  public static Value RSub(Value a, Value b) { return rat(a).sub(rat(b)); }
  public static Value RMul(Value a, Value b) { return rat(a).mul(rat(b)); }
  public static Value RDiv(Value a, Value b) { return rat(a).div(rat(b)); }
  public static Value RNeg(Value a) { return rat(a).neg(); }
  public static Value RAbs(Value a) { return rat(a).abs(); }
  public static Value RPow(Value a, Value e) { return rat(a).pow(((IntValue) e).val); }
  public static Value RLt(Value a, Value b) {
    RatValue x = rat(a), y = rat(b);
    return bool(!x.isNaN() && !y.isNaN() && x.cmp(y) < 0);
  }
  public static Value RLe(Value a, Value b) {
    RatValue x = rat(a), y = rat(b);
    return bool(!x.isNaN() && !y.isNaN() && x.cmp(y) <= 0);
  }
  public static Value REq(Value a, Value b) {
    RatValue x = rat(a), y = rat(b);
    return bool(!x.isNaN() && !y.isNaN() && x.cmp(y) == 0);
  }
  public static Value RFloor(Value a) { return IntValue.gen(rat(a).floor().intValueExact()); }
  public static Value RSum(Value s) {
    RatValue r = RatValue.ZERO;
    for (Value v : elems(s)) r = r.add(rat(v));
    return r;
  }
  public static Value RDot(Value s, Value t) {
    Value[] x = elems(s), y = elems(t);
    if (x.length != y.length) throw new RuntimeException("RDot: lengths differ");
    RatValue r = RatValue.ZERO;
    for (int i = 0; i < x.length; i++) r = r.add(rat(x[i]).mul(rat(y[i])));
    return r;
  }
  public static Value RMaxAbs(Value s) {
    RatValue r = RatValue.ZERO;
    for (Value v : elems(s)) {
      RatValue x = rat(v).abs();
      if (x.isNaN()) return x;
      if (x.cmp(r) > 0) r = x;
    }
    return r;
  }
  public static Value RStr(Value a) {
    RatValue x = rat(a);
    if (x.isNaN()) return new StringValue("NaN");
    return new StringValue(Double.toString(
        new BigDecimal(x.n).divide(new BigDecimal(x.d), new java.math.MathContext(25)).doubleValue()));
  }

  // ---- approximating operators: results are within 2^-200 of the true value -----------------
  private static BigInteger fix(RatValue x) { return x.n.shiftLeft(P).divide(x.d); }
  private static RatValue unfix(BigInteger f) { return RatValue.of(f, UNIT); }

  public static Value RRound(Value a) {
    RatValue x = rat(a);
    if (x.isNaN() || x.d.bitLength() <= P) return x;
    return unfix(fix(x));
  }

  public static Value RSqrt(Value a) {
    RatValue x = rat(a);
    if (x.isNaN() || x.n.signum() < 0) return RatValue.NAN;
    return RatValue.of(x.n.shiftLeft(2 * P).divide(x.d).sqrt(), UNIT);
  }

  private static BigInteger atanhSeries2(BigInteger num, BigInteger den) { // 2 atanh(num/den), |num/den| <= 1/2
    BigInteger t = num.shiftLeft(P).divide(den);
    BigInteger t2 = t.multiply(t).shiftRight(P);
    BigInteger sum = BigInteger.ZERO, p = t;
    for (int k = 1; p.signum() != 0 && p.bitLength() > 1; k += 2) {
      sum = sum.add(p.divide(BigInteger.valueOf(k)));
      p = p.multiply(t2).shiftRight(P);
    }
    return sum.shiftLeft(1);
  }
  private static final BigInteger LN2 = atanhSeries2(BigInteger.ONE, BigInteger.valueOf(3));

  public static Value RLog(Value a) {
    RatValue x = rat(a);
    if (x.isNaN() || x.n.signum() <= 0) return RatValue.NAN;
    int e = x.n.bitLength() - x.d.bitLength();
    BigInteger n = x.n, d = x.d;
    if (e > 0) d = d.shiftLeft(e); else n = n.shiftLeft(-e); // n/d in (1/2, 2)
    return unfix(atanhSeries2(n.subtract(d), n.add(d)).add(LN2.multiply(BigInteger.valueOf(e))));
  }

  public static Value RExp(Value a) {
    RatValue x = rat(a);
    if (x.isNaN()) return RatValue.NAN;
    if (x.n.signum() > 0) return RatValue.ONE.div((RatValue) RExp(x.neg()));
    // exp(x) for x <= 0: halve the argument m times, Taylor, square m times
    int m = Math.max(0, x.n.bitLength() - x.d.bitLength() + 2) + 8;
    if (m > 40) return RatValue.ZERO; // x < -2^30
    int Q = P + m + 16;
    BigInteger t = x.n.shiftLeft(Q).divide(x.d.shiftLeft(m));
    BigInteger sum = BigInteger.ONE.shiftLeft(Q), term = sum;
    for (int k = 1; ; k++) {
      term = term.multiply(t).shiftRight(Q).divide(BigInteger.valueOf(k));
      if (term.bitLength() <= 1) break;
      sum = sum.add(term);
    }
    for (int i = 0; i < m; i++) sum = sum.multiply(sum).shiftRight(Q);
    return RatValue.of(sum, BigInteger.ONE.shiftLeft(Q));
  }
}
