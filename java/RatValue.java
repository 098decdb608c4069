import java.math.BigInteger;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;
import tlc2.util.FP64;

/**
 * A TLC value holding an exact rational number (or "not a number").
 * It implements the abstract data type specified in spec/Rat.tla.
 */
public final class RatValue extends Value {
  final BigInteger n, d; // lowest terms, d > 0; d == null encodes NaN

  static final RatValue NAN = new RatValue();
  static final RatValue ZERO = new RatValue(BigInteger.ZERO, BigInteger.ONE, true);
  static final RatValue ONE = new RatValue(BigInteger.ONE, BigInteger.ONE, true);

  private RatValue() { n = BigInteger.ZERO; d = null; }

  private RatValue(BigInteger n, BigInteger d, boolean normalized) { this.n = n; this.d = d; }

  static RatValue of(BigInteger n, BigInteger d) {
    int s = d.signum();
    if (s == 0) return NAN;
    if (s < 0) { n = n.negate(); d = d.negate(); }
    if (n.signum() == 0) return ZERO;
    // powers of two are by far the most common denominators (floating point input)
    int tz = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
    if (tz > 0) { n = n.shiftRight(tz); d = d.shiftRight(tz); }
    if (d.bitLength() > 1 && d.bitCount() > 1) {
      int two = d.getLowestSetBit();
      BigInteger g = n.gcd(two > 0 ? d.shiftRight(two) : d);
      if (g.bitLength() > 1) { n = n.divide(g); d = d.divide(g); }
    }
    return new RatValue(n, d, true);
  }

  static RatValue of(BigInteger n) { return new RatValue(n, BigInteger.ONE, true); }

  boolean isNaN() { return d == null; }

  RatValue add(RatValue o) {
    if (isNaN() || o.isNaN()) return NAN;
    if (d.equals(o.d)) return of(n.add(o.n), d);
    if (d.bitCount() == 1 && o.d.bitCount() == 1) { // both dyadic
      int a = d.getLowestSetBit(), b = o.d.getLowestSetBit();
      return a >= b ? of(n.add(o.n.shiftLeft(a - b)), d) : of(n.shiftLeft(b - a).add(o.n), o.d);
    }
    return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
  }
  RatValue neg() { return isNaN() ? NAN : new RatValue(n.negate(), d, true); }
  RatValue sub(RatValue o) { return add(o.neg()); }
  RatValue mul(RatValue o) {
    if (isNaN() || o.isNaN()) return NAN;
    return of(n.multiply(o.n), d.multiply(o.d));
  }
  RatValue div(RatValue o) {
    if (isNaN() || o.isNaN() || o.n.signum() == 0) return NAN;
    return of(n.multiply(o.d), d.multiply(o.n));
  }
  RatValue abs() { return isNaN() ? NAN : new RatValue(n.abs(), d, true); }
  RatValue pow(int e) {
    if (isNaN()) return NAN;
    if (e < 0) return ONE.div(pow(-e));
    return new RatValue(n.pow(e), d.pow(e), true);
  }
  int cmp(RatValue o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
  BigInteger floor() {
    BigInteger[] qr = n.divideAndRemainder(d);
    return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }

  @Override public byte getKind() { return USERVALUE; }
  @Override public int compareTo(Object o) {
    RatValue r = Rat.rat((Value) o);
    if (isNaN() || r.isNaN()) return isNaN() ? (r.isNaN() ? 0 : -1) : 1;
    return cmp(r);
  }
  @Override public boolean equals(Object o) {
    if (!(o instanceof RatValue || o instanceof IntValue)) return false;
    return compareTo(o) == 0;
  }
  @Override public boolean member(Value v) { throw new RuntimeException("x \\in rational"); }
  @Override public boolean isFinite() { throw new RuntimeException("IsFiniteSet(rational)"); }
  @Override public Value takeExcept(ValueExcept ex) {
    if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on rational");
    return ex.value;
  }
  @Override public Value takeExcept(ValueExcept[] exs) {
    Value v = this;
    for (ValueExcept ex : exs) v = v.takeExcept(ex);
    return v;
  }
  @Override public int size() { throw new RuntimeException("Cardinality(rational)"); }
  @Override public boolean mutates() { return false; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public void write(IValueOutputStream out) {
    throw new RuntimeException("rational values must not be stored in states");
  }
  @Override public long fingerPrint(long fp) { return FP64.Extend(fp, text()); }
  @Override public IValue permute(IMVPerm perm) { return this; }
  String text() {
    if (isNaN()) return "NaN";
    return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d;
  }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return sb.append(text());
  }
}
