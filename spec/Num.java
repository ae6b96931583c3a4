// Implementation of the operators of Num.tla for TLC.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.RoundingMode;
import tlc2.value.impl.*;

public class Num {
  // A rational in lowest terms, d > 0.
  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  }
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

  // The TLC value.
  public static final class NumValue extends Value {
    final Q q;
    NumValue(Q q) { this.q = q; }
    public byte getKind() { return STRINGVALUE; }
    public int compareTo(Object o) {
      if (!(o instanceof NumValue)) throw new RuntimeException("Num: compared to " + o);
      return cmp(q, ((NumValue) o).q);
    }
    public boolean equals(Object o) {
      if (!(o instanceof NumValue)) throw new RuntimeException("Num: compared to " + o);
      Q p = ((NumValue) o).q;
      return q.n.equals(p.n) && q.d.equals(p.d);
    }
    public boolean member(Value v) { throw new RuntimeException("Num: not a set"); }
    public Value takeExcept(ValueExcept e) {
      if (e.idx < e.path.length) throw new RuntimeException("Num: EXCEPT");
      return e.value;
    }
    public Value takeExcept(ValueExcept[] e) {
      Value res = this;
      for (ValueExcept x : e) res = res.takeExcept(x);
      return res;
    }
    public Value normalize() { return this; }
    public boolean isNormalized() { return true; }
    public boolean isFinite() { throw new RuntimeException("Num: not a set"); }
    public int size() { throw new RuntimeException("Num: not a set"); }
    public boolean isDefined() { return true; }
    public tlc2.value.IValue deepCopy() { return this; }
    public boolean mutates() { return false; }
    public long fingerPrint(long fp) {
      fp = tlc2.util.FP64.Extend(fp, q.n.toString());
      return tlc2.util.FP64.Extend(fp, q.d.toString());
    }
    public tlc2.value.IValue permute(tlc2.value.IMVPerm p) { return this; }
    public StringBuffer toString(StringBuffer sb, int offset, boolean ignored) {
      double x = dbl(q);
      return sb.append(x == Math.rint(x) && Math.abs(x) < 1e15 ? Long.toString((long) x) : Double.toString(x));
    }
  }
  static Q q(Value v) { return ((NumValue) v).q; }
  static Q norm(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new ArithmeticException("Num: division by zero");
    if (n.signum() == 0) return new Q(ZERO, ONE);
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (!d.equals(ONE)) {
      BigInteger g = n.gcd(d);
      if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
    }
    return new Q(n, d);
  }
  static NumValue v(Q q) { return new NumValue(q); }
  static Q add(Q a, Q b) {
    if (a.d.equals(b.d)) return norm(a.n.add(b.n), a.d);
    return norm(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
  static Q sub(Q a, Q b) { return add(a, neg(b)); }
  static Q abs(Q a) { return new Q(a.n.abs(), a.d); }
  static Q div(Q a, Q b) { return norm(a.n.multiply(b.d), a.d.multiply(b.n)); }
  static Q mul(Q a, Q b) { return norm(a.n.multiply(b.n), a.d.multiply(b.d)); }
  static int cmp(Q a, Q b) {
    if (a.d.equals(b.d)) return a.n.compareTo(b.n);
    return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
  }
  static double dbl(Q a) {
    if (a.d.equals(ONE) && a.n.bitLength() < 53) return a.n.longValue();
    return new BigDecimal(a.n).divide(new BigDecimal(a.d), new java.math.MathContext(40)).doubleValue();
  }
  static Q of(double x) {
    BigDecimal b = new BigDecimal(x);
    return b.scale() <= 0 ? new Q(b.toBigIntegerExact(), ONE)
                          : norm(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }

  public static Value NByte(Value i) { return new StringValue(String.valueOf((char) ((IntValue) i).val)); }
  public static Value NAdd(Value a, Value b) { return v(add(q(a), q(b))); }
  public static Value NSub(Value a, Value b) { return v(sub(q(a), q(b))); }
  public static Value NMul(Value a, Value b) { return v(mul(q(a), q(b))); }
  public static Value NDiv(Value a, Value b) {
    Q x = q(a), y = q(b);
    return v(norm(x.n.multiply(y.d), x.d.multiply(y.n)));
  }
  private static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value NLt(Value a, Value b) { return b(cmp(q(a), q(b)) < 0); }
  public static Value NLe(Value a, Value b) { return b(cmp(q(a), q(b)) <= 0); }
  public static Value NSqrt(Value a) {
    Q x = q(a);
    // Exact when it can be.
    BigInteger n = x.n.sqrt(), d = x.d.sqrt();
    if (n.multiply(n).equals(x.n) && d.multiply(d).equals(x.d)) return v(new Q(n, d));
    double f = dbl(x);
    if (f < 1e-290 || f > 1e290) {  // beyond what doubles are good for
      return v(of2(new BigDecimal(x.n).divide(new BigDecimal(x.d), MC).sqrt(MC)));
    }
    return v(of(Math.sqrt(f)));
  }
  static final java.math.MathContext MC = new java.math.MathContext(30);
  private static Q of2(BigDecimal b) {
    return b.scale() <= 0 ? new Q(b.toBigIntegerExact(), ONE) : norm(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }
  public static Value NSinDeg(Value a) { return v(of(Math.sin(dbl(q(a)) * Math.PI / 180))); }
  public static Value NCosDeg(Value a) { return v(of(Math.cos(dbl(q(a)) * Math.PI / 180))); }
  public static Value NAtan2Deg(Value y, Value x) {
    double b = dbl(q(y)), a = dbl(q(x));
    if (Math.max(Math.abs(a), Math.abs(b)) > 1e290 || (Math.max(Math.abs(a), Math.abs(b)) < 1e-290 && !q(y).n.equals(ZERO))) {
      Q m = cmp(abs(q(y)), abs(q(x))) > 0 ? abs(q(y)) : abs(q(x));
      b = dbl(div(q(y), m));
      a = dbl(div(q(x), m));
    }
    return v(of(Math.atan2(b, a) * 180 / Math.PI));
  }
  public static Value NAcosDeg(Value a) {
    return v(of(Math.acos(Math.max(-1, Math.min(1, dbl(q(a))))) * 180 / Math.PI));
  }
  /** The exact value of a decimal literal (as printed by the program). */
  public static Value NDec(StringValue s) {
    BigDecimal b = new BigDecimal(s.getVal().toString());
    return v(b.scale() <= 0 ? new Q(b.toBigIntegerExact(), ONE)
                            : norm(b.unscaledValue(), BigInteger.TEN.pow(b.scale())));
  }
  public static Value NInt(IntValue i) { return v(new Q(BigInteger.valueOf(i.val), ONE)); }
  public static Value NF32(Value a) {
    float f = (float) dbl(q(a));
    return Float.isInfinite(f) ? a : v(of(f));
  }
  public static Value NFix(Value a, IntValue d) {
    Q x = q(a);
    BigInteger num = x.n.abs().multiply(BigInteger.TEN.pow(d.val));
    BigInteger r = new BigDecimal(num).divide(new BigDecimal(x.d), 0, RoundingMode.HALF_EVEN).toBigInteger();
    return new StringValue(new BigDecimal(r, d.val).toPlainString());
  }
  private static boolean isNumber(String s) {
    return s.matches("[-+]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)([eE][-+]?[0-9]+)?");
  }
  private static String cls(String t, double f, double least) {
    if (!isNumber(t)) return "none";
    if (Double.isInfinite(f)) return "inf";
    boolean zero = t.split("[eE]")[0].matches("[^1-9]*");
    return !zero && Math.abs(f) < least ? "tiny" : "num";
  }
  public static Value NClassF32(StringValue s) {
    String t = s.getVal().toString();
    return new StringValue(cls(t, isNumber(t) ? Float.parseFloat(t) : 0, Float.MIN_NORMAL));
  }
  public static Value NClassF64(StringValue s) {
    String t = s.getVal().toString();
    return new StringValue(cls(t, isNumber(t) ? Double.parseDouble(t) : 0, Double.MIN_NORMAL));
  }
  public static Value NParseF32(StringValue s) { return v(of(Float.parseFloat(s.getVal().toString()))); }
  public static Value NParseF64(StringValue s) { return v(of(Double.parseDouble(s.getVal().toString()))); }
  public static Value NIsInt(Value a) { return b(q(a).d.equals(ONE)); }
  public static Value NRound(Value a, IntValue k) {
    Q x = q(a);
    BigInteger n = x.n.shiftLeft(k.val + 1).add(x.d), d = x.d.shiftLeft(1);
    BigInteger[] r = n.divideAndRemainder(d);
    BigInteger f = r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
    return v(norm(f, ONE.shiftLeft(k.val)));
  }
  public static Value NF64(Value a) {
    double f = dbl(q(a));
    return Double.isInfinite(f) ? a : v(of(f));
  }
  public static Value NFloor(Value a) {
    Q x = q(a);
    BigInteger[] r = x.n.divideAndRemainder(x.d);
    BigInteger f = r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
    return IntValue.gen(f.intValueExact());
  }

  // ---- vectors
  private static Q[] vec(Value t) {
    Value[] e = ((TupleValue) t.toTuple()).elems;
    Q[] r = new Q[e.length];
    for (int i = 0; i < r.length; i++) r[i] = q(e[i]);
    return r;
  }
  private static TupleValue tup(Q... x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < e.length; i++) e[i] = v(x[i]);
    return new TupleValue(e);
  }
  public static Value VAdd(Value a, Value b) {
    Q[] x = vec(a), y = vec(b), r = new Q[x.length];
    for (int i = 0; i < r.length; i++) r[i] = add(x[i], y[i]);
    return tup(r);
  }
  public static Value VSub(Value a, Value b) {
    Q[] x = vec(a), y = vec(b), r = new Q[x.length];
    for (int i = 0; i < r.length; i++) r[i] = sub(x[i], y[i]);
    return tup(r);
  }
  public static Value VMul(Value a, Value k) {
    Q[] x = vec(a), r = new Q[x.length];
    Q y = q(k);
    for (int i = 0; i < r.length; i++) r[i] = mul(x[i], y);
    return tup(r);
  }
  private static Q dot(Q[] x, Q[] y) {
    Q s = mul(x[0], y[0]);
    for (int i = 1; i < x.length; i++) s = add(s, mul(x[i], y[i]));
    return s;
  }
  public static Value VDot(Value a, Value b) { return v(dot(vec(a), vec(b))); }
  private static Q det(Q a, Q b, Q c, Q d) { return sub(mul(a, d), mul(b, c)); }
  public static Value VCross(Value a, Value b) {
    Q[] x = vec(a), y = vec(b);
    return tup(det(x[1], x[2], y[1], y[2]), det(x[2], x[0], y[2], y[0]), det(x[0], x[1], y[0], y[1]));
  }
  public static Value VCrossZ(Value a, Value b) {
    Q[] x = vec(a), y = vec(b);
    return v(det(x[0], x[1], y[0], y[1]));
  }
  public static Value VLt(Value a, Value b) {
    Q[] x = vec(a), y = vec(b);
    for (int i = 0; i < x.length; i++) {
      int c = cmp(x[i], y[i]);
      if (c != 0) return b(c < 0);
    }
    return b(false);
  }
  public static Value VApply(Value a, Value m) {
    Q[] x = vec(a);
    Value[] rows = ((TupleValue) m.toTuple()).elems;
    Q[][] k = {vec(rows[0]), vec(rows[1]), vec(rows[2])};
    Q[] r = new Q[3];
    for (int j = 0; j < 3; j++)
      r[j] = add(add(mul(x[0], k[0][j]), mul(x[1], k[1][j])), mul(x[2], k[2][j]));
    return tup(r);
  }
}
