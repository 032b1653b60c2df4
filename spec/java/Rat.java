// TLC overrides for module Rat: exact rational arithmetic on BigInteger.
// The mathematical definition of every operator is in Rat.tla / RatDef.tla; RatLaws.tla compares the two.
import tlc2.value.impl.*;
import util.UniqueString;
import java.math.BigInteger;

public class Rat {
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

  public static final class Q extends UserObj {
    final BigInteger n, d; // d > 0, gcd(n,d) = 1
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    int cmp(Q o) {
      int s = n.signum(), t = o.n.signum();
      if (s != t) return s < t ? -1 : 1;
      return n.multiply(o.d).compareTo(o.n.multiply(d));
    }
    public int compareTo(Value v) { return cmp(q(v)); }
    public boolean member(Value v) { throw new RuntimeException("member of a number"); }
    public boolean isFinite() { return true; }
    public String str() { return d.equals(ONE) ? n.toString() : n + "/" + d; }
    public StringBuffer toString(StringBuffer sb, int o, boolean s) { return sb.append(str()); }
  }

  static Q q(Value v) {
    if (v instanceof UserValue) return (Q) ((UserValue) v).userObj;
    throw new RuntimeException("not a rational: " + v);
  }
  static Value val(BigInteger n, BigInteger d) { return new UserValue(new Q(n, d)); }
  static Value mk(BigInteger n, BigInteger d) {
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (n.signum() == 0) return val(ZERO, ONE);
    if (d.equals(ONE)) return val(n, d);
    // fast path: power-of-two denominators (dyadic numbers) reduce by shifting
    int tz = d.getLowestSetBit();
    if (d.bitLength() - 1 == tz) {
      int k = Math.min(tz, n.getLowestSetBit());
      return k == 0 ? val(n, d) : val(n.shiftRight(k), d.shiftRight(k));
    }
    BigInteger g = n.gcd(d);
    if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
    return val(n, d);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RInt(IntValue i) { return val(BigInteger.valueOf(i.val), ONE); }
  public static Value RQ(IntValue n, IntValue d) { return mk(BigInteger.valueOf(n.val), BigInteger.valueOf(d.val)); }
  static Value parse(String s) {
    int k = s.indexOf(':');
    if (k >= 0) {
      BigInteger m = new BigInteger(s.substring(0, k));
      int e = Integer.parseInt(s.substring(k + 1));
      return e >= 0 ? mk(m.shiftLeft(e), ONE) : mk(m, ONE.shiftLeft(-e));
    }
    k = s.indexOf('/');
    if (k >= 0) return mk(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
    return mk(new BigInteger(s), ONE);
  }
  public static Value RNum(StringValue s) { return parse(s.val.toString()); }
  public static Value RIsNum(StringValue s) {
    String x = s.val.toString();
    char c = x.charAt(x.length() - 1);
    return bool(c >= '0' && c <= '9');
  }
  public static Value RStr(Value a) { return new StringValue(q(a).str()); }
  public static Value RAdd(Value a, Value b) {
    Q x = q(a), y = q(b);
    if (x.d.equals(y.d)) return mk(x.n.add(y.n), x.d);
    return mk(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
  }
  public static Value RSub(Value a, Value b) {
    Q x = q(a), y = q(b);
    if (x.d.equals(y.d)) return mk(x.n.subtract(y.n), x.d);
    return mk(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d));
  }
  public static Value RMul(Value a, Value b) { Q x = q(a), y = q(b); return mk(x.n.multiply(y.n), x.d.multiply(y.d)); }
  public static Value RDiv(Value a, Value b) {
    Q x = q(a), y = q(b);
    if (y.n.signum() == 0) throw new RuntimeException("division by zero");
    return mk(x.n.multiply(y.d), x.d.multiply(y.n));
  }
  public static Value RNeg(Value a) { Q x = q(a); return val(x.n.negate(), x.d); }
  public static Value RAbs(Value a) { Q x = q(a); return val(x.n.abs(), x.d); }
  public static Value RLe(Value a, Value b) { return bool(q(a).cmp(q(b)) <= 0); }
  public static Value RLt(Value a, Value b) { return bool(q(a).cmp(q(b)) < 0); }
  public static Value REq(Value a, Value b) { return bool(q(a).cmp(q(b)) == 0); }
  public static Value RMax(Value a, Value b) { return q(a).cmp(q(b)) >= 0 ? a : b; }
  public static Value RMin(Value a, Value b) { return q(a).cmp(q(b)) <= 0 ? a : b; }
  static final java.util.concurrent.ConcurrentHashMap<Long, Value> BINOM = new java.util.concurrent.ConcurrentHashMap<>();
  public static Value RBinom(IntValue n, IntValue k) {
    if (k.val < 0 || k.val > n.val) return val(ZERO, ONE);
    return BINOM.computeIfAbsent(((long) n.val << 32) | k.val, x -> {
      BigInteger b = ONE;
      for (int i = 1; i <= k.val; i++) b = b.multiply(BigInteger.valueOf(n.val - i + 1)).divide(BigInteger.valueOf(i));
      return val(b, ONE);
    });
  }
  public static Value RPow(Value a, IntValue k) { Q x = q(a); return val(x.n.pow(k.val), x.d.pow(k.val)); }

  // largest s = j/2^m with s*s <= a, where m is chosen so that s carries about 96 significant bits
  static Value sqrt(Value a, boolean up) {
    Q x = q(a);
    if (x.n.signum() < 0) throw new RuntimeException("square root of a negative number");
    if (x.n.signum() == 0) return a;
    int bits = x.n.bitLength() - x.d.bitLength();      // a is about 2^bits
    int m = Math.max(0, 96 - bits / 2);
    BigInteger v = x.n.shiftLeft(2 * m).divide(x.d);   // floor(a * 4^m)
    BigInteger s = v.sqrt();
    if (up && s.multiply(s).multiply(x.d).compareTo(x.n.shiftLeft(2 * m)) < 0) s = s.add(ONE);
    return mk(s, ONE.shiftLeft(m));
  }
  public static Value RSqrtLo(Value a) { return sqrt(a, false); }
  public static Value RSqrtHi(Value a) { return sqrt(a, true); }

  static Value[] elems(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  // identity; TLC evaluates [i \\in 1..n |-> e] anew at every application, unless it is a tuple
  public static Value RSeq(Value a) {
    Value[] e = elems(a);
    return new TupleValue(e);
  }
  public static Value RJoin(Value a) {
    StringBuilder b = new StringBuilder();
    for (Value e : elems(a)) { if (b.length() > 0) b.append(' '); b.append(((StringValue) e).val.toString()); }
    return new StringValue(b.toString());
  }
  public static Value RSum(Value a) {
    BigInteger n = ZERO, d = ONE;
    for (Value e : elems(a)) { Q x = q(e);
      if (x.d.equals(d)) n = n.add(x.n);
      else { n = n.multiply(x.d).add(x.n.multiply(d)); d = d.multiply(x.d);
             int k = Math.min(d.getLowestSetBit(), n.signum() == 0 ? 0 : n.getLowestSetBit()); if (k > 0) { n = n.shiftRight(k); d = d.shiftRight(k); } } }
    return mk(n, d);
  }
  public static Value RDot(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (x.length != y.length) throw new RuntimeException("RDot: lengths differ");
    BigInteger n = ZERO, d = ONE;
    for (int i = 0; i < x.length; i++) {
      Q u = q(x[i]), v = q(y[i]);
      BigInteger pn = u.n.multiply(v.n), pd = u.d.multiply(v.d);
      if (pd.equals(d)) n = n.add(pn);
      else if (pn.signum() != 0) { n = n.multiply(pd).add(pn.multiply(d)); d = d.multiply(pd);
             int k = Math.min(d.getLowestSetBit(), n.signum() == 0 ? 0 : n.getLowestSetBit()); if (k > 0) { n = n.shiftRight(k); d = d.shiftRight(k); } }
    }
    return mk(n, d);
  }
}
