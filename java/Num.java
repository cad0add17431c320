// TLC module override for Num.tla: exact rational arithmetic.
//
// A number is an IntValue when it is an integer that fits 32 bits, otherwise a UserValue that
// holds numerator and denominator (never part of a TLC state), or, coming from JSON, a string "n" or "n/d".
// Every operator below computes exactly what its definition in Num.tla says over the rationals.
import tlc2.value.impl.*;
import java.math.BigInteger;

public class Num {
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

  public static final class Q extends UserObj {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    public int compareTo(Value v) { return cmp(this, get(v)); }
    public boolean member(Value v) { return false; }
    public boolean isFinite() { return true; }
    public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return sb.append('"').append(str()).append('"'); }
    String str() { return d.equals(ONE) ? n.toString() : n + "/" + d; }
  }

  static Q mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("Num: division by zero");
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (!d.equals(ONE)) {
      // dyadic denominators are the common case: strip powers of two first
      int tz = Math.min(n.signum() == 0 ? Integer.MAX_VALUE : n.getLowestSetBit(), d.getLowestSetBit());
      if (tz > 0) { n = n.shiftRight(tz); d = d.shiftRight(tz); }
      if (d.bitCount() != 1 || n.signum() == 0) {
        BigInteger g = n.gcd(d);
        if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
      }
    }
    return new Q(n, d);
  }

  static Q get(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
    if (v instanceof UserValue && ((UserValue) v).userObj instanceof Q) return (Q) ((UserValue) v).userObj;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      int i = s.indexOf('/');
      return i < 0 ? new Q(new BigInteger(s), ONE) : mk(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    }
    throw new RuntimeException("Num: not a number: " + v);
  }

  static boolean isNum(Value v) {
    if (v instanceof IntValue) return true;
    if (v instanceof UserValue) return ((UserValue) v).userObj instanceof Q;
    if (v instanceof StringValue) return ((StringValue) v).val.toString().matches("-?[0-9]+(/[1-9][0-9]*)?");
    return false;
  }

  static Value out(Q q) {
    if (q.d.equals(ONE) && q.n.bitLength() <= 31) return IntValue.gen(q.n.intValue());
    return new UserValue(q);
  }
  static int cmp(Q x, Q y) { return x.n.multiply(y.d).compareTo(y.n.multiply(x.d)); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static BigInteger floor(Q q) {
    BigInteger[] r = q.n.divideAndRemainder(q.d);
    return r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
  }
  static boolean small(Value a) { return a instanceof IntValue; }
  static Value fromLong(long x) {
    return (x >= Integer.MIN_VALUE && x <= Integer.MAX_VALUE) ? IntValue.gen((int) x) : new UserValue(new Q(BigInteger.valueOf(x), ONE));
  }

  public static Value NAdd(Value a, Value c) {
    if (small(a) && small(c)) return fromLong((long) ((IntValue) a).val + ((IntValue) c).val);
    Q x = get(a), y = get(c);
    if (x.d.equals(y.d)) return out(mk(x.n.add(y.n), x.d));
    return out(mk(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d)));
  }
  public static Value NSub(Value a, Value c) {
    if (small(a) && small(c)) return fromLong((long) ((IntValue) a).val - ((IntValue) c).val);
    Q x = get(a), y = get(c);
    if (x.d.equals(y.d)) return out(mk(x.n.subtract(y.n), x.d));
    return out(mk(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d)));
  }
  public static Value NMul(Value a, Value c) {
    if (small(a) && small(c)) return fromLong((long) ((IntValue) a).val * ((IntValue) c).val);
    Q x = get(a), y = get(c);
    return out(mk(x.n.multiply(y.n), x.d.multiply(y.d)));
  }
  public static Value NDiv(Value a, Value c) { Q x = get(a), y = get(c); return out(mk(x.n.multiply(y.d), x.d.multiply(y.n))); }
  public static Value NNeg(Value a) { Q x = get(a); return out(new Q(x.n.negate(), x.d)); }
  public static Value NAbs(Value a) { Q x = get(a); return out(new Q(x.n.abs(), x.d)); }
  public static Value NLe(Value a, Value c) { return b(cmp(get(a), get(c)) <= 0); }
  public static Value NLt(Value a, Value c) { return b(cmp(get(a), get(c)) < 0); }
  public static Value NEq(Value a, Value c) { return b(cmp(get(a), get(c)) == 0); }
  public static Value NSgn(Value a) { return IntValue.gen(get(a).n.signum()); }
  public static Value NFloor(Value a) { return out(new Q(floor(get(a)), ONE)); }
  public static Value NIsInt(Value a) { return b(get(a).d.equals(ONE)); }
  public static Value NIs(Value a) { return b(isNum(a)); }
  // floor to a multiple of 2^-k
  public static Value NTrunc(Value a, Value k) {
    Q x = get(a); int kk = ((IntValue) k).val;
    return out(mk(floor(new Q(x.n.shiftLeft(kk), x.d)), ONE.shiftLeft(kk)));
  }
  // largest multiple of 2^-k whose square is at most a
  public static Value NSqrtK(Value a, Value k) {
    Q x = get(a); int kk = ((IntValue) k).val;
    if (x.n.signum() < 0) throw new RuntimeException("Num: sqrt of a negative number");
    return out(mk(floor(new Q(x.n.shiftLeft(2 * kk), x.d)).sqrt(), ONE.shiftLeft(kk)));
  }
  // a as text (for states and messages)
  public static Value NStr(Value a) { return new StringValue(get(a).str()); }
}
