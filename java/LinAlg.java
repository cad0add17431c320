// TLC module override for the hot operators of LinAlg.tla.  The definitions in LinAlg.tla are the
// meaning (spec/SelfTest.tla compares the two); TLC's lazy function values make them slow.
import tlc2.value.impl.*;
import java.math.BigInteger;

public class LinAlg {
  static Value[] vec(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("LinAlg: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static Value[][] mat(Value v) {
    Value[] r = vec(v);
    Value[][] m = new Value[r.length][];
    for (int i = 0; i < r.length; i++) m[i] = vec(r[i]);
    return m;
  }
  static Value val(Value[][] m) {
    Value[] r = new Value[m.length];
    for (int i = 0; i < m.length; i++) r[i] = new TupleValue(m[i]);
    return new TupleValue(r);
  }
  static Value dot(Value[] a, Value[] c) {
    if (a.length != c.length) throw new RuntimeException("LinAlg: lengths differ");
    Value s = IntValue.gen(0);
    for (int i = 0; i < a.length; i++) s = Num.NAdd(s, Num.NMul(a[i], c[i]));
    return s;
  }
  static Value[][] tr(Value[][] a) {
    Value[][] t = new Value[a[0].length][a.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[0].length; j++) t[j][i] = a[i][j];
    return t;
  }
  static Value[][] mulT(Value[][] a, Value[][] bt) {
    Value[][] m = new Value[a.length][bt.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < bt.length; j++) m[i][j] = dot(a[i], bt[j]);
    return m;
  }
  static Value[][] minor(Value[][] a, int r, int c) {
    int n = a.length;
    Value[][] m = new Value[n - 1][n - 1];
    for (int i = 0; i < n - 1; i++) for (int j = 0; j < n - 1; j++) m[i][j] = a[i < r ? i : i + 1][j < c ? j : j + 1];
    return m;
  }
  static Value det(Value[][] a) {
    int n = a.length;
    if (n == 1) return a[0][0];
    if (n == 2) return Num.NSub(Num.NMul(a[0][0], a[1][1]), Num.NMul(a[0][1], a[1][0]));
    Value s = IntValue.gen(0);
    for (int j = 0; j < n; j++) {
      if (Num.get(a[0][j]).n.signum() == 0) continue;
      Value t = Num.NMul(a[0][j], det(minor(a, 0, j)));
      s = j % 2 == 0 ? Num.NAdd(s, t) : Num.NSub(s, t);
    }
    return s;
  }
  static Value[][] cof(Value[][] a) {
    int n = a.length;
    if (n == 1) return new Value[][] {{IntValue.gen(1)}};
    Value[][] k = new Value[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      Value m = det(minor(a, i, j));
      k[i][j] = (i + j) % 2 == 0 ? m : Num.NNeg(m);
    }
    return k;
  }
  public static Value Dot(Value a, Value c) { return dot(vec(a), vec(c)); }
  public static Value Transp(Value a) { return val(tr(mat(a))); }
  public static Value MulT(Value a, Value b) { return val(mulT(mat(a), mat(b))); }
  public static Value MMul(Value a, Value b) { return val(mulT(mat(a), tr(mat(b)))); }
  public static Value Gram(Value a) { Value[][] t = tr(mat(a)); return val(mulT(t, t)); }
  public static Value MVec(Value a, Value v) {
    Value[][] m = mat(a); Value[] x = vec(v), r = new Value[m.length];
    for (int i = 0; i < m.length; i++) r[i] = dot(m[i], x);
    return new TupleValue(r);
  }
  public static Value MAdd(Value a, Value b) {
    Value[][] x = mat(a), y = mat(b), r = new Value[x.length][x[0].length];
    for (int i = 0; i < x.length; i++) for (int j = 0; j < x[0].length; j++) r[i][j] = Num.NAdd(x[i][j], y[i][j]);
    return val(r);
  }
  public static Value MSub(Value a, Value b) {
    Value[][] x = mat(a), y = mat(b), r = new Value[x.length][x[0].length];
    for (int i = 0; i < x.length; i++) for (int j = 0; j < x[0].length; j++) r[i][j] = Num.NSub(x[i][j], y[i][j]);
    return val(r);
  }
  public static Value MScale(Value s, Value a) {
    Value[][] x = mat(a), r = new Value[x.length][x[0].length];
    for (int i = 0; i < x.length; i++) for (int j = 0; j < x[0].length; j++) r[i][j] = Num.NMul(s, x[i][j]);
    return val(r);
  }
  public static Value VAdd(Value a, Value b) {
    Value[] x = vec(a), y = vec(b), r = new Value[x.length];
    for (int i = 0; i < x.length; i++) r[i] = Num.NAdd(x[i], y[i]);
    return new TupleValue(r);
  }
  public static Value VSub(Value a, Value b) {
    Value[] x = vec(a), y = vec(b), r = new Value[x.length];
    for (int i = 0; i < x.length; i++) r[i] = Num.NSub(x[i], y[i]);
    return new TupleValue(r);
  }
  public static Value VScale(Value s, Value a) {
    Value[] x = vec(a), r = new Value[x.length];
    for (int i = 0; i < x.length; i++) r[i] = Num.NMul(s, x[i]);
    return new TupleValue(r);
  }
  public static Value Det(Value a) { return det(mat(a)); }
  public static Value Cof(Value a) { return val(cof(mat(a))); }
  public static Value MInv(Value a) {
    Value[][] m = mat(a), k = cof(m), r = new Value[m.length][m.length];
    Value d = dot(m[0], k[0]);
    for (int i = 0; i < m.length; i++) for (int j = 0; j < m.length; j++) r[i][j] = Num.NDiv(k[j][i], d);
    return val(r);
  }
  // every entry rounded down to a multiple of 2^-k
  public static Value MTrunc(Value a, Value k) {
    Value[][] x = mat(a), r = new Value[x.length][x[0].length];
    for (int i = 0; i < x.length; i++) for (int j = 0; j < x[0].length; j++) r[i][j] = Num.NTrunc(x[i][j], k);
    return val(r);
  }
}
