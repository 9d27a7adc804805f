// TLC overrides of module Reals64: IEEE-754 doubles carried as TLA+ strings.
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.IValue;
import tlc2.value.impl.*;

public class Reals64Impl {
  // a StringValue that remembers the number it was printed from
  static final class Real extends StringValue {
    final double num;
    Real(double x) { super(Double.toString(x)); num = x; }
  }
  static double d(IValue v) {
    if (v instanceof Real) return ((Real) v).num;
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (!(v instanceof StringValue)) throw new RuntimeException("Reals64: not a real: " + v);
    return parse(((StringValue) v).val.toString());
  }
  static double parse(String s) {
    switch (s) {
      case "nan": case "-nan": case "NaN": return Double.NaN;
      case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
      case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
      default: return Double.parseDouble(s);
    }
  }
  static Value v(double x) { return new Real(x); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "FOf", module = "Reals64", warn = false)
  public static Value FOf(Value a) { return v(d(a)); }
  @TLAPlusOperator(identifier = "FAdd", module = "Reals64", warn = false)
  public static Value FAdd(Value a, Value c) { return v(d(a) + d(c)); }
  @TLAPlusOperator(identifier = "FSub", module = "Reals64", warn = false)
  public static Value FSub(Value a, Value c) { return v(d(a) - d(c)); }
  @TLAPlusOperator(identifier = "FMul", module = "Reals64", warn = false)
  public static Value FMul(Value a, Value c) { return v(d(a) * d(c)); }
  @TLAPlusOperator(identifier = "FDiv", module = "Reals64", warn = false)
  public static Value FDiv(Value a, Value c) { return v(d(a) / d(c)); }
  @TLAPlusOperator(identifier = "FSqrt", module = "Reals64", warn = false)
  public static Value FSqrt(Value a) { return v(Math.sqrt(d(a))); }
  @TLAPlusOperator(identifier = "FSin", module = "Reals64", warn = false)
  public static Value FSin(Value a) { return v(Math.sin(d(a))); }
  @TLAPlusOperator(identifier = "FCos", module = "Reals64", warn = false)
  public static Value FCos(Value a) { return v(Math.cos(d(a))); }
  @TLAPlusOperator(identifier = "FAtan2", module = "Reals64", warn = false)
  public static Value FAtan2(Value a, Value c) { return v(Math.atan2(d(a), d(c))); }
  @TLAPlusOperator(identifier = "FAsin", module = "Reals64", warn = false)
  public static Value FAsin(Value a) { return v(Math.asin(d(a))); }
  @TLAPlusOperator(identifier = "FAcos", module = "Reals64", warn = false)
  public static Value FAcos(Value a) { return v(Math.acos(d(a))); }
  @TLAPlusOperator(identifier = "FExp", module = "Reals64", warn = false)
  public static Value FExp(Value a) { return v(Math.exp(d(a))); }
  @TLAPlusOperator(identifier = "F32", module = "Reals64", warn = false)
  public static Value F32(Value a) { return v((double) (float) d(a)); }
  @TLAPlusOperator(identifier = "FLt", module = "Reals64", warn = false)
  public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
  @TLAPlusOperator(identifier = "FLe", module = "Reals64", warn = false)
  public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
  @TLAPlusOperator(identifier = "FEq", module = "Reals64", warn = false)
  public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
  @TLAPlusOperator(identifier = "FIsFinite", module = "Reals64", warn = false)
  public static Value FIsFinite(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
  @TLAPlusOperator(identifier = "FIsNaN", module = "Reals64", warn = false)
  public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  // truncation towards zero, saturating at the TLC integer range
  @TLAPlusOperator(identifier = "FTrunc", module = "Reals64", warn = false)
  public static Value FTrunc(Value a) { return IntValue.gen((int) d(a)); }
  // round half away from zero, saturating at the TLC integer range; NaN gives 0
  @TLAPlusOperator(identifier = "FRound", module = "Reals64", warn = false)
  public static Value FRound(Value a) {
    double x = d(a);
    double r = Math.signum(x) * Math.floor(Math.abs(x) + 0.5);
    return IntValue.gen((int) r);
  }
  static boolean close(double x, double y, double rel, double abs) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (x == y) return true;
    if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= abs + rel * Math.max(Math.abs(x), Math.abs(y));
  }
  @TLAPlusOperator(identifier = "FClose", module = "Reals64", warn = false)
  public static Value FClose(Value a, Value c, Value rel, Value abs) {
    return b(close(d(a), d(c), d(rel), d(abs)));
  }

  // ---- matrices: a matrix is a sequence of rows, a row a sequence of reals ----
  static double[][] m(Value a) {
    TupleValue t = (TupleValue) a.toTuple();
    double[][] r = new double[t.elems.length][];
    for (int i = 0; i < r.length; i++) {
      TupleValue row = (TupleValue) t.elems[i].toTuple();
      r[i] = new double[row.elems.length];
      for (int j = 0; j < r[i].length; j++) r[i][j] = d(row.elems[j]);
    }
    return r;
  }
  static Value mv(double[][] x) {
    Value[] rows = new Value[x.length];
    for (int i = 0; i < x.length; i++) {
      Value[] row = new Value[x[i].length];
      for (int j = 0; j < row.length; j++) row[j] = v(x[i][j]);
      rows[i] = new TupleValue(row);
    }
    return new TupleValue(rows);
  }
  @TLAPlusOperator(identifier = "MMul", module = "Reals64", warn = false)
  public static Value MMul(Value a, Value c) {
    double[][] x = m(a), y = m(c);
    double[][] r = new double[x.length][y[0].length];
    for (int i = 0; i < x.length; i++)
      for (int j = 0; j < y[0].length; j++) {
        double s = 0;
        for (int k = 0; k < y.length; k++) s += x[i][k] * y[k][j];
        r[i][j] = s;
      }
    return mv(r);
  }
  @TLAPlusOperator(identifier = "MAdd", module = "Reals64", warn = false)
  public static Value MAdd(Value a, Value c) {
    double[][] x = m(a), y = m(c);
    for (int i = 0; i < x.length; i++) for (int j = 0; j < x[i].length; j++) x[i][j] += y[i][j];
    return mv(x);
  }
  @TLAPlusOperator(identifier = "MSub", module = "Reals64", warn = false)
  public static Value MSub(Value a, Value c) {
    double[][] x = m(a), y = m(c);
    for (int i = 0; i < x.length; i++) for (int j = 0; j < x[i].length; j++) x[i][j] -= y[i][j];
    return mv(x);
  }
  @TLAPlusOperator(identifier = "MT", module = "Reals64", warn = false)
  public static Value MT(Value a) {
    double[][] x = m(a);
    double[][] r = new double[x[0].length][x.length];
    for (int i = 0; i < x.length; i++) for (int j = 0; j < x[0].length; j++) r[j][i] = x[i][j];
    return mv(r);
  }
  @TLAPlusOperator(identifier = "MInv", module = "Reals64", warn = false)
  public static Value MInv(Value a) {
    double[][] x = m(a);
    int n = x.length;
    double[][] r = new double[n][n];
    for (int i = 0; i < n; i++) r[i][i] = 1;
    for (int c = 0; c < n; c++) {
      int p = c;
      for (int i = c + 1; i < n; i++) if (Math.abs(x[i][c]) > Math.abs(x[p][c])) p = i;
      double[] t = x[c]; x[c] = x[p]; x[p] = t;
      t = r[c]; r[c] = r[p]; r[p] = t;
      double q = x[c][c];
      for (int j = 0; j < n; j++) { x[c][j] /= q; r[c][j] /= q; }
      for (int i = 0; i < n; i++) if (i != c) {
        double f = x[i][c];
        for (int j = 0; j < n; j++) { x[i][j] -= f * x[c][j]; r[i][j] -= f * r[c][j]; }
      }
    }
    return mv(r);
  }
  @TLAPlusOperator(identifier = "MClose", module = "Reals64", warn = false)
  public static Value MClose(Value a, Value c, Value rel, Value abs) {
    double[][] x = m(a), y = m(c);
    if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) {
      if (x[i].length != y[i].length) return b(false);
      for (int j = 0; j < x[i].length; j++) if (!close(x[i][j], y[i][j], d(rel), d(abs))) return b(false);
    }
    return b(true);
  }
  @TLAPlusOperator(identifier = "MFinite", module = "Reals64", warn = false)
  public static Value MFinite(Value a) {
    for (double[] row : m(a)) for (double e : row)
      if (Double.isNaN(e) || Double.isInfinite(e)) return b(false);
    return b(true);
  }
  // (s1 s + n1 ns) - (s2 s + n2 ns) in seconds, exact up to the final rounding
  @TLAPlusOperator(identifier = "FSecs", module = "Reals64", warn = false)
  public static Value FSecs(Value s1, Value n1, Value s2, Value n2) {
    long a = ((IntValue) s1).val * 1000000000L + ((IntValue) n1).val;
    long c = ((IntValue) s2).val * 1000000000L + ((IntValue) n2).val;
    return v((a - c) / 1e9);
  }
  // smallest eigenvalue of a symmetric matrix (cyclic Jacobi on its symmetric part)
  @TLAPlusOperator(identifier = "MMinEig", module = "Reals64", warn = false)
  public static Value MMinEig(Value a) {
    double[][] e = eig(m(a));
    double r = Double.POSITIVE_INFINITY;
    for (double x : e[0]) r = Math.min(r, x);
    return v(r);
  }
  // eigenvalues (ascending) in row 0; eigenvectors in rows 1..n, one per row
  static double[][] eig(double[][] a0) {
    int n = a0.length;
    double[][] a = new double[n][n], q = new double[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = (a0[i][j] + a0[j][i]) / 2;
    for (int i = 0; i < n; i++) q[i][i] = 1;
    for (int sweep = 0; sweep < 100; sweep++) {
      double off = 0, all = 0;
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { all += a[i][j] * a[i][j]; if (i != j) off += a[i][j] * a[i][j]; }
      if (!(off > 1e-30 * all)) break;
      for (int p = 0; p < n; p++) for (int r = p + 1; r < n; r++) {
        if (a[p][r] == 0) continue;
        double th = (a[r][r] - a[p][p]) / (2 * a[p][r]);
        double t = (th >= 0 ? 1 : -1) / (Math.abs(th) + Math.sqrt(th * th + 1));
        double c = 1 / Math.sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < n; k++) { double x = a[k][p], y = a[k][r]; a[k][p] = c * x - s * y; a[k][r] = s * x + c * y; }
        for (int k = 0; k < n; k++) { double x = a[p][k], y = a[r][k]; a[p][k] = c * x - s * y; a[r][k] = s * x + c * y; }
        for (int k = 0; k < n; k++) { double x = q[k][p], y = q[k][r]; q[k][p] = c * x - s * y; q[k][r] = s * x + c * y; }
      }
    }
    Integer[] o = new Integer[n];
    for (int i = 0; i < n; i++) o[i] = i;
    java.util.Arrays.sort(o, (x, y) -> Double.compare(a[x][x], a[y][y]));
    double[][] out = new double[n + 1][n];
    for (int i = 0; i < n; i++) { out[0][i] = a[o[i]][o[i]]; for (int k = 0; k < n; k++) out[i + 1][k] = q[k][o[i]]; }
    return out;
  }
  // <<eigenvalues ascending, <<eigenvector 1, ..>>>> of a symmetric matrix
  @TLAPlusOperator(identifier = "MEig", module = "Reals64", warn = false)
  public static Value MEig(Value a) {
    double[][] e = eig(m(a));
    Value[] vals = new Value[e.length - 1];
    for (int i = 0; i < vals.length; i++) vals[i] = v(e[0][i]);
    double[][] vecs = java.util.Arrays.copyOfRange(e, 1, e.length);
    return new TupleValue(new Value[]{new TupleValue(vals), mv(vecs)});
  }
}
