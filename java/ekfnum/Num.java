// TLC evaluation of the real-number operators declared in spec/lib/Num.tla.
//
// TLC has 32-bit integers only.  A real number is carried through TLA+ values and
// through the ndjson traces as the two 32-bit halves of its IEEE-754 double
// (<<hi, lo>>); a vector is the flat concatenation of its entries, and a matrix is a
// record [r, c, d] with the entries of d in row-major order.  Nothing is lost on the
// way from the C++ driver into TLC.
package ekfnum;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.UniqueString;

public class Num implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() { return new Class[] { Num.class }; }

  private static final UniqueString R = UniqueString.of("r");
  private static final UniqueString C = UniqueString.of("c");
  private static final UniqueString D = UniqueString.of("d");

  // ---------------------------------------------------------------- conversions
  private static final java.util.Map<UniqueString, double[]> TEXT =
    java.util.Collections.synchronizedMap(new java.util.LinkedHashMap<>(64, .75f, true) {
      @Override
      protected boolean removeEldestEntry(final java.util.Map.Entry<UniqueString, double[]> e) {
        return size() > 64;
      }
    });

  /** A vector may also be given as base64 text of little-endian doubles. */
  static double[] text(final StringValue v) {
    final double[] hit = TEXT.get(v.getVal());
    if (hit != null) return hit;
    final byte[] b = java.util.Base64.getDecoder().decode(v.getVal().toString());
    final double[] out = new double[b.length / 8];
    java.nio.ByteBuffer.wrap(b).order(java.nio.ByteOrder.LITTLE_ENDIAN).asDoubleBuffer().get(out);
    TEXT.put(v.getVal(), out);
    return out;
  }

  static double[] vec(final Value v) {
    if (v instanceof StringValue) return text((StringValue) v);
    final TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new IllegalArgumentException("not a real vector: " + v);
    final Value[] e = t.elems;
    if (e.length % 2 != 0) throw new IllegalArgumentException("odd real vector: " + v);
    final double[] out = new double[e.length / 2];
    for (int i = 0; i < out.length; i++) {
      final long hi = ((IntValue) e[2 * i]).val;
      final long lo = ((IntValue) e[2 * i + 1]).val & 0xffffffffL;
      out[i] = Double.longBitsToDouble((hi << 32) | lo);
    }
    return out;
  }

  static double real(final Value v) {
    final double[] d = vec(v);
    if (d.length != 1) throw new IllegalArgumentException("not a real: " + v);
    return d[0];
  }

  static Value val(final double... d) {
    final Value[] e = new Value[2 * d.length];
    for (int i = 0; i < d.length; i++) {
      final double x = d[i] == 0.0 ? 0.0 : d[i];  // one zero
      final long b = Double.doubleToLongBits(x);
      e[2 * i] = IntValue.gen((int) (b >> 32));
      e[2 * i + 1] = IntValue.gen((int) b);
    }
    return new TupleValue(e);
  }

  static final class M {
    final int r, c; final double[] d;
    M(int r, int c) { this(r, c, new double[r * c]); }
    M(int r, int c, double[] d) { this.r = r; this.c = c; this.d = d; }
    double at(int i, int j) { return d[i * c + j]; }
    void set(int i, int j, double x) { d[i * c + j] = x; }
  }

  static M mat(final Value v) {
    final RecordValue rec = (RecordValue) v.toRcd();
    if (rec == null) throw new IllegalArgumentException("not a matrix: " + v);
    final int r = ((IntValue) rec.select(new StringValue(R))).val;
    final int c = ((IntValue) rec.select(new StringValue(C))).val;
    final double[] d = vec(rec.select(new StringValue(D)));
    if (d.length != r * c) throw new IllegalArgumentException("matrix of wrong length");
    return new M(r, c, d);
  }

  static Value val(final M m) {
    return new RecordValue(
      new UniqueString[] { R, C, D },
      new Value[] { IntValue.gen(m.r), IntValue.gen(m.c), val(m.d) }, false);
  }

  static Value bool(final boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int intv(final Value v) { return ((IntValue) v).val; }
  static int[] ints(final Value v) {
    final TupleValue t = (TupleValue) v.toTuple();
    final int[] out = new int[t.elems.length];
    for (int i = 0; i < out.length; i++) out[i] = ((IntValue) t.elems[i]).val;
    return out;
  }

  // ---------------------------------------------------------------- scalars
  @TLAPlusOperator(identifier = "RI", module = "Num", warn = false)
  public static Value RI(final Value n) { return val((double) intv(n)); }

  @TLAPlusOperator(identifier = "RQ", module = "Num", warn = false)
  public static Value RQ(final Value n, final Value d) {
    return val((double) intv(n) / (double) intv(d));
  }

  @TLAPlusOperator(identifier = "RE", module = "Num", warn = false)
  public static Value RE(final Value n, final Value e) {
    return val(intv(n) * Math.pow(10.0, intv(e)));
  }

  @TLAPlusOperator(identifier = "RAdd", module = "Num", warn = false)
  public static Value RAdd(final Value a, final Value b) { return val(real(a) + real(b)); }
  @TLAPlusOperator(identifier = "RSub", module = "Num", warn = false)
  public static Value RSub(final Value a, final Value b) { return val(real(a) - real(b)); }
  @TLAPlusOperator(identifier = "RMul", module = "Num", warn = false)
  public static Value RMul(final Value a, final Value b) { return val(real(a) * real(b)); }
  @TLAPlusOperator(identifier = "RDiv", module = "Num", warn = false)
  public static Value RDiv(final Value a, final Value b) { return val(real(a) / real(b)); }
  @TLAPlusOperator(identifier = "RNeg", module = "Num", warn = false)
  public static Value RNeg(final Value a) { return val(-real(a)); }
  @TLAPlusOperator(identifier = "RAbs", module = "Num", warn = false)
  public static Value RAbs(final Value a) { return val(Math.abs(real(a))); }
  @TLAPlusOperator(identifier = "RSqrt", module = "Num", warn = false)
  public static Value RSqrt(final Value a) { return val(Math.sqrt(real(a))); }
  @TLAPlusOperator(identifier = "RSin", module = "Num", warn = false)
  public static Value RSin(final Value a) { return val(Math.sin(real(a))); }
  @TLAPlusOperator(identifier = "RCos", module = "Num", warn = false)
  public static Value RCos(final Value a) { return val(Math.cos(real(a))); }
  @TLAPlusOperator(identifier = "RTan", module = "Num", warn = false)
  public static Value RTan(final Value a) { return val(Math.tan(real(a))); }
  @TLAPlusOperator(identifier = "RAtan2", module = "Num", warn = false)
  public static Value RAtan2(final Value a, final Value b) {
    return val(Math.atan2(real(a), real(b)));
  }
  @TLAPlusOperator(identifier = "RLt", module = "Num", warn = false)
  public static Value RLt(final Value a, final Value b) { return bool(real(a) < real(b)); }
  @TLAPlusOperator(identifier = "RLe", module = "Num", warn = false)
  public static Value RLe(final Value a, final Value b) { return bool(real(a) <= real(b)); }
  @TLAPlusOperator(identifier = "RFloor", module = "Num", warn = false)
  public static Value RFloor(final Value a) {
    return IntValue.gen((int) Math.floor(real(a)));
  }
  @TLAPlusOperator(identifier = "RFinite", module = "Num", warn = false)
  public static Value RFinite(final Value v) {
    for (double x : vec(v)) if (Double.isNaN(x) || Double.isInfinite(x)) return bool(false);
    return bool(true);
  }
  /** Decimal rendering, for diagnostics. */
  @TLAPlusOperator(identifier = "RShow", module = "Num", warn = false)
  public static Value RShow(final Value v) {
    return new StringValue(java.util.Arrays.toString(vec(v)));
  }

  // ---------------------------------------------------------------- vectors
  @TLAPlusOperator(identifier = "VLen", module = "Num", warn = false)
  public static Value VLen(final Value v) { return IntValue.gen(vec(v).length); }
  @TLAPlusOperator(identifier = "VAt", module = "Num", warn = false)
  public static Value VAt(final Value v, final Value i) { return val(vec(v)[intv(i) - 1]); }
  @TLAPlusOperator(identifier = "VZero", module = "Num", warn = false)
  public static Value VZero(final Value n) { return val(new double[intv(n)]); }
  @TLAPlusOperator(identifier = "VSlice", module = "Num", warn = false)
  public static Value VSlice(final Value v, final Value i, final Value n) {
    final double[] d = vec(v);
    final int s = intv(i) - 1;
    return val(java.util.Arrays.copyOfRange(d, s, s + intv(n)));
  }
  @TLAPlusOperator(identifier = "VAdd", module = "Num", warn = false)
  public static Value VAdd(final Value a, final Value b) {
    final double[] x = vec(a), y = vec(b);
    same(x, y);
    final double[] o = new double[x.length];
    for (int i = 0; i < o.length; i++) o[i] = x[i] + y[i];
    return val(o);
  }
  @TLAPlusOperator(identifier = "VSub", module = "Num", warn = false)
  public static Value VSub(final Value a, final Value b) {
    final double[] x = vec(a), y = vec(b);
    same(x, y);
    final double[] o = new double[x.length];
    for (int i = 0; i < o.length; i++) o[i] = x[i] - y[i];
    return val(o);
  }
  @TLAPlusOperator(identifier = "VScale", module = "Num", warn = false)
  public static Value VScale(final Value s, final Value a) {
    final double[] x = vec(a);
    final double k = real(s);
    final double[] o = new double[x.length];
    for (int i = 0; i < o.length; i++) o[i] = k * x[i];
    return val(o);
  }
  @TLAPlusOperator(identifier = "VDot", module = "Num", warn = false)
  public static Value VDot(final Value a, final Value b) {
    final double[] x = vec(a), y = vec(b);
    same(x, y);
    double o = 0;
    for (int i = 0; i < x.length; i++) o += x[i] * y[i];
    return val(o);
  }
  @TLAPlusOperator(identifier = "VNorm", module = "Num", warn = false)
  public static Value VNorm(final Value a) {
    double o = 0;
    for (double x : vec(a)) o += x * x;
    return val(Math.sqrt(o));
  }
  private static void same(final double[] a, final double[] b) {
    if (a.length != b.length) throw new IllegalArgumentException("vector length mismatch");
  }
  private static boolean near(final double a, final double b, final double abs, final double rel) {
    if (Double.isNaN(a) || Double.isNaN(b)) return false;
    if (a == b) return true;
    return Math.abs(a - b) <= abs + rel * Math.max(Math.abs(a), Math.abs(b));
  }
  /** Entry-wise |a-b| <= abs + rel * max|entry of a or b|; FALSE on NaN or length mismatch. */
  @TLAPlusOperator(identifier = "VNear", module = "Num", warn = false)
  public static Value VNear(final Value a, final Value b, final Value abs, final Value rel) {
    final double[] x = vec(a), y = vec(b);
    if (x.length != y.length) return bool(false);
    double mx = 0;
    for (int i = 0; i < x.length; i++) {
      if (!Double.isFinite(x[i]) || !Double.isFinite(y[i])) return bool(false);
      mx = Math.max(mx, Math.max(Math.abs(x[i]), Math.abs(y[i])));
    }
    final double tol = real(abs) + real(rel) * mx;
    for (int i = 0; i < x.length; i++) if (Math.abs(x[i] - y[i]) > tol) return bool(false);
    return bool(true);
  }

  /** Entry by entry: each within abs + rel times its own size. */
  @TLAPlusOperator(identifier = "VNearEach", module = "Num", warn = false)
  public static Value VNearEach(final Value a, final Value b, final Value abs, final Value rel) {
    final double[] x = vec(a), y = vec(b);
    if (x.length != y.length) return bool(false);
    final double ta = real(abs), tr = real(rel);
    for (int i = 0; i < x.length; i++) {
      if (!Double.isFinite(x[i]) || !Double.isFinite(y[i])) return bool(false);
      if (Math.abs(x[i] - y[i]) > ta + tr * Math.max(Math.abs(x[i]), Math.abs(y[i]))) return bool(false);
    }
    return bool(true);
  }

  // ---------------------------------------------------------------- matrices
  @TLAPlusOperator(identifier = "MZero", module = "Num", warn = false)
  public static Value MZero(final Value r, final Value c) { return val(new M(intv(r), intv(c))); }
  @TLAPlusOperator(identifier = "MDiag", module = "Num", warn = false)
  public static Value MDiag(final Value v) {
    final double[] d = vec(v);
    final M m = new M(d.length, d.length);
    for (int i = 0; i < d.length; i++) m.set(i, i, d[i]);
    return val(m);
  }
  @TLAPlusOperator(identifier = "MEye", module = "Num", warn = false)
  public static Value MEye(final Value n) {
    final int k = intv(n);
    final M m = new M(k, k);
    for (int i = 0; i < k; i++) m.set(i, i, 1.0);
    return val(m);
  }
  @TLAPlusOperator(identifier = "MDiagOf", module = "Num", warn = false)
  public static Value MDiagOf(final Value a) {
    final M m = mat(a);
    final double[] o = new double[Math.min(m.r, m.c)];
    for (int i = 0; i < o.length; i++) o[i] = m.at(i, i);
    return val(o);
  }
  @TLAPlusOperator(identifier = "MAdd", module = "Num", warn = false)
  public static Value MAdd(final Value a, final Value b) { return val(lin(mat(a), mat(b), 1.0)); }
  @TLAPlusOperator(identifier = "MSub", module = "Num", warn = false)
  public static Value MSub(final Value a, final Value b) { return val(lin(mat(a), mat(b), -1.0)); }
  private static M lin(final M a, final M b, final double s) {
    if (a.r != b.r || a.c != b.c) throw new IllegalArgumentException("matrix size mismatch");
    final M o = new M(a.r, a.c);
    for (int i = 0; i < o.d.length; i++) o.d[i] = a.d[i] + s * b.d[i];
    return o;
  }
  @TLAPlusOperator(identifier = "MScale", module = "Num", warn = false)
  public static Value MScale(final Value s, final Value a) {
    final M m = mat(a);
    final double k = real(s);
    final M o = new M(m.r, m.c);
    for (int i = 0; i < o.d.length; i++) o.d[i] = k * m.d[i];
    return val(o);
  }
  @TLAPlusOperator(identifier = "MMul", module = "Num", warn = false)
  public static Value MMul(final Value a, final Value b) { return val(mul(mat(a), mat(b))); }
  static M mul(final M a, final M b) {
    if (a.c != b.r) throw new IllegalArgumentException("matrix product size mismatch");
    final M o = new M(a.r, b.c);
    for (int i = 0; i < a.r; i++) {
      for (int k = 0; k < a.c; k++) {
        final double x = a.at(i, k);
        if (x == 0.0) continue;
        for (int j = 0; j < b.c; j++) o.d[i * b.c + j] += x * b.d[k * b.c + j];
      }
    }
    return o;
  }
  @TLAPlusOperator(identifier = "MT", module = "Num", warn = false)
  public static Value MT(final Value a) {
    final M m = mat(a);
    final M o = new M(m.c, m.r);
    for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) o.set(j, i, m.at(i, j));
    return val(o);
  }
  @TLAPlusOperator(identifier = "MVec", module = "Num", warn = false)
  public static Value MVec(final Value a, final Value v) {
    final M m = mat(a);
    final double[] x = vec(v);
    if (m.c != x.length) throw new IllegalArgumentException("matrix-vector size mismatch");
    final double[] o = new double[m.r];
    for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) o[i] += m.at(i, j) * x[j];
    return val(o);
  }
  @TLAPlusOperator(identifier = "MInv", module = "Num", warn = false)
  public static Value MInv(final Value a) {
    final M m = mat(a);
    final int n = m.r;
    if (m.c != n) throw new IllegalArgumentException("inverse of a non-square matrix");
    final double[][] w = new double[n][2 * n];
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < n; j++) w[i][j] = m.at(i, j);
      w[i][n + i] = 1.0;
    }
    for (int col = 0; col < n; col++) {
      int p = col;
      for (int i = col + 1; i < n; i++) if (Math.abs(w[i][col]) > Math.abs(w[p][col])) p = i;
      final double[] t = w[p]; w[p] = w[col]; w[col] = t;
      final double piv = w[col][col];
      for (int j = 0; j < 2 * n; j++) w[col][j] /= piv;
      for (int i = 0; i < n; i++) {
        if (i == col) continue;
        final double f = w[i][col];
        if (f == 0.0) continue;
        for (int j = 0; j < 2 * n; j++) w[i][j] -= f * w[col][j];
      }
    }
    final M o = new M(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o.set(i, j, w[i][n + j]);
    return val(o);
  }
  @TLAPlusOperator(identifier = "MBlock", module = "Num", warn = false)
  public static Value MBlock(final Value a, final Value r0, final Value c0, final Value nr,
    final Value nc) {
    final M m = mat(a);
    final int r = intv(r0) - 1, c = intv(c0) - 1;
    final M o = new M(intv(nr), intv(nc));
    for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) o.set(i, j, m.at(r + i, c + j));
    return val(o);
  }
  @TLAPlusOperator(identifier = "MPaste", module = "Num", warn = false)
  public static Value MPaste(final Value a, final Value r0, final Value c0, final Value b) {
    final M m = mat(a), s = mat(b);
    final M o = new M(m.r, m.c, m.d.clone());
    final int r = intv(r0) - 1, c = intv(c0) - 1;
    for (int i = 0; i < s.r; i++) for (int j = 0; j < s.c; j++) o.set(r + i, c + j, s.at(i, j));
    return val(o);
  }
  /** o[i][j] = m[idx[i]][idx[j]], 0 where either index is 0. */
  @TLAPlusOperator(identifier = "MGather", module = "Num", warn = false)
  public static Value MGather(final Value a, final Value idx) {
    final M m = mat(a);
    final int[] ix = ints(idx);
    final M o = new M(ix.length, ix.length);
    for (int i = 0; i < ix.length; i++) {
      for (int j = 0; j < ix.length; j++) {
        if (ix[i] > 0 && ix[j] > 0) o.set(i, j, m.at(ix[i] - 1, ix[j] - 1));
      }
    }
    return val(o);
  }
  /**
   * Covariance comparison: |a-b| <= tol * sqrt(v_i v_j) + abs with v the larger of the two
   * diagonals, so that every component is compared at its own scale.
   */
  @TLAPlusOperator(identifier = "MNearCov", module = "Num", warn = false)
  public static Value MNearCov(final Value a, final Value b, final Value rel, final Value abs) {
    final M x = mat(a), y = mat(b);
    if (x.r != y.r || x.c != y.c || x.r != x.c) return bool(false);
    for (double d : x.d) if (!Double.isFinite(d)) return bool(false);
    for (double d : y.d) if (!Double.isFinite(d)) return bool(false);
    final double[] s = new double[x.r];
    for (int i = 0; i < x.r; i++) {
      s[i] = Math.sqrt(Math.max(Math.abs(x.at(i, i)), Math.abs(y.at(i, i))));
    }
    final double t = real(rel), e = real(abs);
    for (int i = 0; i < x.r; i++) {
      for (int j = 0; j < x.c; j++) {
        if (Math.abs(x.at(i, j) - y.at(i, j)) > t * s[i] * s[j] + e) return bool(false);
      }
    }
    return bool(true);
  }
  @TLAPlusOperator(identifier = "MNear", module = "Num", warn = false)
  public static Value MNear(final Value a, final Value b, final Value abs, final Value rel) {
    final M x = mat(a), y = mat(b);
    if (x.r != y.r || x.c != y.c) return bool(false);
    double mx = 0;
    for (int i = 0; i < x.d.length; i++) {
      if (!Double.isFinite(x.d[i]) || !Double.isFinite(y.d[i])) return bool(false);
      mx = Math.max(mx, Math.max(Math.abs(x.d[i]), Math.abs(y.d[i])));
    }
    final double tol = real(abs) + real(rel) * mx;
    for (int i = 0; i < x.d.length; i++) if (Math.abs(x.d[i] - y.d[i]) > tol) return bool(false);
    return bool(true);
  }
  /** The largest absolute entry. */
  @TLAPlusOperator(identifier = "MMax", module = "Num", warn = false)
  public static Value MMax(final Value a) {
    double mx = 0;
    for (double d : mat(a).d) mx = Math.max(mx, Math.abs(d));
    return val(mx);
  }
  /** First entry where a and b differ the most, for diagnostics: "(i,j): a vs b". */
  @TLAPlusOperator(identifier = "MDiff", module = "Num", warn = false)
  public static Value MDiff(final Value a, final Value b) {
    final M x = mat(a), y = mat(b);
    if (x.r != y.r || x.c != y.c) {
      return new StringValue("size " + x.r + "x" + x.c + " vs " + y.r + "x" + y.c);
    }
    int bi = 0, bj = 0;
    double worst = -1;
    for (int i = 0; i < x.r; i++) {
      for (int j = 0; j < x.c; j++) {
        final double e = Math.abs(x.at(i, j) - y.at(i, j));
        if (e > worst || Double.isNaN(e)) { worst = e; bi = i; bj = j; }
      }
    }
    return new StringValue("(" + (bi + 1) + "," + (bj + 1) + "): " + x.at(bi, bj) + " vs "
      + y.at(bi, bj));
  }
  @TLAPlusOperator(identifier = "MSymmetric", module = "Num", warn = false)
  public static Value MSymmetric(final Value a, final Value rel) {
    final M m = mat(a);
    if (m.r != m.c) return bool(false);
    for (double d : m.d) if (!Double.isFinite(d)) return bool(false);
    final double t = real(rel);
    for (int i = 0; i < m.r; i++) {
      for (int j = 0; j < i; j++) {
        final double s = Math.sqrt(Math.abs(m.at(i, i) * m.at(j, j)));
        if (Math.abs(m.at(i, j) - m.at(j, i)) > t * s + 1e-12) return bool(false);
      }
    }
    return bool(true);
  }
  /**
   * Positive semi-definite up to rounding: the symmetric part, scaled to unit diagonal, plus
   * tol * I has a Cholesky factor.
   */
  @TLAPlusOperator(identifier = "MPsd", module = "Num", warn = false)
  public static Value MPsd(final Value a, final Value tol) {
    final M m = mat(a);
    if (m.r != m.c) return bool(false);
    final int n = m.r;
    final double t = real(tol);
    for (double d : m.d) if (!Double.isFinite(d)) return bool(false);
    double mx = 0;
    for (int i = 0; i < n; i++) mx = Math.max(mx, Math.abs(m.at(i, i)));
    final double[] s = new double[n];
    for (int i = 0; i < n; i++) {
      if (m.at(i, i) < -t * mx - 1e-300) return bool(false);
      s[i] = Math.sqrt(Math.max(m.at(i, i), 1e-6 * mx + 1e-300));
    }
    final double[][] l = new double[n][n];
    for (int i = 0; i < n; i++) {
      for (int j = 0; j <= i; j++) {
        double x = 0.5 * (m.at(i, j) + m.at(j, i)) / (s[i] * s[j]);
        if (i == j) x += t;
        for (int k = 0; k < j; k++) x -= l[i][k] * l[j][k];
        if (i == j) {
          if (x < 0) return bool(false);
          l[i][i] = Math.sqrt(x);
        } else {
          l[i][j] = l[j][j] > 0 ? x / l[j][j] : 0.0;
        }
      }
    }
    return bool(true);
  }
}
