package vt;

/** Floating-point search (dual active set) used as an untrusted oracle: the
 *  point it returns is checked with exact arithmetic in TLA+. */
final class Fast {
  static double dot(double[] a, double[] b) {
    double s = 0;
    for (int i = 0; i < a.length; i++) s += a[i] * b[i];
    return s;
  }
  static double[] solve(double[][] M, double[] r, int n) {
    double[][] a = new double[n][n + 1];
    for (int i = 0; i < n; i++) {
      System.arraycopy(M[i], 0, a[i], 0, n);
      a[i][n] = r[i];
    }
    for (int c = 0; c < n; c++) {
      int p = c;
      for (int i = c + 1; i < n; i++)
        if (Math.abs(a[i][c]) > Math.abs(a[p][c])) p = i;
      if (Math.abs(a[p][c]) < 1e-300) return null;
      double[] t = a[p];
      a[p] = a[c];
      a[c] = t;
      for (int i = c + 1; i < n; i++) {
        double f = a[i][c] / a[c][c];
        if (f == 0) continue;
        for (int j = c; j <= n; j++) a[i][j] -= f * a[c][j];
      }
    }
    double[] x = new double[n];
    for (int i = n - 1; i >= 0; i--) {
      double s = a[i][n];
      for (int j = i + 1; j < n; j++) s -= a[i][j] * x[j];
      x[i] = s / a[i][i];
    }
    return x;
  }

  /** min 1/2 x'Hx + g'x, Ax <= b. Returns x or null; status[0] says why. */
  static double[] qp(double[][] H, double[] g, double[][] A0, double[] b0, String[] status, double[] lamOut) {
    int n = g.length, m = b0.length;
    double[][] A = new double[m][];
    double[] b = new double[m], nrm = new double[m];
    for (int i = 0; i < m; i++) {
      nrm[i] = Math.sqrt(dot(A0[i], A0[i]));
      if (!(nrm[i] < 1e300)) {
        status[0] = "unknown";
        return null;
      }
      if (nrm[i] < 1e-290) { // 0 <= b
        if (b0[i] < 0) {
          status[0] = "infeasible";
          lamOut[i] = 1;
          return null;
        }
        A[i] = null;
        continue;
      }
      A[i] = new double[n];
      for (int j = 0; j < n; j++) A[i][j] = A0[i][j] / nrm[i];
      b[i] = b0[i] / nrm[i];
    }
    double[][] Hi = new double[n][n];
    for (int j = 0; j < n; j++) {
      double[] e = new double[n];
      e[j] = 1;
      double[] s = solve(H, e, n);
      if (s == null) {
        status[0] = "unknown";
        return null;
      }
      for (int i = 0; i < n; i++) Hi[i][j] = s[i];
    }
    double[] x = new double[n];
    for (int i = 0; i < n; i++) x[i] = -dot(Hi[i], g);
    int[] W = new int[n + 2];
    double[] u = new double[n + 2];
    int k = 0;
    for (int iter = 0; iter < 2000; iter++) {
      int p = -1;
      double worst = 0;
      double xs = 1;
      for (double v : x) xs = Math.max(xs, Math.abs(v));
      for (int i = 0; i < m; i++) {
        if (A[i] == null) continue;
        double v = dot(A[i], x) - b[i];
        if (v > 1e-13 * xs && v > worst) {
          boolean in = false;
          for (int q = 0; q < k; q++) in |= W[q] == i;
          if (in) continue;
          worst = v;
          p = i;
        }
      }
      if (p < 0) {
        status[0] = "optimal";
        for (int q = 0; q < k; q++) lamOut[W[q]] = u[q] / nrm[W[q]];
        return x;
      }
      double up = 0;
      while (true) {
        double[] np = new double[n];
        for (int j = 0; j < n; j++) np[j] = -A[p][j];
        double[] z = new double[n];
        for (int i = 0; i < n; i++) z[i] = dot(Hi[i], np);
        double full = dot(z, np);
        double[] r = new double[k];
        if (k > 0) {
          double[][] HN = new double[k][n], G = new double[k][k];
          for (int q = 0; q < k; q++)
            for (int i = 0; i < n; i++) HN[q][i] = -dot(Hi[i], A[W[q]]);
          double[] rhs = new double[k];
          for (int q = 0; q < k; q++) {
            for (int t = 0; t < k; t++) G[q][t] = -dot(A[W[q]], HN[t]);
            rhs[q] = dot(HN[q], np);
          }
          r = solve(G, rhs, k);
          if (r == null) {
            status[0] = "unknown";
            return null;
          }
          for (int q = 0; q < k; q++)
            for (int i = 0; i < n; i++) z[i] -= r[q] * HN[q][i];
        }
        double zn = dot(z, np);
        boolean indep = k < n && zn > 1e-13 * full;
        double t1 = Double.POSITIVE_INFINITY;
        int drop = -1;
        for (int q = 0; q < k; q++)
          if (r[q] > 1e-14 && u[q] / r[q] < t1) {
            t1 = u[q] / r[q];
            drop = q;
          }
        if (!indep && drop < 0) {
          status[0] = "infeasible";
          lamOut[p] += 1 / nrm[p];
          for (int q = 0; q < k; q++) lamOut[W[q]] += Math.max(0, -r[q]) / nrm[W[q]];
          return null;
        }
        double t2 = indep ? (dot(A[p], x) - b[p]) / zn : Double.POSITIVE_INFINITY;
        double t = Math.min(t1, t2);
        if (indep)
          for (int i = 0; i < n; i++) x[i] += t * z[i];
        for (int q = 0; q < k; q++) u[q] -= t * r[q];
        up += t;
        if (t2 <= t1) {
          W[k] = p;
          u[k] = up;
          k++;
          break;
        }
        for (int q = drop; q + 1 < k; q++) {
          W[q] = W[q + 1];
          u[q] = u[q + 1];
        }
        k--;
      }
    }
    status[0] = "unknown";
    return null;
  }

  static double[] dbl(Rat[] v) {
    double[] o = new double[v.length];
    for (int i = 0; i < o.length; i++) o[i] = v[i].nan ? Double.NaN : v[i].toDouble();
    return o;
  }
  static double[][] dbl(Rat[][] v) {
    double[][] o = new double[v.length][];
    for (int i = 0; i < o.length; i++) o[i] = dbl(v[i]);
    return o;
  }
  static Solve.Result wrap(String st, double[] x, double[] lam) {
    Solve.Result r = new Solve.Result(st);
    if (x != null) {
      r.x = new Rat[x.length];
      for (int i = 0; i < x.length; i++) {
        if (Double.isNaN(x[i]) || Double.isInfinite(x[i])) return new Solve.Result("unknown");
        r.x[i] = Rat.of(x[i]);
      }
    }
    r.lam = new Rat[lam.length];
    for (int i = 0; i < lam.length; i++) r.lam[i] = lam[i] == 0 ? Rat.ZERO : Rat.of(lam[i]);
    return r;
  }
  static Solve.Result qp(Rat[][] H, Rat[] g, Rat[][] A, Rat[] b) {
    String[] st = new String[1];
    double[] lam = new double[b.length];
    double[] x = qp(dbl(H), dbl(g), dbl(A), dbl(b), st, lam);
    return wrap(st[0], x, lam);
  }
  /** min c'x, Ax <= b: proximal point, each step a QP. */
  static Solve.Result lp(Rat[] c0, Rat[][] A0, Rat[] b0) {
    double[] c = dbl(c0), b = dbl(b0);
    double[][] A = dbl(A0);
    int n = c.length;
    String[] st = new String[1];
    double[] lam = new double[b.length];
    double nc = Math.sqrt(dot(c, c)), d = nc == 0 ? 1 : nc * 1e-2;
    double[][] H = new double[n][n];
    for (int i = 0; i < n; i++) H[i][i] = d;
    double[] x = new double[n];
    for (int it = 0; it < 60; it++) {
      double[] g = new double[n];
      for (int i = 0; i < n; i++) g[i] = c[i] - d * x[i];
      java.util.Arrays.fill(lam, 0);
      double[] y = qp(H, g, A, b, st, lam);
      if (y == null) return wrap(st[0], null, lam);
      double mv = 0, mx = 1;
      for (int i = 0; i < n; i++) {
        mv = Math.max(mv, Math.abs(y[i] - x[i]));
        mx = Math.max(mx, Math.abs(y[i]));
      }
      x = y;
      if (mv < 1e-11 * mx) return wrap("optimal", x, lam);
      if (mx > 1e9) return new Solve.Result("unbounded");
      if (it % 6 == 5) {
        d /= 10;
        for (int i = 0; i < n; i++) H[i][i] = d;
      }
    }
    return new Solve.Result("unbounded");
  }
}
