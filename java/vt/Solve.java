package vt;

/** Exact searches used as untrusted oracles. Rows are rounded to 80 bits first:
 *  whatever they return is re-checked on the original data in TLA+. */
final class Solve {
  static final class Result {
    String status; // "optimal", "infeasible", "unbounded", "unknown"
    Rat[] x;
    Rat[] lam; // multipliers (optimal) or Farkas certificate (infeasible)
    Result(String s) { status = s; }
  }
  static final int K = 80;

  static Rat[] rnd(Rat[] v) {
    Rat[] o = new Rat[v.length];
    for (int i = 0; i < v.length; i++) o[i] = v[i].round(K);
    return o;
  }
  static Rat[] zeros(int n) {
    Rat[] z = new Rat[n];
    java.util.Arrays.fill(z, Rat.ZERO);
    return z;
  }

  /** Gauss-Jordan inverse of (square) M applied to the columns of B; null if singular. */
  static Rat[][] solveLin(Rat[][] M, Rat[][] B) {
    int n = M.length, c = n == 0 ? 0 : B[0].length;
    Rat[][] a = new Rat[n][n + c];
    for (int i = 0; i < n; i++) {
      System.arraycopy(M[i], 0, a[i], 0, n);
      System.arraycopy(B[i], 0, a[i], n, c);
    }
    for (int col = 0; col < n; col++) {
      int p = -1;
      for (int i = col; i < n; i++)
        if (a[i][col].signum() != 0) {
          p = i;
          break;
        }
      if (p < 0) return null;
      Rat[] t = a[p];
      a[p] = a[col];
      a[col] = t;
      Rat inv = a[col][col].inv();
      for (int j = col; j < n + c; j++) a[col][j] = a[col][j].mul(inv);
      for (int i = 0; i < n; i++)
        if (i != col && a[i][col].signum() != 0) {
          Rat f = a[i][col];
          for (int j = col; j < n + c; j++) a[i][j] = a[i][j].sub(f.mul(a[col][j]));
        }
    }
    Rat[][] o = new Rat[n][c];
    for (int i = 0; i < n; i++) System.arraycopy(a[i], n, o[i], 0, c);
    return o;
  }

  static Rat[] mv(Rat[][] M, Rat[] v) {
    Rat[] o = new Rat[M.length];
    for (int i = 0; i < o.length; i++) o[i] = RatOverrides.dot(M[i], v);
    return o;
  }

  /** min 1/2 x'Hx + g'x, A x <= b, H positive definite. Dual active set. */
  static Result qp(Rat[][] H0, Rat[] g0, Rat[][] A0, Rat[] b0) {
    int n = g0.length, m = b0.length;
    Rat[][] H = new Rat[n][];
    for (int i = 0; i < n; i++) H[i] = rnd(H0[i]);
    Rat[] g = rnd(g0);
    Rat[][] A = new Rat[m][];
    Rat[] b = new Rat[m];
    for (int i = 0; i < m; i++) {
      A[i] = rnd(A0[i]);
      b[i] = b0[i].round(K);
      if (b[i].nan) return new Result("unknown");
      for (Rat r : A[i])
        if (r.nan) return new Result("unknown");
    }
    Rat[][] I = new Rat[n][n];
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) I[i][j] = i == j ? Rat.of(1) : Rat.ZERO;
    Rat[][] Hi = solveLin(H, I);
    if (Hi == null) return new Result("unknown");
    Rat[] x = mv(Hi, g);
    for (int i = 0; i < n; i++) x[i] = x[i].neg();
    int[] W = new int[n + 1];
    Rat[] u = new Rat[n + 1];
    int k = 0;
    for (int iter = 0; iter < 400; iter++) {
      // most violated constraint
      int p = -1;
      double worst = 0;
      double[] xd = new double[n];
      Rat sp = null;
      for (int i = 0; i < m; i++) {
        Rat s = b[i].sub(RatOverrides.dot(A[i], x));
        if (s.signum() < 0) {
          double nn = 1e-300;
          for (Rat r : A[i]) nn += Math.abs(r.toDouble());
          double v = -s.toDouble() / nn;
          if (p < 0 || v > worst) {
            worst = v;
            p = i;
            sp = s;
          }
        }
      }
      if (p < 0) {
        Result r = new Result("optimal");
        r.x = x;
        r.lam = zeros(m);
        for (int i = 0; i < k; i++) r.lam[W[i]] = r.lam[W[i]].add(u[i]);
        return r;
      }
      Rat up = Rat.ZERO;
      Rat[] np = new Rat[n]; // constraint in the form  n'x >= -b, n = -a
      for (int i = 0; i < n; i++) np[i] = A[p][i].neg();
      while (true) {
        // r = (N'HiN)^-1 N'Hi np ; z = Hi(np - N r)
        Rat[] Hn = mv(Hi, np);
        Rat[] r = new Rat[k];
        Rat[] z = Hn.clone();
        if (k > 0) {
          Rat[][] HN = new Rat[k][];
          Rat[][] N = new Rat[k][];
          for (int i = 0; i < k; i++) {
            N[i] = new Rat[n];
            for (int j = 0; j < n; j++) N[i][j] = A[W[i]][j].neg();
            HN[i] = mv(Hi, N[i]);
          }
          Rat[][] G = new Rat[k][k];
          Rat[][] rhs = new Rat[k][1];
          for (int i = 0; i < k; i++) {
            for (int j = 0; j < k; j++) G[i][j] = RatOverrides.dot(N[i], HN[j]);
            rhs[i][0] = RatOverrides.dot(N[i], Hn);
          }
          Rat[][] s = solveLin(G, rhs);
          if (s == null) return new Result("unknown");
          for (int i = 0; i < k; i++) {
            r[i] = s[i][0];
            for (int j = 0; j < n; j++) z[j] = z[j].sub(r[i].mul(HN[i][j]));
          }
        }
        Rat zn = RatOverrides.dot(z, np);
        Rat t1 = null;
        int drop = -1;
        for (int i = 0; i < k; i++)
          if (r[i].signum() > 0) {
            Rat q = u[i].div(r[i]);
            if (t1 == null || q.lt(t1)) {
              t1 = q;
              drop = i;
            }
          }
        if (zn.signum() <= 0 && t1 == null) {
          // infeasible: np = N r with r <= 0
          Result res = new Result("infeasible");
          res.lam = zeros(m);
          res.lam[p] = Rat.of(1);
          for (int i = 0; i < k; i++) res.lam[W[i]] = res.lam[W[i]].add(r[i].neg());
          return res;
        }
        Rat t2 = null;
        if (zn.signum() > 0) {
          Rat s = b[p].sub(RatOverrides.dot(A[p], x));
          t2 = s.neg().div(zn);
        }
        boolean full = t2 != null && (t1 == null || t2.le(t1));
        Rat t = full ? t2 : t1;
        if (t2 != null)
          for (int j = 0; j < n; j++) x[j] = x[j].add(t.mul(z[j]));
        for (int i = 0; i < k; i++) u[i] = u[i].sub(t.mul(r[i]));
        up = up.add(t);
        if (full) {
          W[k] = p;
          u[k] = up;
          k++;
          break;
        }
        for (int i = drop; i + 1 < k; i++) {
          W[i] = W[i + 1];
          u[i] = u[i + 1];
        }
        k--;
      }
    }
    return new Result("unknown");
  }

  /** min c'x, A x <= b, x free. Exact primal simplex (Bland) on the dual
   *  max -b'l, A'l = -c, l >= 0, with the two phases merged by a big penalty
   *  replaced by an explicit phase 1. */
  static Result lp(Rat[] c0, Rat[][] A0, Rat[] b0) {
    int n = c0.length, m = b0.length;
    Rat[] c = rnd(c0), b = rnd(b0);
    Rat[][] A = new Rat[m][];
    for (int i = 0; i < m; i++) A[i] = rnd(A0[i]);
    // first: primal feasibility through a QP with H = I (gives Farkas if not)
    Rat[][] I = new Rat[n][n];
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) I[i][j] = i == j ? Rat.of(1) : Rat.ZERO;
    Result f = qp(I, zeros(n), A, b);
    if (!f.status.equals("optimal")) return f;
    // dual in standard form: n rows, m + n (artificial) columns
    Rat[][] T = new Rat[n][m + n + 1];
    int[] B = new int[n];
    for (int i = 0; i < n; i++) {
      Rat rhs = c[i].neg();
      boolean neg = rhs.signum() < 0;
      for (int j = 0; j < m; j++) T[i][j] = neg ? A[j][i].neg() : A[j][i];
      for (int j = 0; j < n; j++) T[i][m + j] = i == j ? Rat.of(1) : Rat.ZERO;
      T[i][m + n] = rhs.abs();
      B[i] = m + i;
    }
    Rat[] cost = zeros(m + n);
    for (int j = 0; j < n; j++) cost[m + j] = Rat.of(1);
    if (!simplex(T, B, cost, m + n)) return new Result("unknown");
    for (int i = 0; i < n; i++)
      if (B[i] >= m && T[i][m + n].signum() != 0) return new Result("unbounded");
    cost = zeros(m + n);
    for (int j = 0; j < m; j++) cost[j] = b[j];
    // artificials stay at zero: forbid them to enter
    if (!simplex(T, B, cost, m)) return new Result("unknown");
    Result r = new Result("optimal");
    r.lam = zeros(m);
    for (int i = 0; i < n; i++)
      if (B[i] < m) r.lam[B[i]] = T[i][m + n];
    // primal: reduced costs of the artificial columns give x (up to row sign)
    r.x = new Rat[n];
    for (int j = 0; j < n; j++) {
      Rat y = Rat.ZERO; // y_j = sum_i cost[B_i] * T[i][m+j]
      for (int i = 0; i < n; i++)
        if (B[i] < m) y = y.add(cost[B[i]].mul(T[i][m + j]));
      r.x[j] = c[j].neg().signum() < 0 ? y.neg() : y;
    }
    return r;
  }

  static boolean simplex(Rat[][] T, int[] B, Rat[] cost, int ncols) {
    int n = T.length, w = T.length == 0 ? 0 : T[0].length - 1;
    for (int iter = 0; iter < 2000; iter++) {
      int in = -1;
      for (int j = 0; j < ncols && in < 0; j++) {
        Rat rc = cost[j];
        for (int i = 0; i < n; i++)
          if (cost[B[i]].signum() != 0) rc = rc.sub(cost[B[i]].mul(T[i][j]));
        if (rc.signum() < 0) in = j;
      }
      if (in < 0) return true;
      int out = -1;
      Rat best = null;
      for (int i = 0; i < n; i++)
        if (T[i][in].signum() > 0) {
          Rat q = T[i][w].div(T[i][in]);
          if (out < 0 || q.lt(best) || (q.eq(best) && B[i] < B[out])) {
            best = q;
            out = i;
          }
        }
      if (out < 0) return false;
      Rat inv = T[out][in].inv();
      for (int j = 0; j <= w; j++) T[out][j] = T[out][j].mul(inv);
      for (int i = 0; i < n; i++)
        if (i != out && T[i][in].signum() != 0) {
          Rat f = T[i][in];
          for (int j = 0; j <= w; j++) T[i][j] = T[i][j].sub(f.mul(T[out][j]));
        }
      B[out] = in;
    }
    return false;
  }
}
