// Emptiness test for the polyhedral domain: exact rational simplex on bounded variables
// (general simplex, Bland's rule).  Rows: s_i = sum a_ij x_j with lower/upper bounds on every
// variable.  Arithmetic is on 128-bit fractions; any overflow returns LP_OVERFLOW and the caller
// falls back to unbounded integers.
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef __int128 I;
typedef struct { I n, d; } Q;
static int ovf;
static I absi(I a) { return a < 0 ? -a : a; }
static I gcdi(I a, I b) { a = absi(a); b = absi(b); while (b) { I t = a % b; a = b; b = t; } return a; }
static Q mk(I n, I d) {
  if (d < 0) { n = -n; d = -d; }
  if (d != 1) { I g = gcdi(n, d); if (g > 1) { n /= g; d /= g; } }
  Q q = {n, d}; return q;
}
static I mulo(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) { ovf = 1; return 0; } return r; }
static I addo(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) { ovf = 1; return 0; } return r; }
static Q add(Q a, Q b) {
  if (a.d == 1 && b.d == 1) { Q r = {addo(a.n, b.n), 1}; return r; }
  I g = gcdi(a.d, b.d); I x = b.d / g;
  I d = mulo(a.d, x); if (ovf) return a;
  I n = addo(mulo(a.n, x), mulo(b.n, a.d / g)); if (ovf) return a;
  return mk(n, d);
}
static Q mul(Q a, Q b) {
  if (a.n == 0 || b.n == 0) { Q z = {0, 1}; return z; }
  if (a.d == 1 && b.d == 1) { Q r = {mulo(a.n, b.n), 1}; return r; }
  I g1 = gcdi(a.n, b.d), g2 = gcdi(b.n, a.d);
  I n = mulo(a.n / g1, b.n / g2), d = mulo(a.d / g2, b.d / g1);
  if (ovf) return a;
  if (d < 0) { n = -n; d = -d; }
  Q r = {n, d}; return r;
}
static Q inv(Q a) { Q r = {a.d, a.n}; if (r.d < 0) { r.n = -r.n; r.d = -r.d; } return r; }
static Q neg(Q a) { Q r = {-a.n, a.d}; return r; }
static int cmp(Q a, Q b) {
  if (a.d == b.d) return a.n < b.n ? -1 : a.n > b.n;
  I l = mulo(a.n, b.d), r = mulo(b.n, a.d);
  return l < r ? -1 : l > r;
}
typedef struct { int64_t hi; uint64_t lo; } W;
static I w2i(W w) { return ((I)w.hi << 64) | w.lo; }
static W i2w(I i) { W w = {(int64_t)(i >> 64), (uint64_t)i}; return w; }
// n structural variables, m rows. a: m*n int64 coefficients. lo/hi: (n+m) 128-bit bounds with flags
// (bit0 has lo, bit1 has hi).  out: n values as fractions (num, den).
// returns 0 infeasible, 1 feasible, 2 overflow, 3 iteration limit
int lp_feasible(int n, int m, const int64_t *a, const W *lo, const W *hi, const uint8_t *fl, W *outn, W *outd) {
  ovf = 0;
  int N = n + m;
  Q *T = malloc(sizeof(Q) * (size_t)(m ? m : 1) * (n ? n : 1));
  Q *val = malloc(sizeof(Q) * N), *L = malloc(sizeof(Q) * N), *H = malloc(sizeof(Q) * N);
  int *bas = malloc(sizeof(int) * (m ? m : 1)), *non = malloc(sizeof(int) * (n ? n : 1));
  int ret = 3;
  for (int i = 0; i < N; i++) { L[i] = (Q){w2i(lo[i]), 1}; H[i] = (Q){w2i(hi[i]), 1}; }
  for (int j = 0; j < n; j++) {
    non[j] = j;
    if (fl[j] & 1) val[j] = L[j]; else if (fl[j] & 2) val[j] = H[j]; else val[j] = (Q){0, 1};
    if ((fl[j] & 3) == 3 && cmp(L[j], H[j]) > 0) { ret = 0; goto done; }
  }
  for (int i = 0; i < m; i++) {
    bas[i] = n + i;
    Q s = {0, 1};
    for (int j = 0; j < n; j++) {
      T[i * n + j] = (Q){a[i * n + j], 1};
      if (a[i * n + j]) s = add(s, mul(T[i * n + j], val[j]));
    }
    val[n + i] = s;
  }
  if (ovf) { ret = 2; goto done; }
  for (int it = 0; it < 2000; it++) {
    int r = -1, low = 0;
    for (int i = 0; i < m; i++) {
      int v = bas[i];
      if (((fl[v] & 1) && cmp(val[v], L[v]) < 0)) { if (r < 0 || v < bas[r]) { r = i; low = 1; } }
      else if (((fl[v] & 2) && cmp(val[v], H[v]) > 0)) { if (r < 0 || v < bas[r]) { r = i; low = 0; } }
    }
    if (ovf) { ret = 2; goto done; }
    if (r < 0) { ret = 1; break; }
    int v = bas[r], c = -1;
    for (int j = 0; j < n; j++) {
      Q t = T[r * n + j];
      if (t.n == 0) continue;
      int u = non[j];
      int pos = (t.n > 0) == (low != 0); // need to increase u?
      if (pos) { if ((fl[u] & 2) && cmp(val[u], H[u]) >= 0) continue; }
      else { if ((fl[u] & 1) && cmp(val[u], L[u]) <= 0) continue; }
      if (c < 0 || u < non[c]) c = j;
    }
    if (ovf) { ret = 2; goto done; }
    if (c < 0) { ret = 0; break; }
    // pivot
    Q target = low ? L[v] : H[v];
    Q piv = T[r * n + c], ip = inv(piv);
    int u = non[c];
    Q theta = mul(add(target, neg(val[v])), ip);
    val[v] = target;
    val[u] = add(val[u], theta);
    for (int i = 0; i < m; i++) if (i != r && T[i * n + c].n) val[bas[i]] = add(val[bas[i]], mul(T[i * n + c], theta));
    // row r: v = sum T x ; solve for u
    for (int j = 0; j < n; j++) if (j != c) { if (T[r * n + j].n) T[r * n + j] = neg(mul(T[r * n + j], ip)); }
    T[r * n + c] = ip;
    for (int i = 0; i < m; i++) if (i != r) {
      Q f = T[i * n + c];
      if (f.n == 0) continue;
      for (int j = 0; j < n; j++) {
        if (j == c) T[i * n + j] = mul(f, ip);
        else if (T[r * n + j].n) T[i * n + j] = add(T[i * n + j], mul(f, T[r * n + j]));
      }
    }
    bas[r] = u; non[c] = v;
    if (ovf) { ret = 2; goto done; }
  }
  if (ret == 1) for (int j = 0; j < n; j++) { outn[j] = i2w(val[j].n); outd[j] = i2w(val[j].d); }
done:
  free(T); free(val); free(L); free(H); free(bas); free(non);
  return ret;
}
