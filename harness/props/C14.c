/* windowed-sinc designs */
typedef struct { double* a; size_t n; } ir_t;
/* the definition: Blackman window of odd length ceil(4 / transition), sinc at the cutoff, sum one */
static ir_t model_lp_hp(double cutoff, double transition, int high) {
  ir_t r;
  r.n = (size_t)ceil(4 / transition);
  r.n += r.n % 2 == 0;
  r.a = new_samples(r.n);
  long double sum = 0, pi = 3.141592653589793238462643383279503L, c = (r.n - 1) / 2;
  for (size_t i = 0; i < r.n; i++) {
    long double x = 2 * (long double)cutoff * ((long double)i - c);
    long double w = 0.42L - 0.5L * cosl(2 * pi * i / (r.n - 1)) + 0.08L * cosl(4 * pi * i / (r.n - 1));
    r.a[i] = w * (x == 0 ? 1 : sinl(pi * x) / (pi * x));
  }
  for (size_t i = 0; i < r.n; i++) sum += r.a[i];
  for (size_t i = 0; i < r.n; i++) {
    r.a[i] /= sum;
    if (high) r.a[i] = -r.a[i] + (i == (r.n - 1) / 2);
  }
  return r;
}
static ir_t model_bp_br(double l, double h, double tl, double th, int reject) {
  ir_t r;
  if (l <= 0 || h >= 0.5) {
    if (l <= 0 && h >= 0.5) {
      r.n = 1;
      r.a = new_samples(1);
      r.a[0] = !reject;
      return r;
    }
    return l <= 0 ? model_lp_hp(h, th, reject) : model_lp_hp(l, tl, !reject);
  }
  if (reject) {
    ir_t a = model_lp_hp(l, tl, 0), b = model_lp_hp(h, th, 1);
    r.n = a.n > b.n ? a.n : b.n;
    r.a = zero_samples(r.n);
    for (size_t i = 0; i < a.n; i++) r.a[(r.n - a.n) / 2 + i] += a.a[i];
    for (size_t i = 0; i < b.n; i++) r.a[(r.n - b.n) / 2 + i] += b.a[i];
  } else {
    ir_t a = model_lp_hp(l, tl, 1), b = model_lp_hp(h, th, 0);
    r.n = a.n + b.n - 1;
    r.a = zero_samples(r.n);
    for (size_t i = 0; i < a.n; i++)
      for (size_t k = 0; k < b.n; k++) r.a[i + k] += a.a[i] * b.a[k];
  }
  return r;
}
/* response of a symmetric impulse response relative to its centre */
static double gain(double* a, size_t n, double f) {
  double s = a[n / 2];
  for (size_t i = 0; i < n / 2; i++) s += (a[i] + a[n - 1 - i]) * cos(2 * M_PI * f * ((double)(n / 2) - i));
  return s;
}
static void same(double* a, size_t n, ir_t m, const char* what) {
  CHECK(n == m.n, "%s: length %zu instead of %zu", what, n, m.n);
  double top = 0;
  for (size_t i = 0; i < n; i++) top = fmax(top, fabs(m.a[i]));
  for (size_t i = 0; i < n; i++) CHECK(fabs(a[i] - m.a[i]) <= 1e-9 * (1 + top), "%s: element %zu of %zu is %.12g instead of %.12g", what, i, n, a[i], m.a[i]);
  for (size_t i = 0; i < n; i++) CHECK(fabs(a[i] - a[n - 1 - i]) <= 1e-9 * (1 + top), "%s: not symmetric at %zu of %zu", what, i, n);
}
/* lengths above 16 bits */
static double d_steep(void) { pbt_label("long"); return 4 / (double)d_long(); }
static double d_transition(void) {
  static const double simple[] = { 0.08, 0.5, 0.1, 0.25, 0.02, 4.0 / 9, 4.0 / 10, 4.0 / 11 };
  return d_chance(40) ? simple[d_below(8)] : d_chance(90) ? 0.03 + d_unit() * 0.47 : 0.004 + d_unit() * 0.02;
}
static double d_cutoff(void) {
  static const double simple[] = { 0.25, 0.1, 0.4, 0.01, 0.49, 0.125 };
  return d_chance(40) ? simple[d_below(6)] : 0.005 + d_unit() * 0.49;
}
static void bands(double* a, size_t n, double l, double h, double tl, double th, int reject) {
  /* in: 1 between l and h. with this length the window needs 1.4 times the transition */
  double w = 1.45, fs[12];
  int m = 0;
  for (int i = 0; i < 8; i++) fs[m++] = d_unit() / 2;
  fs[m++] = 0;
  fs[m++] = 0.5;
  if (l > 0) fs[m++] = l;
  if (h < 0.5) fs[m++] = h;
  int low = l > 0, high = h < 0.5;
  /* designs whose transition reaches beyond the spectrum or into the other edge have no clear bands */
  if (low && (l < w * tl || l > 0.5 - w * tl)) return;
  if (high && (h < w * th || h > 0.5 - w * th)) return;
  if (low && high && l + w * tl >= h - w * th) return;
  for (int i = 0; i < m; i++) {
    double f = fs[i], g = gain(a, n, f);
    int inside = (!low || f >= l + w * tl) && (!high || f <= h - w * th);
    int outside = (low && f <= l - w * tl) || (high && f >= h + w * th);
    if (reject ? outside : inside) CHECK(fabs(g - 1) < 0.002, "the gain at %.4f is %.5f in the pass band", f, g);
    if (reject ? inside : outside) CHECK(fabs(g) < 0.002, "the gain at %.4f is %.5f in the stop band", f, g);
    if ((low && f == l) || (high && f == h)) CHECK(fabs(g - 0.5) < 0.03, "the gain at the cutoff %.4f is %.5f", f, g);
  }
  pbt_label("bands checked");
}
/* the generic impulse response functions read the same parameters from their packed argument */
static void packed(int n_params, double* params, int flag, double* e, sp_time_t en) {
  uint8_t* args = new_array(uint8_t, n_params * sizeof(double) + sizeof(sp_bool_t));
  memcpy(args, params, n_params * sizeof(double));
  sp_bool_t b = flag;
  memcpy(args + n_params * sizeof(double), &b, sizeof b);
  double* r = 0;
  sp_time_t rn = 0;
  CHECK_OK((n_params == 2 ? sp_windowed_sinc_lp_hp_ir_f : sp_windowed_sinc_bp_br_ir_f)(args, &r, &rn), "the impulse response function with packed arguments");
  CHECK(rn == en, "the impulse response function with packed arguments gives %u elements instead of %u", rn, en);
  for (sp_time_t i = 0; i < en; i++) CHECK(near_abs(r[i], e[i], 1e-12), "with packed arguments element %u is %.12g instead of %.12g", i, r[i], e[i]);
  t_free(r);
}
static void run(void) {
  double* a = 0;
  sp_time_t n = 0;
  int kind = d_below(4);
  if (kind <= 1) {
    double c = d_cutoff(), t = d_rare(15000) ? d_steep() : d_transition();
    int high = kind;
    pbt_note("%s %.6g transition %.6g", high ? "high-pass" : "low-pass", c, t);
    size_t want = (size_t)ceil(4 / t);
    want += want % 2 == 0;
    CHECK(sp_windowed_sinc_lp_hp_ir_length(t) == want, "the length for transition %g is %u instead of %zu", t, sp_windowed_sinc_lp_hp_ir_length(t), want);
    CHECK_OK(sp_windowed_sinc_lp_hp_ir(c, t, high, &a, &n), "sp_windowed_sinc_lp_hp_ir");
    same(a, n, model_lp_hp(c, t, high), high ? "high-pass" : "low-pass");
    double g = gain(a, n, 0);
    CHECK(fabs(g - !high) < 1e-9, "the gain at zero frequency is %.12g", g);
    if (high) bands(a, n, c, 1, t, t, 0);
    else bands(a, n, 0, c, t, t, 0);
    if (d_chance(20)) packed(2, (double[]){ c, t }, high, a, n);
    if (d_bool()) {
      double* b;
      sp_time_t bn;
      CHECK_OK(sp_windowed_sinc_lp_hp_ir(c, t, !high, &b, &bn), "sp_windowed_sinc_lp_hp_ir");
      CHECK(n == bn, "high-pass and low-pass have lengths %u and %u", n, bn);
      for (sp_time_t i = 0; i < n; i++) CHECK(fabs(a[i] + b[i] - (i == n / 2)) < 1e-9, "high-pass and low-pass are not complementary at %u", i);
      t_free(b);
    }
    pbt_nontrivial();
  } else if (kind == 2) {
    double l = d_chance(15) ? (d_bool() ? 0 : -0.1) : d_cutoff(), h = d_chance(15) ? (d_bool() ? 0.5 : 0.7) : d_cutoff(), tl = d_transition(), th = d_chance(30) ? tl : d_transition();
    if (l > h) {
      double x = l;
      l = h;
      h = x;
    }
    int reject = d_bool();
    if (d_rare(10000)) {
      if (d_bool()) tl = d_steep();
      else th = d_steep();
      if (reject && d_bool()) th = d_steep();
    }
    pbt_note("%s %.6g %.6g transitions %.6g %.6g", reject ? "band-reject" : "band-pass", l, h, tl, th);
    CHECK_OK(sp_windowed_sinc_bp_br_ir(l, h, tl, th, reject, &a, &n), "sp_windowed_sinc_bp_br_ir");
    same(a, n, model_bp_br(l, h, tl, th, reject), reject ? "band-reject" : "band-pass");
    if (d_chance(20)) packed(4, (double[]){ l, h, tl, th }, reject, a, n);
    if (l > 0 || h < 0.5) bands(a, n, l, h, tl, th, reject);
    pbt_label(l <= 0 || h >= 0.5 ? "band edge outside of the spectrum" : "both band edges");
    pbt_nontrivial();
  } else {
    n = 1 + 2 * (d_rare(20000) ? d_long() : d_rare(500) ? d_mid() : d_below(12));
    double* x = new_samples(n);
    double* y = new_samples(n);
    if (n < 3000) for (sp_time_t i = 0; i <= n / 2; i++) x[i] = x[n - 1 - i] = d_float(-2, 2);
    else for (sp_time_t i = 0; i <= n / 2; i++) x[i] = x[n - 1 - i] = cos(i * 0.37) * 1.7;
    memcpy(y, x, n * sizeof(double));
    int rev = d_bool();
    pbt_note("spectral %s of length %u", rev ? "reversal" : "inversion", n);
    void (*f)(sp_sample_t*, sp_time_t) = rev ? sp_spectral_reversal_ir : sp_spectral_inversion_ir;
    f(y, n);
    for (sp_time_t i = 0; i < n; i++) {
      double e = rev ? (i & 1 ? -x[i] : x[i]) : (i == n / 2) - x[i];
      CHECK(y[i] == e, "element %u is %.17g instead of %.17g", i, y[i], e);
    }
    for (int i = 0; i < 4; i++) {
      double q = d_unit() / 2, g = gain(x, n, rev ? 0.5 - q : q), h = gain(y, n, q);
      double tol = 1e-9 + 1e-16 * n * n; /* the rounding of the cosine's argument grows with the length */
      CHECK(rev ? fabs(fabs(g) - fabs(h)) < tol : fabs(1 - g - h) < tol, "response %.9g at %g becomes %.9g", g, q, h);
    }
    f(y, n);
    for (sp_time_t i = 0; i < n; i++) CHECK(fabs(y[i] - x[i]) <= 1e-15 * 4, "applied twice, element %u is %.17g instead of %.17g", i, y[i], x[i]);
    if (n > 1) pbt_nontrivial();
    a = 0;
  }
  if (a) t_free(a);
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
}
static const pbt_meta META = { .id = "C14", .quick = 800000, .thorough = 8000000, .setup = setup_sp, .run = run,
  .rule = "a filter design, or an inversion or reversal of more than one element" };
