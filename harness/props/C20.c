/* envelope helpers */
#include "path.h"
extern status_t sp_envelope_scaled_c3(sp_time_t** out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t c1, sp_sample_t c2) __attribute__((weak));
extern status_t sp_envelope_scaled_c4(sp_time_t** out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3) __attribute__((weak));
extern status_t sp_envelope_scaled_c5(sp_time_t** out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3, sp_sample_t c4) __attribute__((weak));
#define MAXP 24
static int n, curved;
static sp_time_t length;
static double F[MAXP], X[MAXP], Y[MAXP], CV[MAXP], scale;

static void seg_hull(int s, double x, double w, double* lo, double* hi) {
  pnt p[3] = {{X[s], Y[s]}, {0, 0}, {X[s + 1], Y[s + 1]}};
  double c = curved ? CV[s] : 0;
  if (fabs(c) < 1e-5) {
    pnt l[2] = {p[0], p[2]};
    bez_hull(l, 2, x, w, lo, hi);
  } else {
    p[1] = arc_control(p[0], p[2], c);
    bez_hull(p, 3, x, w, lo, hi);
  }
}
/* cumulative fractions times length are rounded to positions: a sample before or after, also of the neighbours */
static void check(double v, sp_time_t k, const char* what, double slack, int exact) {
  double lo = INFINITY, hi = -INFINITY;
  for (int o = 0; o + 1 < n; o += 1) {
    double l, h, w = exact ? (curved && fabs(CV[o]) >= 1e-5 ? 0.501 : 1e-6) : 1.501;
    if (X[o] > k + w || X[o + 1] < k - w) continue;
    seg_hull(o, k, w, &l, &h);
    lo = fmin(lo, l), hi = fmax(hi, h);
  }
  CHECK(v >= lo - slack && v <= hi + slack, "%s: element %u of %u is %.12g, expected %.12g to %.12g", what, k, length, v, lo, hi);
}

static void run(void) {
  int scaled = d_bool(), fixed = d_bool();
  curved = d_bool();
  n = fixed ? (int)d_range(3, 5) : (int)d_range(2, d_chance(30) ? MAXP : 6);
  /* positions that are whole: length a power of two, fractions multiples of 1/length */
  int exact = d_chance(60);
  length = exact ? 1u << d_range(n <= 4 ? 2 : 5, d_chance(20) ? 12 : 7) : d_rare(300) ? (sp_time_t)d_long() : (sp_time_t)d_range(n, d_chance(20) ? 5000 : 100);
  double left = 1;
  X[0] = 0;
  for (int i = 1; i + 1 < n; i += 1) {
    int rest = n - 1 - i; /* points after this one need room */
    if (exact) {
      double max = left * length - rest;
      F[i] = (1 + floor(d_unit() * (max - 1))) / length;
    } else {
      double max = left - (double)rest / length;
      F[i] = 1.0 / length + d_unit() * (max - 1.0 / length);
    }
    left -= F[i];
    X[i] = X[i - 1] + F[i] * length;
  }
  X[n - 1] = length;
  scale = scaled ? (d_chance(30) ? 1 : d_chance(50) ? (double)d_range(0, 100) : d_chance(20) ? 4e7 * d_unit() : d_unit() * 1000) : 1;
  double in_y[MAXP];
  for (int i = 0; i < n; i += 1) {
    in_y[i] = d_chance(40) ? (double)d_range(0, 4) : scaled ? d_unit() * 100 : d_float(-2, 2);
    if (!scaled && (i == 0 || i == n - 1)) in_y[i] = 0;
    Y[i] = scale * in_y[i];
    CV[i] = d_chance(20) ? 0 : d_unit() * 2 - 1;
    if (fabs(CV[i]) < 1e-3) CV[i] = 0;
  }
  pbt_note("%s%s%s, %d points, length %u, scale %g:", scaled ? "scaled" : "zero", fixed ? " fixed arguments" : "", curved ? " curved" : "", n, length, scale);
  for (int i = 0; i < n; i += 1) pbt_note(" (%g %g)", X[i], Y[i]);
  if (curved) for (int i = 0; i + 1 < n; i += 1) pbt_note(" c%g", CV[i]);
  pbt_label(scaled ? (fixed ? "scaled, fixed" : "scaled") : fixed ? "zero, fixed" : "zero");
  if (n > 2) pbt_nontrivial();
  mem_reset();
  sp_sample_t* os = 0;
  sp_time_t* ot = 0;
  status_t s = {0};
  double *f = F, *y = in_y, *c = CV;
  const char* what = "";
#define A(call) (what = #call, s = call)
  if (fixed) {
    if (scaled) {
      if (curved) {
        if (!sp_envelope_scaled_c3 || !sp_envelope_scaled_c4 || !sp_envelope_scaled_c5) pbt_fail("the declared sp_envelope_scaled_c variants do not exist");
        if (n == 3) A(sp_envelope_scaled_c3(&ot, length, scale, f[1], y[0], y[1], y[2], c[0], c[1]));
        if (n == 4) A(sp_envelope_scaled_c4(&ot, length, scale, f[1], f[2], y[0], y[1], y[2], y[3], c[0], c[1], c[2]));
        if (n == 5) A(sp_envelope_scaled_c5(&ot, length, scale, f[1], f[2], f[3], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3]));
      } else {
        if (n == 3) A(sp_envelope_scaled3(&ot, length, scale, f[1], y[0], y[1], y[2]));
        if (n == 4) A(sp_envelope_scaled4(&ot, length, scale, f[1], f[2], y[0], y[1], y[2], y[3]));
        if (n == 5) A(sp_envelope_scaled5(&ot, length, scale, f[1], f[2], f[3], y[0], y[1], y[2], y[3], y[4]));
      }
    } else if (curved) {
      if (n == 3) A(sp_envelope_zero_c3(&os, length, f[1], y[1], c[0], c[1]));
      if (n == 4) A(sp_envelope_zero_c4(&os, length, f[1], f[2], y[1], y[2], c[0], c[1], c[2]));
      if (n == 5) A(sp_envelope_zero_c5(&os, length, f[1], f[2], f[3], y[1], y[2], y[3], c[0], c[1], c[2], c[3]));
    } else {
      if (n == 3) A(sp_envelope_zero3(&os, length, f[1], y[1]));
      if (n == 4) A(sp_envelope_zero4(&os, length, f[1], f[2], y[1], y[2]));
      if (n == 5) A(sp_envelope_zero5(&os, length, f[1], f[2], f[3], y[1], y[2], y[3]));
    }
  } else {
    /* arrays of exactly the documented sizes */
    sp_sample_t* x = new_samples(n - 2);
    for (int i = 0; i + 2 < n; i += 1) x[i] = F[i + 1];
    sp_sample_t* yy = new_samples(scaled ? n : n - 2);
    for (int i = 0; i < (scaled ? n : n - 2); i += 1) yy[i] = scaled ? in_y[i] : in_y[i + 1];
    sp_sample_t* cc = curved ? new_samples(n - 1) : 0;
    for (int i = 0; cc && i + 1 < n; i += 1) cc[i] = CV[i];
    if (scaled) A(sp_envelope_scaled(&ot, length, n, scale, x, yy, cc));
    else A(sp_envelope_zero(&os, length, n, x, yy, cc));
  }
  CHECK_OK(s, what);
  char name[40];
  snprintf(name, sizeof name, "%.*s", (int)strcspn(what, "("), what);
  for (sp_time_t k = 0; k < length; k += 1) check(scaled ? (double)ot[k] : os[k], k, name, scaled ? 0.5 + 1e-6 : 0, exact);
  if (!scaled) {
    if (exact && (!curved || CV[0] == 0)) CHECK(fabs(os[0]) <= 1e-9, "%s does not start at zero", name);
    t_free(os);
  } else t_free(ot);
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
}

static const pbt_meta META = { .id = "C20", .quick = 60000, .thorough = 800000, .setup = setup_sp, .run = run,
  .rule = "2 to 24 points (3 to 5 with fixed arguments), fractions that sum to at most one, with whole and fractional positions, zero-ended and scaled, with and without curvature; non-trivial: at least one inner point" };
