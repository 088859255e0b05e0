/* statistics against their definitions, in extended precision */
#include "../sp.h"
typedef long double ld;
enum { MEAN, MEDIAN, DEVIATION, SKEWNESS, KURTOSIS, RANGE, CENTER, INHARMONICITY, TO_TIMES, COUNTS, N_OPS };
static const char* names[] = {"mean", "median", "deviation", "skewness", "kurtosis", "range", "center", "inharmonicity", "scale_to_times", "counts"};
static const sp_stat_times_f_t ft[] = {sp_stat_times_mean, sp_stat_times_median, sp_stat_times_deviation, sp_stat_times_skewness, sp_stat_times_kurtosis, sp_stat_times_range, sp_stat_times_center, sp_stat_times_inharmonicity};
static const sp_stat_samples_f_t fs[] = {sp_stat_samples_mean, sp_stat_samples_median, sp_stat_samples_deviation, sp_stat_samples_skewness, sp_stat_samples_kurtosis, sp_stat_samples_range, sp_stat_samples_center, sp_stat_samples_inharmonicity};
static int cmp_ld(const void* a, const void* b) { ld x = *(ld*)a, y = *(ld*)b; return x < y ? -1 : x > y; }

static void counts(void) {
  sp_time_t n = 1 + (sp_time_t)d_below(d_bool() ? 10 : 200), w, all = 0, one = 0;
  if (d_rare(8)) n = (sp_time_t)(d_bool() ? 92681 - d_below(30) : 1 + d_below(92681)); /* up to the largest with a count that is representable */
  w = 1 + (sp_time_t)d_below(n);
  if (n <= 200) {
    for (sp_time_t width = 1; width <= n; width += 1)
      for (sp_time_t start = 0; start + width <= n; start += 1) { all += 1; one += width == w; }
  } else for (sp_time_t width = 1; width <= n; width += 1) { all += n + 1 - width; if (width == w) one = n + 1 - width; }
  pbt_note(" size %u, width %u", n, w);
  if (n > 1) pbt_nontrivial();
  CHECK(sp_stat_unique_max(n, w) == one, "sp_stat_unique_max(%u, %u) is %u, enumerated %u", n, w, sp_stat_unique_max(n, w), one);
  CHECK(sp_stat_unique_all_max(n) == all, "sp_stat_unique_all_max(%u) is %u, enumerated %u", n, sp_stat_unique_all_max(n), all);
  /* all but one of each width can be repetitions */
  if (w) CHECK(sp_stat_repetition_max(n, w) == one - 1, "sp_stat_repetition_max(%u, %u) is %u, enumerated %u", n, w, sp_stat_repetition_max(n, w), one - 1);
  CHECK(sp_stat_repetition_all_max(n) == all - n, "sp_stat_repetition_all_max(%u) is %u, enumerated %u", n, sp_stat_repetition_all_max(n), all - n);
}

static void to_times(void) {
  size_t n = 2 + (d_rare(300) ? d_mid() : d_chance(75) ? d_below(8) : d_below(60));
  double scale = d_bool() ? 1 : pow(10, (double)d_range(-3, 5)), shift = d_bool() ? 0 : d_float(-3, 3) * scale;
  sp_sample_t *a = d_samples(n, -1, 1), *k = new_samples(n), lo, hi;
  for (size_t i = 0; i < n; i += 1) k[i] = a[i] = a[i] * scale + shift;
  lo = hi = a[0];
  for (size_t i = 0; i < n; i += 1) lo = fmin(lo, a[i]), hi = fmax(hi, a[i]);
  if (hi - lo < 1e-3 * scale) { a[0] = k[0] = lo - scale; lo = a[0]; hi = a[1]; for (size_t i = 1; i < n; i += 1) hi = fmax(hi, a[i]); }
  sp_time_t max = (sp_time_t)d_below(d_bool() ? 20 : d_bool() ? 1000000 : UINT32_MAX), *o = new_times(n);
  pbt_note(" of %zu samples from %g to %g, to %u", n, lo, hi, max);
  pbt_nontrivial();
  sp_samples_scale_to_times(a, n, max, o);
  for (size_t i = 0; i < n; i += 1) {
    double e = (double)(((ld)a[i] - lo) * max / ((ld)hi - lo));
    CHECK(o[i] <= max, "element %zu is %u, above the maximum %u", i, o[i], max);
    CHECK(fabs(o[i] - e) <= 0.5 + 1e-9 * max + 1e-6, "element %zu (%g) is mapped to %u, expected %g", i, a[i], o[i], e);
    if (a[i] == lo) CHECK(o[i] == 0, "the smallest value is mapped to %u", o[i]);
    if (a[i] == hi) CHECK(o[i] == max, "the largest value is mapped to %u instead of %u", o[i], max);
    for (size_t j = 0; j < i; j += 1) CHECK(a[i] < a[j] ? o[i] <= o[j] : a[i] > a[j] ? o[i] >= o[j] : o[i] == o[j], "elements %zu and %zu changed order", j, i);
    CHECK(a[i] == k[i], "the input was changed");
  }
}

static void run(void) {
  int op = (int)d_below(N_OPS), times = d_bool();
  pbt_note("%s%s", op < TO_TIMES ? (times ? "times " : "samples ") : "", names[op]);
  pbt_label(names[op]);
  mem_reset();
  if (op == COUNTS) { counts(); return; }
  if (op == TO_TIMES) { to_times(); return; }
  size_t n = 1 + (d_chance(75) ? d_below(8) : d_below(d_chance(10) ? 3000 : 60));
  if (d_rare(40000)) {
    n = d_long();
    pbt_label("long");
  } else if (d_rare(300)) {
    n = d_mid();
    pbt_label("over 8 bits");
  }
  if (op == INHARMONICITY && n > 60 && (n > 1000 || d_chance(95))) n = 60;
  sp_time_t *t = 0, *tk = 0;
  sp_sample_t *s = 0, *sk = 0, out[3] = {99, 99, 99};
  ld* x = buf_new(n * sizeof *x);
  int constant = d_chance(3);
  if (times) {
    int wide = d_chance(20);
    if (n < 100) t = d_times(n, 0, wide ? UINT32_MAX : d_chance(30) ? 4 : 5000);
    else { t = new_times(n); u64 q = d_below(1 << 30), m = wide ? UINT32_MAX : 5000; for (size_t i = 0; i < n; i += 1) t[i] = (sp_time_t)(mix64(q + i) % m); }
    if (op == INHARMONICITY) for (size_t i = 0; i < n; i += 1) t[i] = t[i] % 100000 + 1;
    if (constant) for (size_t i = 0; i < n; i += 1) t[i] = t[0];
    if (op == CENTER) t[d_below(n)] |= 1;
    tk = memcpy(new_times(n), t, n * sizeof *t);
    for (size_t i = 0; i < n; i += 1) x[i] = t[i];
  } else {
    if (n < 100) s = d_samples(n, -3, 3);
    else { s = new_samples(n); d_fill(s, n, -3, 3); }
    double scale = d_bool() ? 1 : pow(10, (double)d_range(-3, 4)), shift = d_chance(70) ? 0 : d_float(-10, 10) * scale;
    for (size_t i = 0; i < n; i += 1) s[i] = s[i] * scale + shift;
    if (op == INHARMONICITY) for (size_t i = 0; i < n; i += 1) s[i] = fmod(fabs(s[i]), 10000) + (d_bool() ? 1 : 0.125);
    if (constant) for (size_t i = 0; i < n; i += 1) s[i] = s[0];
    sk = memcpy(new_samples(n), s, n * sizeof *s);
    for (size_t i = 0; i < n; i += 1) x[i] = s[i];
  }
  pbt_note(" of %zu values", n);
  if (n > 1) pbt_nontrivial();
  ld sum = 0, absmax = 0, abssum = 0, m[5] = {0};
  for (size_t i = 0; i < n; i += 1) { sum += x[i]; abssum += fabsl(x[i]); if (fabsl(x[i]) > absmax) absmax = fabsl(x[i]); }
  ld mean = sum / n;
  for (size_t i = 0; i < n; i += 1) { ld d = x[i] - mean; m[2] += d * d; m[3] += d * d * d; m[4] += d * d * d * d; }
  for (int i = 2; i < 5; i += 1) m[i] /= n;
  ld sd = sqrtl(m[2]);
  double e[3] = {0}, tol = 1e-9 * (double)absmax;
  int outs = 1;
  switch (op) {
  case MEAN: e[0] = (double)mean; break;
  case MEDIAN: {
    ld* y = buf_new(n * sizeof *y);
    memcpy(y, x, n * sizeof *y);
    qsort(y, n, sizeof *y, cmp_ld);
    e[0] = (double)(n % 2 ? y[n / 2] : (y[n / 2] + y[n / 2 - 1]) / 2);
  } break;
  case DEVIATION: e[0] = (double)sd; break;
  case SKEWNESS:
  case KURTOSIS:
    /* not defined for constant data; not decidable when the spread is close to the rounding error */
    if (sd <= 1e-6 * absmax) {
      if (times) ft[op](t, n, out); else fs[op](s, n, out);
      pbt_label("constant data");
      goto unchanged;
    }
    e[0] = (double)(op == SKEWNESS ? m[3] / (sd * sd * sd) : m[4] / (m[2] * m[2]));
    tol = 1e-9 * (1 + fabs(e[0])) * (double)(1 + absmax / sd);
    break;
  case RANGE: {
    ld lo = x[0], hi = x[0];
    for (size_t i = 0; i < n; i += 1) { if (x[i] < lo) lo = x[i]; if (x[i] > hi) hi = x[i]; }
    e[0] = (double)lo, e[1] = (double)hi, e[2] = (double)(hi - lo);
    outs = 3;
  } break;
  case CENTER: {
    if (fabsl(sum) <= 1e-3 * abssum) pbt_discard();
    ld is = 0, ia = 0;
    for (size_t i = 0; i < n; i += 1) is += i * x[i], ia += i * fabsl(x[i]);
    e[0] = (double)(is / sum);
    tol = 1e-9 * (double)(1 + ia / fabsl(sum));
    if (times) {
      ft[op](t, n, out);
      double twice = (double)(is / (sum + x[0]));
      if (!near_abs(out[0], e[0], tol) && near_abs(out[0], twice, tol)) {
        pbt_known("times-center-counts-first-element-twice", "sp_stat_times_center gives %.12g instead of %.12g", out[0], e[0]);
        goto unchanged;
      }
    }
  } break;
  case INHARMONICITY: {
    ld min = n;
    tol = 0;
    for (size_t i = 0; i < n; i += 1) {
      ld total = 0;
      for (size_t j = 0; j < n; j += 1) {
        ld b = x[j] / x[i];
        tol = fmax(tol, 1e-14 * (double)b);
        b -= floorl(b);
        total += b > 0.5 ? 1 - b : b;
      }
      if (total / n < min) min = total / n;
    }
    e[0] = (double)min;
    tol += 1e-12;
  } break;
  }
  CHECK((times ? ft[op](t, n, out) : fs[op](s, n, out)) == 0, "the function reports a failure");
  for (int i = 0; i < outs; i += 1) CHECK(near_abs(out[i], e[i], tol), "result %d is %.12g, expected %.12g", i, out[i], e[i]);
unchanged:
  for (size_t i = 0; i < n; i += 1) CHECK(times ? t[i] == tk[i] : s[i] == sk[i], "the input was changed");
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
}

static const pbt_meta META = { .id = "C26", .quick = 4000000, .thorough = 50000000, .setup = setup_sp, .run = run,
  .rule = "arrays of 1 to 3000 integers or floats of different magnitudes, also constant and with repetitions; each statistic compared with its definition evaluated in extended precision; non-trivial: at least two values" };
