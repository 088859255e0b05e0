/* scalar helpers against their definitions */
#include "../sp.h"
#include <sph-sp/float.h>

static sp_time_t d_time(void) { /* small, around powers of two, arbitrary */
  u64 k = d_below(3), p = d_below(32);
  if (k == 0) return (sp_time_t)d_below(300);
  if (k == 1) return (sp_time_t)((1u << p) - 1 + d_below(3));
  return (sp_time_t)d_below(1ull << 32);
}
static sp_time_t d_positive(void) { sp_time_t a = d_time(); return a ? a : 1; }

static void triangle(void) {
  sp_time_t a = d_time() / 2, b = d_time() / 2, t = d_time();
  if (!(a + b)) a = 1;
  pbt_note("triangle %u %u %u", t, a, b);
  double r = t % (a + b), y = sp_triangle(t, a, b);
  double want = r < a ? r / a : (b - (r - a)) / b;
  CHECK(near_abs(y, want, 1e-9), "sp_triangle(%u, %u, %u) is %.12g instead of %.12g", t, a, b, y, want);
  CHECK(y >= 0 && y <= 1, "sp_triangle(%u, %u, %u) is %.12g", t, a, b, y);
  if ((u64)t + a + b < 1ull << 32) CHECK(near_abs(sp_triangle(t + a + b, a, b), y, 1e-9), "sp_triangle(%u, %u, %u) is not periodic", t, a, b);
  if (t >= a + b || (a && b)) pbt_nontrivial();
}
static void square(void) {
  sp_time_t n = d_positive(), t = d_time();
  pbt_note("square %u %u", t, n);
  double y = sp_square(t, n), want = 2 * (u64)(t % n) < n ? -1 : 1;
  CHECK(y == want, "sp_square(%u, %u) is %g", t, n, y);
  pbt_nontrivial();
}
static void pan(void) {
  int channel = (int)d_below(d_bool() ? 2 : 255), pair = channel & ~1;
  double v = pair + (d_chance(70) ? d_unit() : d_float(-3, 4));
  double y = sp_pan_to_amp(v, channel), other = sp_pan_to_amp(2 * pair + 1 - v, channel ^ 1), x = v - pair;
  pbt_note("pan %.9g, channel %d", v, channel);
  double want = channel & 1 ? (x <= 0 ? 0 : x >= 0.5 ? 1 : x * 2) : (x <= 0.5 ? 1 : x >= 1 ? 0 : 2 - 2 * x);
  CHECK(near_abs(y, want, 1e-9), "sp_pan_to_amp(%.9g, %d) is %.9g instead of %.9g", v, channel, y, want);
  CHECK(near_abs(y, other, 1e-9), "sp_pan_to_amp is not mirrored: %.9g for channel %d, %.9g for channel %d at the mirrored position", y, channel, other, channel ^ 1);
  if (x > 0 && x < 1) pbt_nontrivial();
}
static void sinc_window(void) {
  double a = d_chance(30) ? (double)d_range(-50, 50) : d_float(-60, 60);
  if (d_chance(5)) a = d_float(-1e-7, 1e-7);
  double y = sp_sinc(a), want = a == 0 ? 1 : sin(M_PI * a) / (M_PI * a);
  pbt_note("sinc and window at %.17g", a);
  CHECK(near_abs(y, want, 1e-12), "sp_sinc(%.17g) is %.17g instead of %.17g", a, y, want);
  CHECK(near_abs(y, sp_sinc(-a), 1e-12), "sp_sinc(%.17g) is not symmetric", a);
  sp_time_t width = 2 + (sp_time_t)d_below(1000);
  double i = d_bool() ? (double)d_below(width) : d_unit() * (width - 1), w = sp_window_blackman(i, width);
  want = 0.42 - 0.5 * cos(2 * M_PI * i / (width - 1)) + 0.08 * cos(4 * M_PI * i / (width - 1));
  CHECK(near_abs(w, want, 1e-9), "sp_window_blackman(%g, %u) is %.12g instead of %.12g", i, width, w, want);
  CHECK(near_abs(w, sp_window_blackman(width - 1 - i, width), 1e-9), "sp_window_blackman(%g, %u) is not symmetric", i, width);
  pbt_nontrivial();
}
static void min_max(void) {
  sp_time_t a = d_time(), b = d_chance(20) ? a : d_time();
  double x = d_float(-10, 10), y = d_chance(20) ? x : d_float(-10, 10);
  pbt_note("min and max %u %u %.9g %.9g", a, b, x, y);
  CHECK(sp_time_min(a, b) == (a < b ? a : b) && sp_time_max(a, b) == (a < b ? b : a), "sp_time_min/max(%u, %u)", a, b);
  CHECK(sp_sample_min(x, y) == (x < y ? x : y) && sp_sample_max(x, y) == (x < y ? y : x), "sp_sample_min/max(%.9g, %.9g)", x, y);
  if (a != b) pbt_nontrivial();
  CHECK(sp_inline_min(a, b) == (a < b ? a : b) && sp_inline_max(a, b) == (a < b ? b : a), "sp_inline_min/max(%u, %u)", a, b);
  CHECK(sp_inline_absolute_difference(a, b) == (a < b ? b - a : a - b), "sp_inline_absolute_difference(%u, %u)", a, b);
  CHECK(sp_inline_no_underflow_subtract(a, b) == (a < b ? 0 : a - b), "sp_inline_no_underflow_subtract(%u, %u)", a, b);
  CHECK(sp_inline_no_zero_divide(a, b) == (b ? a / b : 0), "sp_inline_no_zero_divide(%u, %u)", a, b);
  double lo = x < y ? x : y, hi = x < y ? y : x, z = d_float(-20, 20);
  CHECK(sp_inline_limit(z, lo, hi) == (z < lo ? lo : z > hi ? hi : z), "sp_inline_limit(%.9g, %.9g, %.9g)", z, lo, hi);
  CHECK(sp_inline_abs(z) == fabs(z), "sp_inline_abs(%.9g)", z);
  double p = d_unit() * 100000;
  CHECK(sp_cheap_floor_positive(p) == (sp_time_t)floor(p), "sp_cheap_floor_positive(%.17g)", p);
  CHECK(sp_cheap_ceiling_positive(p) == (sp_time_t)ceil(p), "sp_cheap_ceiling_positive(%.17g)", p);
  CHECK(fabs((double)sp_cheap_round_positive(p) - p) <= 0.5 + 1e-9, "sp_cheap_round_positive(%.17g) is %u", p, sp_cheap_round_positive(p));
}
static void optional(void) {
  sp_time_t a = d_bool() ? 0 : d_time(), b = d_time(), n = 1 + (sp_time_t)d_below(20), i = (sp_time_t)d_below(n), *list = d_bool() ? 0 : new_times(n);
  sp_sample_t x = d_float(-3, 3), *values = d_bool() ? 0 : new_samples(n);
  pbt_note("optional values: %u %u, element %u of %s and %s", a, b, i, list ? "an array" : "none", values ? "an array" : "none");
  for (sp_time_t k = 0; list && k < n; k++) list[k] = d_time();
  for (sp_time_t k = 0; values && k < n; k++) values[k] = d_float(-3, 3);
  CHECK(sp_inline_optional(a, b) == (a ? a : b), "sp_inline_optional(%u, %u)", a, b);
  CHECK(sp_optional_array_get(list, b, i) == (list ? list[i] : b), "sp_optional_array_get");
  CHECK(sp_optional_array_get(values, x, i) == (values ? values[i] : x), "sp_optional_array_get");
  sp_time_t k = a, *p = list, *other = new_times(1);
  sp_inline_default(k, b);
  CHECK(k == (a ? a : b), "sp_inline_default of %u and %u gives %u", a, b, k);
  sp_inline_default(p, other);
  CHECK(p == (list ? list : other), "sp_inline_default changes a pointer that is set, or not one that is not");
  CHECK(sp_time_to_sample(b) == (double)b, "sp_time_to_sample(%u)", b);
  sp_declare_block(block);
  CHECK(!block.channel_count && !block.size, "a declared block is not empty");
  CHECK(sp_max_frq == TEST_RATE / 2, "sp_max_frq is %u", (sp_time_t)sp_max_frq);
  if (a && list) pbt_nontrivial();
}
static void interpolate(void) {
  double a = d_float(-1000, 1000), b = d_float(-1000, 1000), t = d_unit();
  pbt_note("interpolate %.9g %.9g %.9g", a, b, t);
  CHECK(near_abs(sp_sample_interpolate_linear(a, b, t), a + t * (b - a), 1e-9), "sp_sample_interpolate_linear(%.9g, %.9g, %.9g) is %.9g", a, b, t, sp_sample_interpolate_linear(a, b, t));
  sp_time_t m = (sp_time_t)d_below(1u << 30), n = (sp_time_t)d_below(1u << 30);
  double want = m + t * ((double)n - m);
  CHECK(fabs((double)sp_time_interpolate_linear(m, n, t) - want) <= 0.501, "sp_time_interpolate_linear(%u, %u, %.9g) is %u instead of %.9g", m, n, t, sp_time_interpolate_linear(m, n, t), want);
  /* units */
  double u = d_unit() * 2 - 1;
  CHECK(near_abs(sp_sample_to_unit(u), (u + 1) / 2, 1e-12), "sp_sample_to_unit(%.9g) is %.9g", u, sp_sample_to_unit(u));
  double hz = d_unit() * 1000;
  CHECK(near_abs(sp_rad_to_hz(sp_hz_to_rad(hz)), hz, 1e-9), "%.9g hertz are %.9g after conversion to radians and back", hz, sp_rad_to_hz(sp_hz_to_rad(hz)));
  sp_time_t f = (sp_time_t)d_below(100000);
  CHECK(fabs((double)sp_factor_to_hz(sp_hz_to_factor(f)) - f) <= 1, "%u hertz are %u after conversion to a factor and back", f, sp_factor_to_hz(sp_hz_to_factor(f)));
  sp_time_t cycle = 1 + (sp_time_t)d_below(2 * TEST_RATE);
  CHECK(fabs(sp_hz_to_samples((double)cycle) - (double)TEST_RATE / cycle) < 1e-9, "sp_hz_to_samples(%u) is %.9g", cycle, (double)sp_hz_to_samples((double)cycle));
  CHECK(sp_hz_to_samples(cycle) == TEST_RATE / cycle, "sp_hz_to_samples(%u) is %u", cycle, sp_hz_to_samples(cycle));
  CHECK(sp_samples_to_hz(cycle) == TEST_RATE / cycle, "sp_samples_to_hz(%u) is %u", cycle, sp_samples_to_hz(cycle));
  CHECK(!!sp_time_odd_p(cycle) == cycle % 2, "sp_time_odd_p(%u)", cycle);
  sp_time_t d = 1 + (sp_time_t)d_below(TEST_RATE), k = (sp_time_t)d_below(1000);
  if (TEST_RATE % d == 0) CHECK(sp_rate_duration(k, d) == TEST_RATE / d * k, "sp_rate_duration(%u, %u) is %u", k, d, sp_rate_duration(k, d));
  pbt_nontrivial();
}
static void multiples(void) {
  sp_time_t base = d_chance(80) ? 1 + (sp_time_t)d_below(d_bool() ? 20 : 5000) : 1 + d_time() / 8, a = d_chance(80) ? (sp_time_t)d_below((u64)base * 8) : d_time() / 2;
  if (d_chance(30)) a = a / base * base + (sp_time_t)d_below(3) * (base > 4);
  if (a >= 1u << 31) a %= 1u << 31; /* the nearest multiple fits the type */
  pbt_note("multiples of %u at %u", base, a);
  double low = a / base * (double)base, high = low + base, distance = a - low < high - a ? a - low : high - a;
  if (a) {
    double r = sp_time_round_to_multiple(a, base);
    CHECK(fmod(r, base) == 0 && (fabs(r - a) <= distance + 1e-9 || (r == base && a < base)), "sp_time_round_to_multiple(%u, %u) is %.9g", a, base, r);
    double ab = d_float(0.1, 50), aa = d_unit() * 1000;
    r = sp_sample_round_to_multiple(aa, ab);
    double k = round(r / ab);
    if (aa != 0) CHECK(near_rel(r, k * ab, 1e-9, 1e-9) && (fabs(r - aa) <= ab / 2 + 1e-6 || (k == 1 && aa < ab)), "sp_sample_round_to_multiple(%.9g, %.9g) is %.9g", aa, ab, r);
  }
  /* harmonize: moves towards a nearest multiple by amount */
  double amount = d_chance(30) ? 0 : d_chance(30) ? 1 : d_unit(), h = sp_time_harmonize(a, base, amount);
  if (amount == 0) CHECK(h == a, "sp_time_harmonize(%u, %u, 0) is %.9g", a, base, h);
  if (amount == 1) CHECK(fmod(h, base) == 0, "sp_time_harmonize(%u, %u, 1) is %.9g, which is not a multiple", a, base, h);
  CHECK(fabs(fabs(h - a) - amount * distance) <= 1, "sp_time_harmonize(%u, %u, %.9g) is %.9g: moved by %.9g, the nearest multiple is %.9g away", a, base, amount, h, fabs(h - a), distance);
  if (a - low != high - a && fabs(h - a) > 1) CHECK((h > a) == (high - a < a - low), "sp_time_harmonize(%u, %u, %.9g) is %.9g: away from the nearest multiple", a, base, amount, h);
  /* deharmonize: away from the multiple, at most half base, and the further the nearer */
  if (base < 1u << 28 && a < 1u << 30) {
    double most = 0, ratio = (base - distance) / base;
    sp_random_state = sp_random_state_new(d_below(1u << 30));
    for (int i = 0; i < 64; i++) {
      double o = sp_time_deharmonize(a, base, amount), m = fabs(o - a);
      CHECK(m <= amount * ratio * (base / 2 + 1) + 1, "sp_time_deharmonize(%u, %u, %.9g) is %.9g: moved by %.9g", a, base, amount, o, m);
      if (amount == 0) CHECK(m == 0, "sp_time_deharmonize(%u, %u, 0) is %.9g", a, base, o);
      if (m > 1 && distance && a - low != high - a && a > base)
        CHECK((o > a) == (a - low < high - a), "sp_time_deharmonize(%u, %u, %.9g) is %.9g: towards the nearest multiple %.9g", a, base, amount, o, a - low < high - a ? low : high);
      if (m > most) most = m;
    }
    CHECK(most + 1 >= amount * ratio * (base / 2) * 0.4, "sp_time_deharmonize(%u, %u, %.9g) moved by at most %.9g in 64 calls", a, base, amount, most);
  }
  if (distance > 1 && amount > 0) pbt_nontrivial();
}
static void modulo(void) {
  size_t n = 1 + d_below(8), d[8], index = d_chance(80) ? d_below(200) : d_below(1ull << 62), want = n - 1;
  pbt_note("modulo match %zu:", index);
  for (size_t i = 0; i < n; i++) {
    d[i] = 1 + d_below(d_bool() ? 6 : 30);
    pbt_note(" %zu", d[i]);
  }
  for (size_t i = n; i; i--) if (index % d[i - 1] == 0) want = i - 1;
  size_t* copy = memcpy(new_array(size_t, n), d, n * sizeof(size_t));
  size_t r = sp_modulo_match(index, copy, n);
  CHECK(r == want, "sp_modulo_match is %zu instead of %zu", r, want);
  if (n > 1) pbt_nontrivial();
}
static void floats(void) {
  size_t n = d_rare(3000) ? d_mid() : 1 + d_below(d_bool() ? 8 : 200);
  double* a = new_samples(n);
  float* f = new_array(float, n);
  int style = (int)d_below(3);
  pbt_note("sum of %zu, style %d", n, style);
  for (size_t i = 0; i < n; i++) {
    a[i] = d_float(-1000, 1000);
    if (style == 1) a[i] *= pow(2, (double)d_range(-20, 60)); /* different magnitudes and cancellation */
    if (style == 2 && i && d_bool()) a[i] = -a[d_below(i)];
    f[i] = (float)a[i];
  }
  __float128 sum = 0, size = 0, sum_f = 0, size_f = 0;
  for (size_t i = 0; i < n; i++) {
    sum += a[i];
    size += fabs(a[i]);
    sum_f += f[i];
    size_f += fabsf(f[i]);
  }
  double got = sph_f64_sum(a, n), error = fabs((double)(got - sum));
  double limit = 4 * DBL_EPSILON * fabs((double)sum) + (double)n * n * 4 * DBL_EPSILON * DBL_EPSILON * (double)size + 1e-300;
  CHECK(error <= limit, "sph_f64_sum is %.17g instead of %.17g", got, (double)sum);
  float got_f = sph_f32_sum(f, n);
  error = fabs((double)(got_f - sum_f));
  limit = 4 * FLT_EPSILON * fabs((double)sum_f) + (double)n * n * 4 * FLT_EPSILON * FLT_EPSILON * (double)size_f + 1e-30;
  CHECK(error <= limit, "sph_f32_sum is %.9g instead of %.17g", got_f, (double)sum_f);
  /* comparison */
  double margin = 1e-6 + d_unit(), *b = memcpy(new_samples(n), a, n * sizeof(double));
  size_t at = d_below(n), bn = d_chance(10) ? n - 1 : n;
  double delta = d_chance(30) ? 0 : d_float(-2, 2);
  for (size_t i = 0; i < n; i++) a[i] = remainder(a[i], 1000);
  memcpy(b, a, n * sizeof(double));
  b[at] += delta;
  delta = b[at] - a[at];
  if (fabs(fabs(delta) - margin) < 1e-9) return;
  int near = fabs(delta) < margin;
  CHECK(!!sph_f64_nearly_equal(a[at], b[at], margin) == near, "sph_f64_nearly_equal(%.17g, %.17g, %.9g)", a[at], b[at], margin);
  CHECK(!!sph_f64_array_nearly_equal(a, n, b, bn, margin) == (near && bn == n), "sph_f64_array_nearly_equal: %zu and %zu values, difference %.9g at %zu, margin %.9g", n, bn, delta, at, margin);
  float* g = new_array(float, n);
  for (size_t i = 0; i < n; i++) f[i] = g[i] = (float)a[i];
  g[at] = (float)b[at];
  double df = fabs((double)g[at] - f[at]);
  if (fabs(df - margin) > 1e-3) {
    CHECK(!!sph_f32_nearly_equal(f[at], g[at], (float)margin) == (df < margin), "sph_f32_nearly_equal(%.9g, %.9g, %.9g)", f[at], g[at], margin);
    CHECK(!!sph_f32_array_nearly_equal(f, n, g, bn, (float)margin) == (df < margin && bn == n), "sph_f32_array_nearly_equal");
  }
  if (n > 2) pbt_nontrivial();
}
static void run(void) {
  static const struct { const char* name; void (*f)(void); } k[] = { { "triangle", triangle }, { "square", square }, { "pan", pan }, { "sinc and window", sinc_window },
    { "min, max and limits", min_max }, { "optional values", optional }, { "interpolation and units", interpolate }, { "multiples", multiples }, { "multiples", multiples }, { "modulo match", modulo }, { "float sum and comparison", floats } };
  int i = (int)d_below(sizeof k / sizeof *k);
  pbt_label(k[i].name);
  k[i].f();
}
static const pbt_meta META = { .id = "C30", .quick = 10000000, .thorough = 100000000, .setup = setup_sp, .run = run,
  .rule = "an argument away from the trivial values of the function" };
