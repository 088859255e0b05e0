/* elementwise array operations */
#include "../sp.h"
/* not all of these are declared in a header that is installed */
static size_t n;

static double d_val(void) {
  switch (d_below(6)) {
  case 0: return 0;
  case 1: return (double)d_range(-3, 3);
  case 2: return d_unit();
  default: return d_float(-1000, 1000);
  }
}
static sp_time_t d_time(void) {
  switch (d_below(6)) {
  case 0: return 0;
  case 1: return (sp_time_t)d_below(4);
  case 2: return UINT32_MAX - (sp_time_t)d_below(3);
  default: return (sp_time_t)d_below(2000);
  }
}
static sp_sample_t* vals(void) { sp_sample_t* a = new_samples(n); for (size_t i = 0; i < n; i += 1) a[i] = i < 100 ? d_val() : a[mix64(i) % 100]; return a; }
static sp_time_t* tvals(void) { sp_time_t* a = new_times(n); for (size_t i = 0; i < n; i += 1) a[i] = i < 100 ? d_time() : a[mix64(i) % 100]; return a; }
static sp_sample_t* cp(sp_sample_t* a) { return memcpy(new_samples(n), a, n * sizeof *a); }
static sp_time_t* tcp(sp_time_t* a) { return memcpy(new_times(n), a, n * sizeof *a); }
static void same(const sp_sample_t* a, const double* b, const char* what) {
  for (size_t i = 0; i < n; i += 1) CHECK(near_rel(a[i], b[i], 1e-11, 1e-11) || (isnan(a[i]) && isnan(b[i])), "%s: element %zu of %zu is %.15g, expected %.15g", what, i, n, a[i], b[i]);
}
static void tsame(const sp_time_t* a, const sp_time_t* b, const char* what) {
  for (size_t i = 0; i < n; i += 1) CHECK(a[i] == b[i], "%s: element %zu of %zu is %u, expected %u", what, i, n, a[i], b[i]);
}
static void unchanged(const void* a, const void* b, size_t size, const char* what) { CHECK(!memcmp(a, b, size), "%s changed its input", what); }

/* in-out operation with a value */
#define OPV(name, expr) do { \
    sp_sample_t *a = vals(), *e = cp(a), v = d_val(); \
    if (!strcmp(#name, "divide") && v == 0) v = 2; \
    for (size_t i = 0; i < n; i += 1) { double x = a[i]; e[i] = expr; } \
    sp_samples_##name(a, n, v); same(a, e, "sp_samples_" #name); \
  } while (0)
#define TOPV(name, expr) do { \
    sp_time_t *a = tvals(), *e = tcp(a), v = d_time(); \
    if (!strcmp(#name, "divide") && v == 0) v = 2; \
    for (size_t i = 0; i < n; i += 1) { sp_time_t x = a[i]; e[i] = expr; } \
    sp_times_##name(a, n, v); tsame(a, e, "sp_times_" #name); \
  } while (0)
/* in-out operation with an array, which may be the same */
#define OPA(name, expr, nozero) do { \
    sp_sample_t *a = vals(), *b = same_array ? a : vals(); \
    if (nozero) for (size_t i = 0; i < n; i += 1) if (b[i] == 0) b[i] = 3; \
    sp_sample_t *e = cp(a), *bk = cp(b); \
    for (size_t i = 0; i < n; i += 1) { double x = a[i], v = bk[i]; e[i] = expr; } \
    sp_samples_##name(a, n, b); same(a, e, "sp_samples_" #name); \
    if (!same_array) unchanged(b, bk, n * sizeof *b, "sp_samples_" #name); \
  } while (0)
#define TOPA(name, expr, nozero) do { \
    sp_time_t *a = tvals(), *b = same_array ? a : tvals(); \
    if (nozero) for (size_t i = 0; i < n; i += 1) if (b[i] == 0) b[i] = 3; \
    sp_time_t *e = tcp(a), *bk = tcp(b); \
    for (size_t i = 0; i < n; i += 1) { sp_time_t x = a[i], v = bk[i]; e[i] = expr; } \
    sp_times_##name(a, n, b); tsame(a, e, "sp_times_" #name); \
    if (!same_array) unchanged(b, bk, n * sizeof *b, "sp_times_" #name); \
  } while (0)
#define SEL(name, expr) do { \
    sp_sample_t *a = vals(), *b = vals(), *o = new_samples(n), *e = cp(a), *ak = cp(a), *bk = cp(b), limit = d_val(); \
    if (n && d_chance(50)) limit = d_bool() ? a[d_below(n)] : b[d_below(n)]; \
    for (size_t i = 0; i < n; i += 1) { double x = a[i], y = b[i]; e[i] = expr; } \
    sp_samples_##name##_samples(a, b, n, limit, o); same(o, e, "sp_samples_" #name); \
    unchanged(a, ak, n * sizeof *a, "sp_samples_" #name); unchanged(b, bk, n * sizeof *a, "sp_samples_" #name); \
  } while (0)
#define TSEL(name, expr) do { \
    sp_time_t *a = tvals(), *b = tvals(), *o = new_times(n), *e = tcp(a), *ak = tcp(a), *bk = tcp(b), limit = d_time(); \
    if (n && d_chance(50)) limit = d_bool() ? a[d_below(n)] : b[d_below(n)]; \
    for (size_t i = 0; i < n; i += 1) { sp_time_t x = a[i], y = b[i]; e[i] = expr; } \
    sp_times_##name##_times(a, b, n, limit, o); tsame(o, e, "sp_times_" #name); \
    unchanged(a, ak, n * sizeof *a, "sp_times_" #name); unchanged(b, bk, n * sizeof *a, "sp_times_" #name); \
  } while (0)
#define BOTH(a, b) do { if (times) b; else a; } while (0)

static void run(void) {
  n = d_chance(70) ? d_below(9) : d_below(70);
  if (d_rare(40000)) {
    n = d_long();
    pbt_label("long");
  } else if (d_rare(500)) {
    n = d_mid();
    pbt_label("over 8 bits");
  }
  int times = d_bool(), same_array = d_chance(15);
  static const char* ops[] = {"add", "subtract", "multiply", "divide", "set", "square", "copy", "add array", "subtract array", "multiply array", "divide array", "cusum", "and", "or", "xor", "equal", "min/max", "absolute max", "additions", "multiplications/divisions", "limit", "limit abs", "blend", "mask", "convert", "differences", "to units", "range", "sum", "contains", "zero", "new"};
  int op = (int)d_below(sizeof ops / sizeof *ops);
  if (!n && (op == 11 || op == 16 || op == 28)) n = 1;
  if (op == 25 && n < 2) n = 2;
  pbt_note("%s, %s, %zu elements", ops[op], times ? "times" : "samples", n);
  pbt_label(ops[op]);
  if (n > 1) pbt_nontrivial();
  mem_reset();
  switch (op) {
  case 0: BOTH(OPV(add, x + v), TOPV(add, x + v)); break;
  case 1: BOTH(OPV(subtract, x - v), TOPV(subtract, x > v ? x - v : 0)); break;
  case 2: BOTH(OPV(multiply, x * v), TOPV(multiply, x * v)); break;
  case 3: BOTH(OPV(divide, x / v), TOPV(divide, x / v)); break;
  case 4: BOTH(OPV(set, v), TOPV(set, v)); break;
  case 5:
    if (times) { sp_time_t *a = tvals(), *e = tcp(a); for (size_t i = 0; i < n; i += 1) e[i] = a[i] * a[i]; sp_times_square(a, n); tsame(a, e, "sp_times_square"); }
    else { sp_sample_t *a = vals(), *e = cp(a); for (size_t i = 0; i < n; i += 1) e[i] = a[i] * a[i]; sp_samples_square(a, n); same(a, e, "sp_samples_square"); }
    break;
  case 6:
    if (times) { sp_time_t *a = tvals(), *o = new_times(n); sp_times_copy(a, n, o); tsame(o, a, "sp_times_copy"); }
    else { sp_sample_t *a = vals(), *o = new_samples(n); sp_samples_copy(a, n, o); CHECK(!memcmp(a, o, n * sizeof *a), "sp_samples_copy does not copy"); }
    break;
  case 7: BOTH(OPA(add_samples, x + v, 0), TOPA(add_times, x + v, 0)); break;
  case 8: BOTH(OPA(subtract_samples, x - v, 0), TOPA(subtract_times, x > v ? x - v : 0, 0)); break;
  case 9: BOTH(OPA(multiply_samples, x * v, 0), TOPA(multiply_times, x * v, 0)); break;
  case 10: BOTH(OPA(divide_samples, x / v, 1), TOPA(divide_times, x / v, 1)); break;
  case 11:
    if (times) {
      sp_time_t *a = tvals(), *e = tcp(a), *o = same_array ? a : new_times(n);
      for (size_t i = 1; i < n; i += 1) e[i] = e[i - 1] + a[i];
      sp_times_cusum(a, n, o);
      tsame(o, e, "sp_times_cusum");
    } else {
      sp_sample_t *a = vals(), *e = cp(a), *o = same_array ? a : new_samples(n);
      for (size_t i = 1; i < n; i += 1) e[i] = e[i - 1] + a[i];
      sp_samples_cusum(a, n, o);
      for (size_t i = 0; i < n; i += 1) CHECK(near_abs(o[i], e[i], 1e-8), "sp_samples_cusum: element %zu is %.15g, expected %.15g", i, o[i], e[i]);
    }
    break;
  case 12: BOTH(SEL(and, x >= limit && y >= limit ? y : 0), TSEL(and, x >= limit && y >= limit ? y : 0)); break;
  case 13: BOTH(SEL(or, x < limit && y >= limit ? y : x), TSEL(or, x < limit && y >= limit ? y : x)); break;
  case 14: BOTH(SEL(xor, x >= limit && y >= limit ? 0 : x < limit && y >= limit ? y : x), TSEL(xor, x >= limit && y >= limit ? 0 : x < limit && y >= limit ? y : x)); break;
  case 15:
    if (times) {
      sp_time_t *a = tvals(), v = n && d_bool() ? a[0] : d_time();
      if (d_bool()) { for (size_t i = 0; i < n; i += 1) a[i] = v; if (n && d_bool()) a[d_below(n)] += 1; }
      int e = 1;
      for (size_t i = 0; i < n; i += 1) e = e && a[i] == v;
      CHECK(!!sp_times_equal(a, n, v) == e, "sp_times_equal is not %d", e);
    } else {
      sp_sample_t *a = vals(), v = n && d_bool() ? a[0] : d_val();
      if (d_bool()) { for (size_t i = 0; i < n; i += 1) a[i] = v; if (n && d_bool()) a[d_below(n)] += 0.25; }
      int e = 1;
      for (size_t i = 0; i < n; i += 1) e = e && a[i] == v;
      CHECK(!!sp_samples_equal(a, n, v) == e, "sp_samples_equal is not %d", e);
    }
    break;
  case 16:
    if (times) {
      sp_time_t *a = tvals(), lo = a[0], hi = a[0];
      for (size_t i = 0; i < n; i += 1) lo = a[i] < lo ? a[i] : lo, hi = a[i] > hi ? a[i] : hi;
      CHECK(sp_times_min(a, n) == lo, "sp_times_min is %u, expected %u", sp_times_min(a, n), lo);
      CHECK(sp_times_max(a, n) == hi, "sp_times_max is %u, expected %u", sp_times_max(a, n), hi);
    } else {
      sp_sample_t *a = vals(), lo = a[0], hi = a[0];
      for (size_t i = 0; i < n; i += 1) lo = fmin(lo, a[i]), hi = fmax(hi, a[i]);
      CHECK(sp_samples_min(a, n) == lo, "sp_samples_min is %g, expected %g", sp_samples_min(a, n), lo);
      CHECK(sp_samples_max(a, n) == hi, "sp_samples_max is %g, expected %g", sp_samples_max(a, n), hi);
    }
    break;
  case 17:
    if (times) {
      sp_time_t *a = tvals(), hi = 0;
      for (size_t i = 0; i < n; i += 1) hi = a[i] > hi ? a[i] : hi;
      CHECK(sp_times_absolute_max(a, n) == hi, "sp_times_absolute_max is %u, expected %u", sp_times_absolute_max(a, n), hi);
    } else {
      sp_sample_t *a = vals(), hi = 0;
      for (size_t i = 0; i < n; i += 1) hi = fmax(hi, fabs(a[i]));
      CHECK(sp_samples_absolute_max(a, n) == hi, "sp_samples_absolute_max is %g, expected %g", sp_samples_absolute_max(a, n), hi);
    }
    break;
  case 18:
    if (times) {
      sp_time_t s = d_time(), d = d_time(), *o = new_times(n), *e = new_times(n);
      for (size_t i = 0; i < n; i += 1) e[i] = s + (sp_time_t)i * d;
      sp_times_additions(s, d, n, o);
      tsame(o, e, "sp_times_additions");
    } else {
      sp_sample_t s = d_val(), d = d_val(), *o = new_samples(n);
      sp_samples_additions(s, d, n, o);
      for (size_t i = 0; i < n; i += 1) CHECK(near_rel(o[i], s + i * d, 1e-9, 1e-8), "sp_samples_additions: element %zu is %.15g, expected %.15g", i, o[i], s + i * d);
    }
    break;
  case 19:
    if (times) {
      sp_time_t s = d_time(), f = d_time(), x = s, *o = new_times(n), *e = new_times(n);
      for (size_t i = 0; i < n; i += 1, x *= f) e[i] = x;
      sp_times_multiplications(s, f, n, o);
      tsame(o, e, "sp_times_multiplications");
    } else {
      sp_sample_t s = d_val(), f = d_float(1, 3), *o = new_samples(n);
      sp_samples_divisions(s, f, n, o);
      for (size_t i = 0; i < n; i += 1) CHECK(near_rel(o[i], s / pow(f, (double)i), 1e-9, 1e-12), "sp_samples_divisions: element %zu is %.15g, expected %.15g", i, o[i], s / pow(f, (double)i));
    }
    break;
  case 20:
    if (times) {
      sp_time_t *a = tvals(), v = d_time(), *e = tcp(a), *o = same_array ? a : new_times(n);
      if (n && d_bool()) v = a[d_below(n)];
      for (size_t i = 0; i < n; i += 1) e[i] = a[i] > v ? v : a[i];
      sp_times_limit(a, n, v, o);
      tsame(o, e, "sp_times_limit");
    } else if (sp_samples_limit) {
      sp_sample_t *a = vals(), v = d_val(), *e = cp(a);
      for (size_t i = 0; i < n; i += 1) e[i] = a[i] > v ? v : a[i];
      sp_samples_limit(a, n, v);
      same(a, e, "sp_samples_limit");
    }
    break;
  case 21: {
    sp_sample_t *a = vals(), l = d_val(), v = fabs(l), *e = cp(a), *o = same_array ? a : new_samples(n);
    for (size_t i = 0; i < n; i += 1) e[i] = a[i] > v ? v : a[i] < -v ? -v : a[i];
    sp_samples_limit_abs(a, n, l, o);
    same(o, e, "sp_samples_limit_abs");
  } break;
  case 22:
  case 23: {
    double f = d_unit(), *c = new_samples(n);
    for (size_t i = 0; i < n; i += 1) c[i] = op == 23 ? d_unit() : f;
    if (times) {
      sp_time_t *a = tvals(), *b = tvals(), *o = new_times(n);
      if (op == 22) sp_times_blend(a, b, f, n, o);
      else sp_times_mask(a, b, c, n, o);
      for (size_t i = 0; i < n; i += 1) {
        double e = (1 - c[i]) * a[i] + c[i] * b[i];
        CHECK(fabs(o[i] - e) <= 0.5 + 1e-6, "%s: element %zu is %u, expected %.15g rounded", op == 22 ? "sp_times_blend" : "sp_times_mask", i, o[i], e);
      }
    } else {
      sp_sample_t *a = vals(), *b = vals(), *o = new_samples(n);
      sp_samples_blend(a, b, f, n, o);
      for (size_t i = 0; i < n; i += 1) CHECK(near_abs(o[i], (1 - f) * a[i] + f * b[i], 1e-9), "sp_samples_blend: element %zu is %.15g, expected %.15g", i, o[i], (1 - f) * a[i] + f * b[i]);
    }
  } break;
  case 24: {
    int replace = d_bool();
    if (times) {
      sp_time_t* a = tvals();
      sp_sample_t *o = new_samples(n), *r = 0;
      sp_times_to_samples(a, n, o);
      for (size_t i = 0; i < n; i += 1) CHECK(o[i] == (double)a[i], "sp_times_to_samples: element %zu is %.15g, expected %u", i, o[i], a[i]);
      if (replace) {
        sp_time_t* t = t_malloc(n * sizeof *t);
        memcpy(t, a, n * sizeof *t);
        CHECK_OK(sp_times_to_samples_replace(t, n, &r), "sp_times_to_samples_replace");
        for (size_t i = 0; i < n; i += 1) CHECK(r[i] == (double)a[i], "sp_times_to_samples_replace: element %zu is %.15g, expected %u", i, r[i], a[i]);
        CHECK(mem_live == 1, "sp_times_to_samples_replace leaves %ld allocations instead of one", mem_live);
        t_free(r);
      }
    } else {
      sp_sample_t* a = new_samples(n);
      sp_time_t *o = new_times(n), *r = 0;
      for (size_t i = 0; i < n; i += 1) a[i] = d_bool() ? (double)d_time() : fabs(d_val());
      sp_samples_to_times(a, n, o);
      for (size_t i = 0; i < n; i += 1) CHECK(fabs(o[i] - a[i]) <= 0.5, "sp_samples_to_times: element %zu is %u, expected %.15g rounded", i, o[i], a[i]);
      if (replace) {
        sp_sample_t* t = t_malloc(n * sizeof *t);
        memcpy(t, a, n * sizeof *t);
        CHECK_OK(sp_samples_to_times_replace(t, n, &r), "sp_samples_to_times_replace");
        for (size_t i = 0; i < n; i += 1) CHECK(r[i] == o[i], "sp_samples_to_times_replace: element %zu is %u, expected %u", i, r[i], o[i]);
        CHECK(mem_live == 1, "sp_samples_to_times_replace leaves %ld allocations instead of one", mem_live);
        t_free(r);
      }
    }
  } break;
  case 25:
    if (sp_samples_differences) {
      sp_sample_t *a = vals(), *o = new_samples(n - 1);
      sp_samples_differences(a, n, o);
      for (size_t i = 0; i + 1 < n; i += 1) CHECK(o[i] == a[i + 1] - a[i], "sp_samples_differences: element %zu is %.15g, expected %.15g", i, o[i], a[i + 1] - a[i]);
    }
    break;
  case 26: {
    sp_sample_t *a = vals(), *e = cp(a);
    for (size_t i = 0; i < n; i += 1) a[i] = e[i] = fmax(-1, fmin(1, a[i]));
    for (size_t i = 0; i < n; i += 1) e[i] = (a[i] + 1) / 2;
    sp_samples_to_units(a, n);
    same(a, e, "sp_samples_to_units");
  } break;
  case 27: {
    size_t s = d_below(n + 1), e = s + d_below(n - s + 1);
    if (times) {
      sp_time_t *a = tvals(), *o = new_times(e - s);
      sp_times_range(a, s, e, o);
      CHECK(!memcmp(o, a + s, (e - s) * sizeof *a), "sp_times_range from %zu to %zu has wrong elements", s, e);
    } else {
      sp_sample_t *a = vals(), *o = new_samples(e - s);
      sp_samples_range(a, s, e, o);
      CHECK(!memcmp(o, a + s, (e - s) * sizeof *a), "sp_samples_range from %zu to %zu has wrong elements", s, e);
    }
  } break;
  case 28:
    if (times) {
      sp_time_t *a = tvals(), e = 0;
      for (size_t i = 0; i < n; i += 1) e += a[i];
      CHECK(sp_times_sum(a, n) == e, "sp_times_sum is %u, expected %u", sp_times_sum(a, n), e);
      CHECK(sp_time_sum(a, n) == e, "sp_time_sum is %u, expected %u", sp_time_sum(a, n), e);
    } else {
      /* compensated: small terms are not lost next to large ones */
      sp_sample_t* a = vals();
      if (n && d_bool()) a[d_below(n)] = d_bool() ? 1e12 : -1e12;
      long double e = 0, m = 0;
      for (size_t i = 0; i < n; i += 1) e += a[i], m += fabsl(a[i]);
      double r = sp_samples_sum(a, n);
      CHECK(fabsl(r - e) <= 1e-15L * m + 1e-15L * fabsl(e), "sp_samples_sum is %.17g, expected %.17Lg", r, e);
    }
    break;
  case 29: {
    sp_time_t *a = tvals(), v = n && d_bool() ? a[d_below(n)] : d_time();
    int e = 0;
    for (size_t i = 0; i < n; i += 1) e = e || a[i] == v;
    CHECK(!!sp_times_contains(a, n, v) == e, "sp_times_contains(%u) is not %d", v, e);
  } break;
  case 30:
    if (times) { sp_time_t* a = tvals(); sp_times_zero(a, n); for (size_t i = 0; i < n; i += 1) CHECK(a[i] == 0, "sp_times_zero leaves %u at %zu", a[i], i); }
    else { sp_sample_t* a = vals(); sp_samples_zero(a, n); for (size_t i = 0; i < n; i += 1) CHECK(a[i] == 0, "sp_samples_zero leaves %g at %zu", a[i], i); }
    break;
  case 31:
    if (times) {
      sp_time_t *a = 0, *b = 0, *c = 0, v = d_time(), *s = tvals();
      CHECK_OK(sp_times_new(n, &a), "sp_times_new");
      for (size_t i = 0; i < n; i += 1) CHECK(a[i] == 0, "a new array has %u at %zu", a[i], i);
      CHECK_OK(sp_times_constant(n, v, &b), "sp_times_constant");
      for (size_t i = 0; i < n; i += 1) CHECK(b[i] == v, "sp_times_constant has %u at %zu, expected %u", b[i], i, v);
      CHECK_OK(sp_times_duplicate(s, n, &c), "sp_times_duplicate");
      tsame(c, s, "sp_times_duplicate");
      sp_time_t** l = t_malloc(3 * sizeof *l);
      l[0] = a, l[1] = b, l[2] = c;
      sp_times_array_free(l, 3);
    } else {
      sp_sample_t *a = 0, *c = 0, *s = vals();
      CHECK_OK(sp_samples_new(n, &a), "sp_samples_new");
      for (size_t i = 0; i < n; i += 1) CHECK(a[i] == 0, "a new array has %g at %zu", a[i], i);
      CHECK_OK(sp_samples_duplicate(s, n, &c), "sp_samples_duplicate");
      same(c, s, "sp_samples_duplicate");
      sp_sample_t** l = t_malloc(2 * sizeof *l);
      l[0] = a, l[1] = c;
      sp_samples_array_free(l, 2);
    }
    CHECK(mem_live == 0, "%ld allocations remain after the arrays were freed", mem_live);
  }
}

static const pbt_meta META = { .id = "C21", .quick = 10000000, .thorough = 100000000, .setup = setup_sp, .run = run,
  .rule = "one operation of all elementwise operations on integer or float arrays of up to 70 elements, also in place where documented, buffers of exact size; non-trivial: at least two elements" };
