/* restructuring and scaling of arrays */
#include "../sp.h"
static sp_time_t* tcp(sp_time_t* a, size_t n) { return memcpy(new_times(n), a, n * sizeof *a); }
static sp_sample_t* scp(sp_sample_t* a, size_t n) { return memcpy(new_samples(n), a, n * sizeof *a); }
static void tsame(const sp_time_t* a, const sp_time_t* b, size_t n, const char* what) {
  for (size_t i = 0; i < n; i += 1) CHECK(a[i] == b[i], "%s: element %zu of %zu is %u, expected %u", what, i, n, a[i], b[i]);
}
enum { REVERSE, SWAP, REMOVE, INSERT, SUBDIVIDE, EXTRACT, SELECT, GT, SCALE, BITS, SUM_T, SUM_S, Y_T, Y_S, GAIN, UNITY, RIGHT, LEFT, N_OPS };
static const char* names[] = {"reverse", "swap", "remove", "insert_space", "subdivide_difference", "extract_in_range", "select", "gt_indices", "scale", "bits_to_times", "times_scale_sum", "samples_scale_sum", "times_scale_y", "samples_scale_y", "set_gain", "set_unity_gain", "make_seamless_right", "make_seamless_left"};

/* the joined part: interpolated progressively between one array and the mirrored other, distance from one end to the other.
   1/count to 1 or 1/(2 count) to 1/2 */
static int joined(sp_time_t* out, sp_time_t* from, sp_time_t* to, size_t count, int towards_end) {
  for (int half = 1; half <= 2; half += 1) {
    int ok = 1;
    for (size_t i = 0; i < count && ok; i += 1) {
      double t = (double)(1 + (towards_end ? i : count - 1 - i)) / ((double)half * count);
      double e = (1 - t) * from[i] + t * to[count - 1 - i];
      ok = fabs(out[i] - e) <= 1;
    }
    if (ok) return 1;
  }
  return 0;
}

static void run(void) {
  int op = (int)d_below(N_OPS);
  size_t n = 1 + (d_chance(75) ? d_below(8) : d_below(60));
  if (d_rare(20000)) {
    n = d_long();
    pbt_label("long");
  } else if (d_rare(500)) {
    n = d_mid();
    pbt_label("over 8 bits");
  }
  int wide = n < 61 && d_chance(15); /* the sum of a long array would not fit */
  sp_time_t hi = wide ? UINT32_MAX : d_chance(30) ? 3 : 1000;
  pbt_note("%s, %zu elements", names[op], n);
  pbt_label(names[op]);
  if (n > 1) pbt_nontrivial();
  mem_reset();
  switch (op) {
  case REVERSE:
    if (d_bool()) {
      sp_time_t *a = d_times(n, 0, hi), *k = tcp(a, n), *o = new_times(n);
      sp_times_reverse(a, n, o);
      for (size_t i = 0; i < n; i += 1) CHECK(o[n - 1 - i] == a[i], "sp_times_reverse: element %zu is %u, expected %u", n - 1 - i, o[n - 1 - i], a[i]);
      tsame(a, k, n, "input of sp_times_reverse");
    } else {
      sp_sample_t *a = d_samples(n, -3, 3), *o = new_samples(n);
      sp_samples_reverse(a, n, o);
      for (size_t i = 0; i < n; i += 1) CHECK(o[n - 1 - i] == a[i], "sp_samples_reverse: element %zu is %g, expected %g", n - 1 - i, o[n - 1 - i], a[i]);
    }
    break;
  case SWAP: {
    size_t x = d_below(n), y = d_below(n);
    if (d_bool()) {
      sp_time_t *a = d_times(n, 0, hi), *e = tcp(a, n);
      e[x] = a[y], e[y] = a[x];
      sp_times_swap(a, x, y);
      tsame(a, e, n, "sp_times_swap");
    } else {
      sp_sample_t *a = d_samples(n, -3, 3), *e = scp(a, n);
      e[x] = a[y], e[y] = a[x];
      /* through void*: the element type in the declaration is not what is checked here */
      ((void (*)(void*, sp_ssize_t, sp_ssize_t))sp_samples_swap)(a, x, y);
      for (size_t i = 0; i < n; i += 1) CHECK(a[i] == e[i], "sp_samples_swap(%zu, %zu): element %zu is %g, expected %g", x, y, i, a[i], e[i]);
    }
  } break;
  case REMOVE: {
    size_t index = d_chance(25) ? n - 1 : d_below(n), count = d_below(n - index + 1);
    sp_time_t *a = d_times(n, 0, hi), *k = tcp(a, n), *o = new_times(n - count);
    pbt_note(" %zu at %zu", count, index);
    sp_times_remove(a, n, index, count, o);
    for (size_t i = 0; i < n - count; i += 1) CHECK(o[i] == a[i < index ? i : i + count], "sp_times_remove: element %zu is %u, expected %u", i, o[i], a[i < index ? i : i + count]);
    tsame(a, k, n, "input of sp_times_remove");
  } break;
  case INSERT: {
    size_t index = d_below(n + 1), count = d_rare(300) ? d_mid() : d_below(5);
    sp_time_t *a = d_times(n, 0, hi), *o = new_times(n + count);
    pbt_note(" %zu at %zu", count, index);
    sp_times_insert_space(a, n, index, count, o);
    for (size_t i = 0; i < n; i += 1) CHECK(o[i < index ? i : i + count] == a[i], "sp_times_insert_space: element %zu is %u, expected %u", i < index ? i : i + count, o[i < index ? i : i + count], a[i]);
  } break;
  case SUBDIVIDE: {
    if (n < 2) n = 2;
    size_t index = d_below(n - 1), count = d_rare(300) ? d_mid() : d_below(6);
    sp_time_t *a = d_times(n, 0, wide ? UINT32_MAX / 2 : 1000), *o = new_times(n + count);
    if (d_chance(40)) a[index + 1] = a[index] + (count + 1) * (1 + d_below(9));
    else if (a[index + 1] <= a[index]) a[index + 1] = a[index] + 1 + d_below(50);
    pbt_note(" %zu between %u and %u", count, a[index], a[index + 1]);
    sp_times_subdivide_difference(a, n, index, count, o);
    for (size_t i = 0; i <= index; i += 1) CHECK(o[i] == a[i], "element %zu is %u, expected %u", i, o[i], a[i]);
    for (size_t i = index + 1; i < n; i += 1) CHECK(o[i + count] == a[i], "element %zu is %u, expected %u", i + count, o[i + count], a[i]);
    double step = (double)(a[index + 1] - a[index]) / (count + 1);
    for (size_t j = 1; j <= count; j += 1) {
      double e = a[index] + step * j, tol = step == floor(step) ? 0 : (double)j;
      CHECK(fabs(o[index + j] - e) <= tol, "element %zu is %u, equally spaced would be %g", index + j, o[index + j], e);
      CHECK(o[index + j] >= o[index + j - 1] && o[index + j] <= a[index + 1], "element %zu (%u) is not between its neighbours", index + j, o[index + j]);
    }
  } break;
  case EXTRACT: {
    sp_time_t *a = d_times(n, 0, hi), *k = tcp(a, n), lo = d_bool() ? a[d_below(n)] : (sp_time_t)d_below(hi), up = d_bool() ? a[d_below(n)] : (sp_time_t)d_below(hi), size = 99999;
    if (lo > up) { sp_time_t t = lo; lo = up; up = t; }
    size_t m = 0;
    sp_time_t* e = new_times(n);
    for (size_t i = 0; i < n; i += 1) if (a[i] >= lo && a[i] <= up) e[m++] = a[i];
    sp_time_t* o = new_times(n);
    pbt_note(" %u to %u", lo, up);
    sp_times_extract_in_range(a, n, lo, up, o, &size);
    CHECK(size == m, "sp_times_extract_in_range reports %u values instead of %zu", size, m);
    tsame(o, e, m, "sp_times_extract_in_range");
    tsame(a, k, n, "input of sp_times_extract_in_range");
  } break;
  case SELECT: {
    size_t m = d_below(n + 3);
    int in_place = d_chance(40);
    sp_time_t *a = d_times(n, 0, hi), *idx, *e;
    if (in_place && m > n) m = n;
    idx = new_times(m);
    for (size_t i = 0; i < m; i += 1) idx[i] = (sp_time_t)d_below(n);
    int lossy = 0; /* an index refers to an element that was already replaced */
    e = new_times(m);
    for (size_t i = 0; i < m; i += 1) e[i] = a[idx[i]], lossy = lossy || (idx[i] < i && a[idx[i]] != a[idx[idx[i]]]);
    sp_time_t* o = in_place ? a : new_times(m);
    pbt_note("%s, %zu indices", in_place ? " in place" : "", m);
    sp_times_select(a, idx, m, o);
    for (size_t i = 0; i < m; i += 1) {
      if (in_place && lossy && o[i] != e[i]) {
        pbt_known("select-in-place-unordered-indices", "sp_times_select in place: element %zu is %u, expected %u", i, o[i], e[i]);
        return;
      }
      CHECK(o[i] == e[i], "sp_times_select%s: element %zu is %u, expected %u", in_place ? " in place" : "", i, o[i], e[i]);
    }
    /* the indices as output */
    sp_time_t *b = d_times(n, 0, hi), *i2 = tcp(idx, m);
    for (size_t i = 0; i < m; i += 1) e[i] = b[idx[i]];
    sp_times_select(b, i2, m, i2);
    tsame(i2, e, m, "sp_times_select into the indices");
  } break;
  case GT: {
    sp_time_t *a = d_times(n, 0, hi), v = d_bool() ? a[d_below(n)] : (sp_time_t)d_below((u64)hi + 1), *e = new_times(n), size = 99999;
    size_t m = 0;
    for (size_t i = 0; i < n; i += 1) if (a[i] > v) e[m++] = i;
    int in_place = d_bool();
    sp_time_t* o = in_place ? a : new_times(n);
    sp_times_gt_indices(a, n, v, o, &size);
    CHECK(size == m, "sp_times_gt_indices reports %u indices instead of %zu", size, m);
    tsame(o, e, m, "sp_times_gt_indices");
  } break;
  case SCALE: {
    sp_time_t f = n < 61 && !wide && d_rare(300) ? d_mid() : 1 + d_below(6), *a = d_times(n, 0, wide ? 100000000 : 1000), *k = tcp(a, n), *o = new_times((n - 1) * f);
    pbt_note(" by %u", f);
    CHECK_OK(sp_times_scale(a, n, f, o), "sp_times_scale");
    for (size_t i = 0; i + 1 < n; i += 1)
      for (size_t j = 0; j < f; j += 1) {
        double e = (double)f * a[i] + ((double)f * a[i + 1] - (double)f * a[i]) * j / f;
        CHECK(fabs(o[i * f + j] - e) <= 0.5 + 1e-6 * (wide ? 10 : 1), "sp_times_scale: element %zu is %u, expected %.10g", i * f + j, o[i * f + j], e);
      }
    tsame(a, k, n, "input of sp_times_scale");
    CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  } break;
  case BITS: {
    size_t bits = d_below(n * 32 + 1);
    if (d_chance(30)) bits = 32 * d_below(n + 1);
    int in_place = d_chance(40);
    sp_time_t* a = in_place ? new_times(bits > n ? bits : n) : new_times(n);
    for (size_t i = 0; i < n; i += 1) a[i] = (sp_time_t)d_below(1ull << 32);
    sp_time_t *e = new_times(bits), *o = in_place ? a : new_times(bits);
    for (size_t i = 0; i < bits; i += 1) e[i] = (a[i / 32] >> (i % 32)) & 1;
    pbt_note(" %zu bits%s", bits, in_place ? " in place" : "");
    sp_times_bits_to_times(a, bits, o);
    tsame(o, e, bits, "sp_times_bits_to_times");
  } break;
  case SUM_T: {
    sp_time_t *a = d_times(n, 0, wide ? (UINT32_MAX - 1) / n : 1000), target = (sp_time_t)d_below(d_bool() ? 200 : d_bool() ? 100000 : UINT32_MAX), s = 0;
    a[d_below(n)] += 1;
    for (size_t i = 0; i < n; i += 1) s += a[i];
    sp_time_t *k = tcp(a, n), *o = d_bool() ? a : new_times(n);
    sp_times_scale_sum(a, n, target, o);
    double t = 0;
    for (size_t i = 0; i < n; i += 1) {
      double e = (double)k[i] * target / s;
      t += o[i];
      CHECK(fabs(o[i] - e) <= 1, "sp_times_scale_sum: element %zu is %u, expected %g", i, o[i], e);
    }
    CHECK(fabs(t - target) <= n, "the sum is %g instead of %u", t, target);
    if (o != a) tsame(a, k, n, "input of sp_times_scale_sum");
  } break;
  case SUM_S: {
    sp_sample_t *a = d_samples(n, 0, 5), *k, *o, target = d_float(-20, 20), s = 0;
    a[d_below(n)] += 1;
    if (d_chance(30)) for (size_t i = 0; i < n; i += 1) a[i] = -a[i];
    for (size_t i = 0; i < n; i += 1) s += a[i];
    k = scp(a, n);
    o = d_bool() ? a : new_samples(n);
    sp_samples_scale_sum(a, n, target, o);
    for (size_t i = 0; i < n; i += 1) CHECK(near_rel(o[i], k[i] * target / s, 1e-9, 1e-12), "sp_samples_scale_sum: element %zu is %.12g, expected %.12g", i, o[i], k[i] * target / s);
    if (o != a) for (size_t i = 0; i < n; i += 1) CHECK(a[i] == k[i], "sp_samples_scale_sum changed its input");
  } break;
  case Y_T: {
    sp_time_t *a = d_times(n, 0, wide ? UINT32_MAX - 1 : 1000), target = (sp_time_t)d_below(d_bool() ? 50 : d_bool() ? 100000 : UINT32_MAX), max = 0;
    a[d_below(n)] += 1;
    for (size_t i = 0; i < n; i += 1) max = a[i] > max ? a[i] : max;
    sp_time_t *k = tcp(a, n), *o = d_bool() ? a : new_times(n);
    pbt_note(" to %u", target);
    sp_times_scale_y(a, n, target, o);
    for (size_t i = 0; i < n; i += 1) CHECK(fabs(o[i] - (double)k[i] * target / max) <= 1, "sp_times_scale_y: element %zu is %u, expected %g", i, o[i], (double)k[i] * target / max);
    for (size_t i = 0; i < n; i += 1) if (k[i] == max) CHECK(o[i] == target, "the maximum is %u instead of %u", o[i], target);
  } break;
  case Y_S: {
    sp_sample_t *a = d_samples(n, -5, 5), *k, target = d_float(0, 20), max = 0;
    a[d_below(n)] += d_bool() ? 6 : -6;
    for (size_t i = 0; i < n; i += 1) max = fmax(fabs(a[i]), max);
    k = scp(a, n);
    sp_samples_scale_y(a, n, target);
    for (size_t i = 0; i < n; i += 1) CHECK(near_rel(a[i], k[i] * target / max, 1e-9, 1e-12), "sp_samples_scale_y: element %zu is %.12g, expected %.12g", i, a[i], k[i] * target / max);
  } break;
  case GAIN:
  case UNITY: {
    sp_sample_t *a = d_samples(n, -5, 5), *r = d_samples(n, -2, 2), *k, amp = 0, max = 0;
    if (d_chance(20)) memset(a, 0, n * sizeof *a);
    if (d_chance(20)) memset(r, 0, n * sizeof *r);
    if (op == UNITY) for (size_t i = 0; i < n; i += 1) amp = fmax(fabs(r[i]), amp);
    else amp = d_float(0, 3);
    for (size_t i = 0; i < n; i += 1) max = fmax(fabs(a[i]), max);
    k = scp(a, n);
    if (op == UNITY) sp_samples_set_unity_gain(a, r, n);
    else sp_samples_set_gain(a, n, amp);
    double f = amp == 0 || max == 0 ? 1 : amp / max;
    for (size_t i = 0; i < n; i += 1) CHECK(near_rel(a[i], k[i] * f, 1e-9, 1e-12), "%s to %g: element %zu is %.12g, expected %.12g", names[op], amp, i, a[i], k[i] * f);
  } break;
  case RIGHT: {
    size_t m = 1 + (n > 200 ? d_below(3 * n) : d_below(12)), count = n < m / 2 ? n : m / 2, start = n - count;
    sp_time_t *a = d_times(n, 0, wide ? 1000000 : 100), *b = d_times(m, 0, wide ? 1000000 : 100), *o = new_times(n), *k = tcp(a, n);
    pbt_note(", other %zu", m);
    sp_times_make_seamless_right(a, n, b, m, o);
    tsame(o, a, start, "part before the joined part");
    if (count) CHECK(joined(o + start, a + start, b, count, 1), "the last %zu elements are not interpolated progressively towards the mirrored start of the other array", count);
    tsame(a, k, n, "input of sp_times_make_seamless_right");
  } break;
  case LEFT: {
    size_t m = 1 + (n > 200 ? d_below(3 * n) : d_below(12)), count = n < m / 2 ? n : m / 2;
    sp_time_t *b = d_times(n, 0, wide ? 1000000 : 100), *a = d_times(m, 0, wide ? 1000000 : 100), *o = new_times(n), *k = tcp(b, n);
    pbt_note(", other %zu", m);
    sp_times_make_seamless_left(a, m, b, n, o);
    tsame(o + count, b + count, n - count, "part after the joined part");
    if (count) CHECK(joined(o, b, a + m - count, count, 0), "the first %zu elements are not interpolated progressively towards the mirrored end of the other array", count);
    tsame(b, k, n, "input of sp_times_make_seamless_left");
  } break;
  }
}

static const pbt_meta META = { .id = "C22", .quick = 10000000, .thorough = 100000000, .setup = setup_sp, .run = run,
  .rule = "one restructuring or scaling operation on arrays of up to 60 elements with any index, count, factor or target that the documentation allows, also in place where documented, buffers of exact size; non-trivial: at least two elements" };
