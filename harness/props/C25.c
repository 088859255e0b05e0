/* random selection: membership in every case, distribution with many draws, determined by the random state */
#include "../sp.h"
enum { DISCRETE, UNIQUE, BOUNDED, BINARY, SELECT, SHUFFLE, NORMAL, N_OPS };
static const char* names[] = {"random_discrete", "random_discrete_unique", "random_discrete_bounded", "random_binary", "select_random", "shuffle", "normal_random"};

/* observed count of something with probability p in n independent trials */
static int plausible(double count, double n, double p) { return fabs(count - n * p) <= 6.5 * sqrt(n * p * (1 - p)) + 8; }
typedef struct { char* data; size_t elem, count; sp_size_t max_index; int calls; } arr_t;
static void arr_swap(void* a, sp_size_t i, sp_size_t j) {
  arr_t* x = a;
  char t[64];
  CHECK(i < x->count && j < x->count, "the swap function is called with indices %u and %u of an array with %zu elements", i, j, x->count);
  memcpy(t, x->data + i * x->elem, x->elem);
  memmove(x->data + i * x->elem, x->data + j * x->elem, x->elem);
  memcpy(x->data + j * x->elem, t, x->elem);
  x->calls += 1;
}
static int cmp_u32(const void* a, const void* b) { u32 x = *(u32*)a, y = *(u32*)b; return x < y ? -1 : x > y; }
static int cmp_f64(const void* a, const void* b) { double x = *(double*)a, y = *(double*)b; return x < y ? -1 : x > y; }

static void shuffle_once(int how, sp_time_t* a, size_t n) {
  if (how == 0) sp_times_shuffle(a, n);
  else if (how == 1) {
    double* s = malloc(n * sizeof *s + 1);
    for (size_t i = 0; i < n; i += 1) s[i] = a[i];
    sp_samples_shuffle(s, n);
    for (size_t i = 0; i < n; i += 1) a[i] = (sp_time_t)s[i];
    free(s);
  } else {
    arr_t x = { .data = (char*)a, .elem = sizeof *a, .count = n };
    sp_shuffle(arr_swap, &x, n);
  }
}

static void run(void) {
  int op = (int)d_below(N_OPS), many = d_chance(3);
  pbt_note("%s%s", names[op], many ? " (distribution)" : "");
  pbt_label(names[op]);
  mem_reset();
  u64 seed = d_below(1ull << 32) << 20 | d_below(1 << 20);
  sp_random_state = sph_random_state_new(seed);
  sph_random_state_t again = sp_random_state;
  switch (op) {
  case DISCRETE:
  case UNIQUE:
  case BOUNDED: {
    sp_time_t k = !many && d_rare(300) ? d_mid() : 1 + d_below(op == BOUNDED || d_chance(80) ? 6 : 40);
    if (op == BOUNDED) k += 1;
    sp_time_t *w = new_times(k), *cu = new_times(k), *kc = new_times(k), nonzero = 0;
    u64 sum = 0;
    int big = d_chance(15) ? 1 + d_bool() : 0;
    for (sp_time_t i = 0; i < k; i += 1) w[i] = d_chance(35) ? 0 : 1 + (sp_time_t)d_below(big ? UINT32_MAX / (big == 1 ? k + 50 : k) - 2 : 9);
    w[d_below(k)] += 1;
    for (sp_time_t i = 0; i < k; i += 1) cu[i] = (sp_time_t)(sum += w[i]), nonzero += !!w[i];
    memcpy(kc, cu, k * sizeof *cu);
    pbt_note(" %u weights, %u not zero", k, nonzero);
    if (nonzero > 1) pbt_nontrivial();
    if (op == DISCRETE) {
      size_t n = many ? 4000 + d_below(20000) : d_rare(500) ? d_mid() : 1 + d_below(30);
      sp_time_t *o = new_times(n), *o2 = new_times(n), *counts = memset(new_times(k), 0, k * sizeof *counts);
      int arr = d_bool();
      if (arr) sp_times_random_discrete(cu, k, n, o);
      else for (size_t i = 0; i < n; i += 1) o[i] = sp_time_random_discrete(cu, k);
      for (size_t i = 0; i < n; i += 1) {
        CHECK(o[i] < k, "index %u of %u weights", o[i], k);
        CHECK(w[o[i]], "index %u has weight zero", o[i]);
        counts[o[i]] += 1;
      }
      if (n > 200) for (sp_time_t i = 0; i < k; i += 1)
        CHECK(plausible(counts[i], (double)n, (double)w[i] / sum), "index %u with %g of the weight was drawn %u of %zu times", i, (double)w[i] / sum, counts[i], n);
      sp_random_state = again;
      if (arr) sp_times_random_discrete(cu, k, n, o2);
      else for (size_t i = 0; i < n; i += 1) o2[i] = sp_time_random_discrete(cu, k);
      CHECK(!memcmp(o, o2, n * sizeof *o), "equal random states give different values");
    } else if (op == UNIQUE) {
      if (big) { /* few values so that drawing all takes long */ big = 0; }
      for (sp_time_t i = 0; i < k; i += 1) if (w[i] > 20) { w[i] = 1 + w[i] % 20; }
      sum = 0;
      for (sp_time_t i = 0; i < k; i += 1) cu[i] = (sp_time_t)(sum += w[i]);
      memcpy(kc, cu, k * sizeof *cu);
      sp_time_t n = (sp_time_t)d_below(nonzero + 1), *o, *o2;
      if (nonzero == k && d_chance(15)) n = k + d_below(4); /* more than there are: all of them */
      o = new_times(n), o2 = new_times(n);
      sp_time_t m = n < k ? n : k;
      pbt_note(", %u values", n);
      sp_times_random_discrete_unique(cu, k, n, o);
      for (sp_time_t i = 0; i < m; i += 1) {
        CHECK(o[i] < k && w[o[i]], "value %u is %u, %s", i, o[i], o[i] < k ? "which has weight zero" : "which does not exist");
        for (sp_time_t j = 0; j < i; j += 1) CHECK(o[i] != o[j], "%u occurs twice", o[i]);
      }
      sp_random_state = again;
      sp_times_random_discrete_unique(cu, k, n, o2);
      CHECK(!memcmp(o, o2, m * sizeof *o), "equal random states give different values");
      if (many && n) {
        u32 trials = 4000, *first = memset(new_array(u32, k), 0, k * sizeof(u32));
        for (u32 t = 0; t < trials; t += 1) { sp_times_random_discrete_unique(cu, k, n, o); first[o[0]] += 1; }
        for (sp_time_t i = 0; i < k; i += 1)
          CHECK(plausible(first[i], trials, (double)w[i] / sum), "index %u with %g of the weight was drawn first %u of %u times", i, (double)w[i] / sum, first[i], trials);
      }
    } else {
      sp_time_t range = (sp_time_t)d_below(d_bool() ? 50 : 1000000);
      double frange = d_float(0, 100);
      int n = many ? 300 : 5;
      for (int q = 0; q < n; q += 1) {
        sp_time_t v = sp_time_random_discrete_bounded(cu, k, range);
        double f = sp_sample_random_discrete_bounded(cu, k, frange);
        int ok = 0, fok = 0;
        for (sp_time_t i = 0; i < k; i += 1) if (w[i]) {
          ok = ok || fabs(v - (double)range * i / (k - 1)) <= 1 || fabs(v - (double)range * i / k) <= 1;
          fok = fok || near_rel(f, frange * i / k, 1e-12, 0) || near_rel(f, frange * i / (k - 1), 1e-12, 0);
        }
        CHECK(v <= range && ok, "sp_time_random_discrete_bounded gives %u with range %u, which no index with weight corresponds to", v, range);
        CHECK(f >= 0 && f <= frange && fok, "sp_sample_random_discrete_bounded gives %g with range %g, which no index with weight corresponds to", f, frange);
      }
    }
    CHECK(!memcmp(cu, kc, k * sizeof *cu), "the distribution was changed");
  } break;
  case BINARY: {
    sp_time_t n = (sp_time_t)(d_rare(1000) ? d_long() : d_rare(500) ? d_mid() : d_below(many ? 3000 : 150)), *o = new_times(n), *o2 = new_times(n), ones = 0;
    pbt_note(" %u", n);
    if (n > 32) pbt_nontrivial();
    CHECK_OK(sp_times_random_binary(n, o), "sp_times_random_binary");
    for (sp_time_t i = 0; i < n; i += 1) { CHECK(o[i] < 2, "element %u is %u", i, o[i]); ones += o[i]; }
    CHECK(plausible(ones, n, 0.5), "%u of %u are one", ones, n);
    sp_random_state = again;
    CHECK_OK(sp_times_random_binary(n, o2), "sp_times_random_binary");
    CHECK(!memcmp(o, o2, n * sizeof *o), "equal random states give different values");
    CHECK(mem_live == 0, "%ld allocations remain", mem_live);
    if (n && n <= 200 && many) { /* each position */
      u32 trials = 1000, *c = memset(new_array(u32, n), 0, n * sizeof(u32));
      for (u32 t = 0; t < trials; t += 1) { CHECK_OK(sp_times_random_binary(n, o), "sp_times_random_binary"); for (sp_time_t i = 0; i < n; i += 1) c[i] += o[i]; }
      for (sp_time_t i = 0; i < n; i += 1) CHECK(plausible(c[i], trials, 0.5), "element %u is one in %u of %u arrays", i, c[i], trials);
    }
  } break;
  case SELECT: {
    sp_time_t n = !many && d_rare(1000) ? (sp_time_t)(d_bool() ? d_mid() : d_long()) : 1 + d_below(d_chance(20) ? 150 : 10), *a = new_times(n), *k = new_times(n), *o = new_times(n), *o2 = new_times(n), size = 9999, size2 = 0;
    for (sp_time_t i = 0; i < n; i += 1) a[i] = k[i] = 1000 * i + (sp_time_t)d_below(1000);
    if (n > 2) pbt_nontrivial();
    sp_times_select_random(a, n, o, &size);
    CHECK(size <= n, "%u of %u values were selected", size, n);
    sp_time_t p = 0;
    for (sp_time_t i = 0; i < size; i += 1) {
      while (p < n && a[p] != o[i]) p += 1;
      CHECK(p < n, "the selected values are not values of the input in order: element %u is %u", i, o[i]);
      p += 1;
    }
    CHECK(!memcmp(a, k, n * sizeof *a), "the input was changed");
    sp_random_state = again;
    sp_times_select_random(a, n, o2, &size2);
    CHECK(size == size2 && !memcmp(o, o2, size * sizeof *o), "equal random states give different selections");
    if (many) {
      u32 trials = 1500, *c = memset(new_array(u32, n), 0, n * sizeof(u32));
      for (u32 t = 0; t < trials; t += 1) { sp_times_select_random(a, n, o, &size); for (sp_time_t i = 0; i < size; i += 1) c[o[i] / 1000] += 1; }
      for (sp_time_t i = 0; i < n; i += 1) CHECK(c[i] > trials / 20 && c[i] < trials - trials / 20, "element %u was selected %u of %u times", i, c[i], trials);
    }
    CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  } break;
  case SHUFFLE: {
    int how = (int)d_below(4);
    if (many) { /* all orders, with equal frequency */
      size_t n = 2 + d_below(3);
      u32 orders = n == 2 ? 2 : n == 3 ? 6 : 24, trials = 300 * orders, c[256] = {0};
      how %= 3;
      pbt_note(" %zu elements", n);
      pbt_nontrivial();
      for (u32 t = 0; t < trials; t += 1) {
        sp_time_t* a = malloc(n * sizeof *a), code = 0;
        for (size_t i = 0; i < n; i += 1) a[i] = i;
        shuffle_once(how, a, n);
        for (size_t i = 0; i < n; i += 1) code = code * 4 + (a[i] & 3);
        free(a);
        c[code] += 1;
      }
      u32 used = 0;
      for (int i = 0; i < 256; i += 1) if (c[i]) {
        used += 1;
        CHECK(plausible(c[i], trials, 1.0 / orders), "one order of %zu elements occurs %u of %u times", n, c[i], trials);
      }
      CHECK(used == orders, "%u of %u orders occur", used, orders);
      break;
    }
    size_t n = d_rare(1000) ? d_long() : d_rare(500) ? d_mid() : d_below(d_chance(20) ? 100 : 10);
    pbt_note(" %zu elements, variant %d", n, how);
    if (n > 2) pbt_nontrivial();
    if (how < 3) {
      sp_time_t *a = d_times(n, 0, d_bool() ? 5 : 1 << 30), *b = memcpy(new_times(n), a, n * sizeof *a), *c = memcpy(new_times(n), a, n * sizeof *a), *r = new_times(n);
      shuffle_once(how, a, n);
      memcpy(r, a, n * sizeof *a);
      sp_random_state = again;
      shuffle_once(how, c, n);
      CHECK(!memcmp(a, c, n * sizeof *a), "equal random states give different orders");
      qsort(r, n, sizeof *a, cmp_u32);
      qsort(b, n, sizeof *a, cmp_u32);
      CHECK(!memcmp(r, b, n * sizeof *a), "the result is not a permutation of the input");
    } else { /* other element types and sizes */
      sp_sample_t *a = d_samples(n, -1e6, 1e6), *b = memcpy(new_samples(n), a, n * sizeof *a);
      if (d_bool()) sp_samples_shuffle(a, n);
      else { arr_t x = { .data = (char*)a, .elem = sizeof *a, .count = n }; sp_shuffle(arr_swap, &x, n); }
      qsort(a, n, sizeof *a, cmp_f64);
      qsort(b, n, sizeof *a, cmp_f64);
      for (size_t i = 0; i < n; i += 1) CHECK(a[i] == b[i], "the result is not a permutation of the input");
      /* pointers to arrays */
      sp_time_t **p = new_array(sp_time_t*, n), **q = new_array(sp_time_t*, n), *base = new_times(n);
      for (size_t i = 0; i < n; i += 1) p[i] = q[i] = base + i, base[i] = 0;
      sp_shuffle(sp_times_shuffle_swap, p, n);
      for (size_t i = 0; i < n; i += 1) { CHECK(p[i] >= base && p[i] < base + n, "element %zu is a pointer that was not there before", i); p[i][0] += 1; }
      for (size_t i = 0; i < n; i += 1) CHECK(base[i] == 1, "pointer %zu occurs %u times", i, base[i]);
    }
  } break;
  case NORMAL: {
    sp_time_t lo = (sp_time_t)d_below(d_bool() ? 10 : 10000000), range = 1 + (sp_time_t)d_below(d_bool() ? 30 : 10000000), hi = lo + range;
    int n = many ? 2000 : 5;
    double sum = 0, sq = 0;
    pbt_note(" %u to %u", lo, hi);
    if (range > 2) pbt_nontrivial();
    for (int i = 0; i < n; i += 1) {
      sp_time_t v = sp_normal_random(lo, hi);
      CHECK(v >= lo && v <= hi, "sp_normal_random(%u, %u) gives %u", lo, hi, v);
      sum += v - (double)lo;
      sq += (v - (double)lo) * (v - (double)lo);
    }
    if (many && range > 1000) {
      double mean = sum / n / range, sd = sqrt(fmax(0, sq / n / range / range - mean * mean));
      CHECK(mean > 0.4 && mean < 0.6, "the mean of sp_normal_random(%u, %u) is at %g of the range", lo, hi, mean);
      CHECK(sd > 0.01 && sd < 0.27, "the deviation of sp_normal_random(%u, %u) is %g of the range", lo, hi, sd);
    }
  } break;
  }
}

static const pbt_meta META = { .id = "C25", .quick = 600000, .thorough = 20000000, .setup = setup_sp, .run = run,
  .rule = "any random state, weights of 1 to 40 choices with zeros and large values, arrays of up to 150 elements of several types; each case checks membership, order and reproducibility, 3% of the cases check frequencies of 300 to 24000 draws with bounds that chance exceeds less than once in a thousand million; non-trivial: at least two choices with weight, or three elements" };
