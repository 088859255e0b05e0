/* quicksort over any array and callbacks */
#include "../sp.h"
#include <sph-sp/quicksort.h>
typedef struct { char* data; size_t elem, n; ssize_t lo, hi; u64 compared, limit; int (*cmp)(const void*, const void*); int* adv; size_t adv_solid; size_t candidate; } arr_t;
static int cmp_u8(const void* a, const void* b) { return (int)*(u8*)a - *(u8*)b; }
static int cmp_u32(const void* a, const void* b) { u32 x = *(u32*)a, y = *(u32*)b; return x < y ? -1 : x > y; }
static int cmp_f64(const void* a, const void* b) { double x = *(double*)a, y = *(double*)b; return x < y ? -1 : x > y; }
typedef struct { i64 key; u64 id[3]; } rec_t;
static int cmp_rec(const void* a, const void* b) { i64 x = ((rec_t*)a)->key, y = ((rec_t*)b)->key; return x < y ? -1 : x > y; }
static int cmp_all(const void* a, const void* b) { return memcmp(a, b, sizeof(rec_t)); }
static void inside(arr_t* x, ssize_t i, const char* what) {
  CHECK(i >= x->lo && i <= x->hi, "%s is called with index %zd when sorting %zd to %zd", what, i, x->lo, x->hi);
}
static u8 less(void* a, ssize_t i, ssize_t j) {
  arr_t* x = a;
  inside(x, i, "the comparison");
  inside(x, j, "the comparison");
  x->compared += 1;
  CHECK(x->compared <= x->limit, "more than %lu comparisons for %zd elements", (unsigned long)x->limit, x->hi - x->lo + 1);
  if (x->adv) { /* the order is decided when asked, to make partitions as uneven as possible */
    int gas = 1 << 30;
    u32 *d = (u32*)x->data, p = d[i], q = d[j];
    if (x->adv[p] == gas && x->adv[q] == gas) x->adv[p == x->candidate ? p : q] = (int)x->adv_solid++;
    if (x->adv[p] == gas) x->candidate = p;
    else if (x->adv[q] == gas) x->candidate = q;
    return x->adv[p] < x->adv[q];
  }
  return x->cmp(x->data + i * x->elem, x->data + j * x->elem) < 0;
}
static void swap(void* a, ssize_t i, ssize_t j) {
  arr_t* x = a;
  char t[64];
  inside(x, i, "the exchange");
  inside(x, j, "the exchange");
  memcpy(t, x->data + i * x->elem, x->elem);
  memmove(x->data + i * x->elem, x->data + j * x->elem, x->elem);
  memcpy(x->data + j * x->elem, t, x->elem);
}
static i64 shape(int kind, size_t i, size_t n, u64 seed, u64 values) {
  switch (kind) {
  case 0: return (i64)(mix64(seed + i) % values);
  case 1: return (i64)i; /* sorted */
  case 2: return (i64)(n - i); /* reversed */
  case 3: return 7; /* all equal */
  case 4: return (i64)(i < n / 2 ? i : n - i); /* up and down */
  case 5: return (i64)(i < n / 2 ? n - i : i);
  case 6: return (i64)(i % (1 + values % 5)); /* repeating */
  default: return i == seed % n ? (i64)(mix64(seed) % (n + 2)) - 1 : (i64)i; /* sorted but one */
  }
}

static void run(void) {
  size_t n = d_chance(70) ? d_below(10) : d_below(d_chance(10) ? 1500 : 80);
  if (d_rare(50000)) {
    n = d_long();
    pbt_label("long");
  }
  int what = (int)d_below(6), kind = (int)d_below(8), by_hand = n < 12 && d_bool();
  if (n > 60000) { /* without the orders that need quadratic time */
    what %= 5;
    if (kind == 4 || kind == 5) kind = 0;
  }
  u64 seed = d_below(1ull << 30), values = 1 + d_below(d_bool() ? 4 : 2 * n + 1);
  size_t lo = 0, cnt = n;
  if (d_bool()) { lo = d_below(n + 1); cnt = d_below(n - lo + 1); }
  static const char* whats[] = {"sp_time_sort", "sp_sample_sort", "bytes", "integers", "records", "decided order"};
  pbt_note("%s, %zu of %zu elements from %zu, shape %d%s", whats[what], cnt, n, lo, kind, by_hand ? " drawn one by one" : "");
  pbt_label(whats[what]);
  if (cnt > 2) pbt_nontrivial();
  i64* v = new_array(i64, n);
  for (size_t i = 0; i < n; i += 1) v[i] = by_hand ? (i64)d_below(values) : shape(kind, i, n, seed, values);
  size_t elems[] = {sizeof(sp_time_t), sizeof(sp_sample_t), 1, sizeof(u32), sizeof(rec_t), sizeof(u32)};
  int (*cmps[])(const void*, const void*) = {cmp_u32, cmp_f64, cmp_u8, cmp_u32, cmp_rec, cmp_u32};
  size_t e = elems[what];
  char* a = buf_new(n * e);
  for (size_t i = 0; i < n; i += 1) switch (what) {
    case 1: ((double*)a)[i] = (double)v[i] * (seed & 1 ? -0.37 : 1e10); break;
    case 2: ((u8*)a)[i] = (u8)(v[i] % 256); break;
    case 4: memset(a + i * e, 0, e); ((rec_t*)a)[i].key = v[i]; for (int q = 0; q < 3; q += 1) ((rec_t*)a)[i].id[q] = i * 3 + q; break;
    case 5: ((u32*)a)[i] = (u32)i; break;
    default: ((u32*)a)[i] = (u32)v[i];
  }
  char *k = buf_new(n * e), *sorted = buf_new(cnt * e);
  memcpy(k, a, n * e);
  arr_t x = { .data = a, .elem = e, .n = n, .lo = (ssize_t)lo, .hi = (ssize_t)(lo + cnt) - 1, .cmp = cmps[what], .limit = 10 * (u64)cnt * cnt + 100 };
  int* adv = 0;
  if (what == 5) {
    adv = new_array(int, n);
    for (size_t i = 0; i < n; i += 1) adv[i] = 1 << 30;
    x.adv = adv;
  }
  if (what == 0) quicksort(sp_time_sort_less, sp_time_sort_swap, a, x.lo, x.hi);
  else if (what == 1) quicksort(sp_sample_sort_less, sp_sample_sort_swap, a, x.lo, x.hi);
  else quicksort(less, swap, &x, x.lo, x.hi);
  CHECK(!memcmp(a, k, lo * e), "elements before the range were changed");
  CHECK(!memcmp(a + (lo + cnt) * e, k + (lo + cnt) * e, (n - lo - cnt) * e), "elements after the range were changed");
  for (size_t i = lo + 1; i < lo + cnt; i += 1) {
    int bad = what == 5 ? adv[((u32*)a)[i]] < adv[((u32*)a)[i - 1]] : cmps[what](a + i * e, a + (i - 1) * e) < 0;
    CHECK(!bad, "elements %zu and %zu are not in ascending order", i - 1, i);
  }
  int (*total)(const void*, const void*) = what == 4 ? cmp_all : cmps[what];
  memcpy(sorted, a + lo * e, cnt * e);
  qsort(sorted, cnt, e, total);
  qsort(k + lo * e, cnt, e, total);
  CHECK(!memcmp(sorted, k + lo * e, cnt * e), "the range is not a permutation of what it was");
}

static const pbt_meta META = { .id = "C27", .quick = 1000000, .thorough = 50000000, .setup = setup_sp, .run = run,
  .rule = "arrays of up to 1500 elements of five types (bytes to records), random, sorted, reversed, equal, organ pipe and repeating content, an order that is decided adversarially while sorting, any subrange; indices of all callbacks are checked; non-trivial: a range of at least three elements" };
