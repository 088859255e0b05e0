/* enumeration of permutations, compositions and digit sequences; counts, powers and factorials */
#include "../sp.h"
enum { PERMUTATIONS, COMPOSITIONS, SEQUENCES, INCREMENT, COUNTS, POWERS, N_OPS };
static const char* names[] = {"permutations", "compositions", "sequences", "sequence_increment", "counts", "powers"};
static int cmp_times_n;
static int cmp_rows(const void* a, const void* b) {
  const sp_time_t *x = *(sp_time_t* const*)a, *y = *(sp_time_t* const*)b;
  for (int i = 0; i < cmp_times_n; i += 1) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
static u64 u_pow(u64 b, u64 e) { u64 r = 1; for (; e; e -= 1) r *= b; return r; }
static u64 u_fact(u64 n) { u64 r = 1; for (; n; n -= 1) r *= n; return r; }

static void run(void) {
  int op = (int)d_below(d_chance(70) ? N_OPS : 2);
  pbt_note("%s", names[op]);
  pbt_label(names[op]);
  mem_reset();
  switch (op) {
  case PERMUTATIONS: {
    sp_time_t n = 1 + d_below(d_chance(10) ? 7 : 5), distinct = d_chance(70), **out = 0, out_size = 99;
    /* more results than 16 bits count */
    if (d_rare(15000)) { n = 8 + d_below(2); pbt_label("many results"); }
    sp_time_t *set = new_times(n), *k = new_times(n);
    for (sp_time_t i = 0; i < n; i += 1) set[i] = distinct ? (sp_time_t)(d_below(1 << 20) * 16 + i) : (sp_time_t)d_below(3);
    memcpy(k, set, n * sizeof *k);
    pbt_note(" of %u %svalues", n, distinct ? "distinct " : "");
    if (n > 2) pbt_nontrivial();
    CHECK_OK(sp_times_permutations(n, set, n, &out, &out_size), "sp_times_permutations");
    CHECK(out_size == u_fact(n), "%u permutations of %u elements instead of %u", out_size, n, (u32)u_fact(n));
    for (sp_time_t i = 0; i < n; i += 1) CHECK(set[i] == k[i], "element %u of the set was changed from %u to %u", i, k[i], set[i]);
    CHECK(mem_live == (long)out_size + 1, "%ld allocations remain for %u permutations", mem_live, out_size);
    /* every arrangement of the positions the same number of times */
    sp_time_t** rows = new_array(sp_time_t*, out_size);
    memcpy(rows, out, out_size * sizeof *rows);
    cmp_times_n = n;
    qsort(rows, out_size, sizeof *rows, cmp_rows);
    u64 mult = 1;
    for (sp_time_t v = 0; v < n; v += 1) {
      u64 c = 0;
      int first = 1;
      for (sp_time_t i = 0; i < n; i += 1) { if (k[i] == k[v]) { c += 1; if (i < v) first = 0; } }
      if (first) mult *= u_fact(c);
    }
    for (sp_time_t i = 0; i < out_size; i += 1) {
      for (sp_time_t j = 0; j < n; j += 1) {
        int a = 0, b = 0;
        for (sp_time_t x = 0; x < n; x += 1) a += rows[i][x] == rows[i][j], b += k[x] == rows[i][j];
        CHECK(a == b, "one result contains %u %d times, the set %d times", rows[i][j], a, b);
      }
      if (i % mult == 0) CHECK(!i || cmp_rows(rows + i, rows + i - 1), "an arrangement was produced more often than %u times", (u32)mult);
      else CHECK(!cmp_rows(rows + i, rows + i - 1), "an arrangement was produced less often than %u times", (u32)mult);
    }
    for (sp_time_t i = 0; i < out_size; i += 1) t_free(out[i]);
    t_free(out);
  } break;
  case COMPOSITIONS: {
    sp_time_t sum = 1 + d_below(d_chance(10) ? 12 : 8), **out = 0, out_size = 99, *sizes = 0;
    if (d_rare(8000)) { sum = 13 + d_below(6); pbt_label("many results"); }
    pbt_note(" of %u", sum);
    if (sum > 2) pbt_nontrivial();
    CHECK_OK(sp_times_compositions(sum, &out, &out_size, &sizes), "sp_times_compositions");
    CHECK(out_size == u_pow(2, sum - 1), "%u compositions of %u instead of %u", out_size, sum, (u32)u_pow(2, sum - 1));
    CHECK(out_size == sp_compositions_max(sum), "sp_compositions_max(%u) is %u, enumerated %u", sum, (u32)sp_compositions_max(sum), out_size);
    u8* seen = memset(buf_new(out_size), 0, out_size);
    for (sp_time_t i = 0; i < out_size; i += 1) {
      u64 total = 0, code = 0;
      CHECK(sizes[i] >= 1 && sizes[i] <= sum, "size of composition %u of %u is %u", i, sum, sizes[i]);
      for (sp_time_t j = 0; j < sizes[i]; j += 1) {
        CHECK(out[i][j] >= 1, "a composition contains zero");
        total += out[i][j];
        if (total < sum) code |= 1ull << (total - 1);
      }
      CHECK(total == sum, "the sum of a composition is %u instead of %u", (u32)total, sum);
      CHECK(!seen[code], "a composition of %u occurs twice", sum);
      seen[code] = 1;
    }
    CHECK(mem_live == (long)out_size + 2, "%ld allocations remain for %u compositions", mem_live, out_size);
    for (sp_time_t i = 0; i < out_size; i += 1) t_free(out[i]);
    t_free(out);
    t_free(sizes);
  } break;
  case SEQUENCES: {
    sp_time_t base = 1 + d_below(6), many = d_chance(15), digits = 1 + d_below(many ? 70 : 5), count = 1 + d_below(d_bool() ? 40 : 300);
    if (!many && d_chance(40)) count = (sp_time_t)u_pow(base, digits) % 3000 + 1;
    pbt_note(" base %u, %u digits, %u sequences", base, digits, count);
    if (count > base) pbt_nontrivial();
    sp_time_t *out = new_times(digits * count), *e = new_times(digits);
    for (sp_time_t i = 0; i < digits; i += 1) e[i] = out[i] = d_chance(60) ? 0 : (sp_time_t)d_below(base);
    sp_times_sequences(base, digits, count, out);
    for (sp_time_t i = 0; i < count; i += 1) {
      for (sp_time_t j = 0; j < digits; j += 1) CHECK(out[i * digits + j] == e[j], "digit %u of sequence %u is %u, expected %u", j, i, out[i * digits + j], e[j]);
      for (sp_time_t j = 0; j < digits; j += 1) { e[j] = (e[j] + 1) % base; if (e[j]) break; }
    }
  } break;
  case INCREMENT: {
    sp_time_t base = d_chance(20) ? UINT32_MAX - (sp_time_t)d_below(3) : 1 + (sp_time_t)d_below(10), digits = 1 + d_below(9), most = 0;
    /* a carry over many digits */
    if (d_chance(20)) { digits = 1 + d_below(d_chance(90) ? 100 : 700); most = d_below(digits + 1); }
    sp_time_t *a = new_times(digits), *e = new_times(digits);
    for (sp_time_t i = 0; i < digits; i += 1) e[i] = a[i] = i < most || d_chance(60) ? base - 1 : (sp_time_t)d_below(base);
    for (sp_time_t j = 0; j < digits; j += 1) { if (e[j] == base - 1) e[j] = 0; else { e[j] += 1; break; } }
    pbt_note(" base %u, %u digits", base, digits);
    if (a[0] == base - 1) pbt_nontrivial();
    sp_times_sequence_increment(a, digits, base);
    for (sp_time_t j = 0; j < digits; j += 1) CHECK(a[j] == e[j], "digit %u is %u, expected %u", j, a[j], e[j]);
  } break;
  case COUNTS: {
    sp_time_t n = d_below(13), k = 0, f = n;
    /* a selection from a large set, as long as the number of arrangements fits the integer type */
    if (d_chance(40)) f = (sp_time_t)d_below(d_bool() ? 60 : d_bool() ? 2000 : 70000);
    u64 p = 1;
    for (sp_time_t most = d_below(f + 1); k < most && p * (f - k) <= UINT32_MAX; k++) p *= f - k;
    pbt_note(" n %u, %u of %u", n, k, f);
    if (k && k < f) pbt_nontrivial();
    CHECK(sp_time_factorial(n) == u_fact(n), "sp_time_factorial(%u) is %u, expected %u", n, sp_time_factorial(n), (u32)u_fact(n));
    CHECK(sp_permutations_max(f, k) == p, "sp_permutations_max(%u, %u) is %u, expected %u", f, k, (u32)sp_permutations_max(f, k), (u32)p);
    if (f > 12 && k) pbt_label("selections from large sets");
    sp_time_t c = d_chance(20) ? 1 + (sp_time_t)d_below(32) : n;
    if (c) CHECK(sp_compositions_max(c) == u_pow(2, c - 1), "sp_compositions_max(%u) is %u", c, (u32)sp_compositions_max(c));
    sp_time_t d = d_below(7), m = d_below(20);
    if (d_chance(20)) {
      d = d_below(3);
      m = (sp_time_t)d_below(65536);
    }
    u64 e = m ? u_pow(m, d) : 0;
    if (e <= UINT32_MAX) CHECK(sp_set_sequence_max(m, d) == e, "sp_set_sequence_max(%u, %u) is %u, expected %u", m, d, (u32)sp_set_sequence_max(m, d), (u32)e);
  } break;
  case POWERS: {
    sp_time_t b = (sp_time_t)d_below(d_bool() ? 12 : 1 << 16), x = (sp_time_t)d_below(b < 2 ? 100 : 32);
    u64 e = 1;
    while (1) {
      e = 1;
      sp_time_t i = 0;
      for (; i < x && e <= UINT32_MAX; i += 1) e *= b;
      if (e <= UINT32_MAX) break;
      x = i - 1;
    }
    pbt_note(" %u to the power of %u", b, x);
    if (b > 1 && x > 1) pbt_nontrivial();
    CHECK(sp_time_expt(b, x) == e, "sp_time_expt(%u, %u) is %u, expected %u", b, x, sp_time_expt(b, x), (u32)e);
  } break;
  }
}

static const pbt_meta META = { .id = "C23", .quick = 800000, .thorough = 20000000, .setup = setup_sp, .run = run,
  .rule = "sets of 1 to 7, rarely 9 elements with or without repetitions, sums of 1 to 12, rarely 18, digit sequences of any base and length, powers and factorials that fit the integer type, compared with direct enumeration; non-trivial: more than two elements, a carry or more sequences than the base, or an exponent above one" };
