/* random numbers against the published splitmix64, xoshiro256** and xoshiro256+ and lemire's bounded method */
#include "../sp.h"
typedef struct { u64 s[4]; } ref_t;
static u64 rol(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static ref_t ref_new(u64 x) {
  ref_t r;
  for (int i = 0; i < 4; i += 1) {
    u64 z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    r.s[i] = z ^ (z >> 31);
  }
  return r;
}
static void ref_step(ref_t* r) {
  u64* s = r->s, t = s[1] << 17;
  s[2] ^= s[0];
  s[3] ^= s[1];
  s[1] ^= s[2];
  s[0] ^= s[3];
  s[2] ^= t;
  s[3] = rol(s[3], 45);
}
static u64 ref_ss(ref_t* r) { u64 a = rol(r->s[1] * 5, 7) * 9; ref_step(r); return a; }
static double ref_plus(ref_t* r) { u64 a = r->s[0] + r->s[3]; ref_step(r); return (a >> 11) * 0x1.0p-53; }
static u64 ref_bounded(ref_t* r, u64 range) {
  if (!range) { ref_ss(r); return 0; }
  u64 t = (0 - range) % range;
  while (1) {
    __uint128_t m = (__uint128_t)ref_ss(r) * range;
    if ((u64)m >= t) return (u64)(m >> 64);
  }
}
static int same_state(sph_random_state_t* a, ref_t* b) { return !memcmp(a->data, b->s, sizeof b->s); }

static u64 d_seed(void) {
  switch (d_below(4)) {
  case 0: return d_below(20);
  case 1: return ~0ull - d_below(4);
  case 2: return 1557083953;
  default: return d_below(1ull << 32) << 32 | d_below(1ull << 32);
  }
}
static u64 d_range64(void) {
  switch (d_below(5)) {
  case 0: return 1 + d_below(10);
  case 1: return 1ull << d_below(64);
  case 2: return (1ull << 63) + d_below(1ull << 62);
  case 3: return 1 + d_below(~0ull);
  default: return ~0ull - d_below(3);
  }
}
static double d_rangef(void) { return d_bool() ? 1 + (double)d_below(1000) : d_float(-1000, 1000); }

enum { U64, U64B, U32, U32B, F64, F64B, F1, F0, N_OPS };
static const char* names[] = {"u64", "u64_bounded", "u32", "u32_bounded", "f64", "f64_bounded", "f64_1to1", "f64_0to1"};

static void init_case(void) {
  sp_time_t draws = d_rare(50) ? d_mid() : d_below(50), *o = new_times(draws);
  sp_random_state_t first = sp_random_state;
  pbt_label("initialise again");
  pbt_nontrivial();
  sp_random_state = first;
  sp_deinitialize();
  CHECK_OK(sp_initialize(0, 1, 12), "sp_initialize");
  sp_random_state_t a = sp_random_state, e = sp_random_state_new(sp_random_seed);
  sp_times_random(draws, o);
  sp_deinitialize();
  CHECK_OK(sp_initialize(0, 2, 20), "sp_initialize");
  CHECK(!memcmp(a.data, sp_random_state.data, sizeof a.data), "initialising again gives another random state");
  CHECK(!memcmp(a.data, e.data, sizeof a.data), "the initial random state is not the one of the default seed");
  sp_deinitialize();
  CHECK_OK(sp_initialize(0, 1, 10), "sp_initialize");
}

static void setup_small(void) { if (sp_initialize(0, 1, 10).id) _exit(77); }
static void run(void) {
  if (d_chance(2)) { init_case(); return; }
  if (d_chance(3)) { /* the library's states are on the stream of their seed, and only depend on it */
    sp_time_t seed = (sp_time_t)d_seed();
    sp_random_state_t a = sp_random_state_new(seed), b = sp_random_state_new(seed);
    pbt_note("sp_random_state_new(%u)", seed);
    pbt_label("sp_random_state_new");
    ref_t r = ref_new(seed);
    int found = 0;
    for (int i = 0; i < 20 && !found; i += 1) { found = same_state(&a, &r); ref_step(&r); }
    CHECK(found, "the state is not on the stream of the seed");
    CHECK(!memcmp(a.data, b.data, sizeof a.data), "equal seeds give different states");
    return;
  }
  u64 seed = d_seed();
  pbt_note("seed %lu:", (unsigned long)seed);
  sph_random_state_t st = sph_random_state_new(seed);
  ref_t r = ref_new(seed);
  CHECK(same_state(&st, &r), "the initial state is not the one splitmix64 gives for the seed");
  int steps = 1 + (int)d_below(8), use_global = d_chance(25);
  if (use_global) sp_random_state = st;
  sph_random_state_t* s = use_global ? &sp_random_state : &st;
  if (steps > 1) pbt_nontrivial();
  for (int q = 0; q < steps; q += 1) {
    int op = (int)d_below(N_OPS), arr = d_bool();
    size_t n = arr ? (d_rare(200) ? d_mid() : d_rare(20000) ? d_long() : d_below(d_chance(10) ? 200 : 12)) : 1;
    pbt_label(names[op]);
    pbt_note(" %s", names[op]);
    if (arr) pbt_note(" array of %zu", n);
    switch (op) {
    case U64:
    case U64B: {
      u64 *o = new_array(u64, n), range = op == U64B ? d_range64() : 0;
      if (op == U64B) pbt_note(" %lu", (unsigned long)range);
      if (arr && op == U64) sph_random_u64_array(s, n, o);
      else if (arr) sph_random_u64_bounded_array(s, range, n, o);
      else *o = op == U64 ? sph_random_u64(s) : sph_random_u64_bounded(s, range);
      for (size_t i = 0; i < n; i += 1) {
        u64 e = op == U64 ? ref_ss(&r) : ref_bounded(&r, range);
        CHECK(o[i] == e, "%s: value %zu is %lu, expected %lu", names[op], i, (unsigned long)o[i], (unsigned long)e);
        CHECK(op == U64 || o[i] < range, "%lu is not below %lu", (unsigned long)o[i], (unsigned long)range);
      }
    } break;
    case U32:
    case U32B: {
      u32 *o = new_array(u32, n), range = op == U32 ? 0 : (u32)(d_range64() & UINT32_MAX);
      if (!range) range = 1;
      if (op == U32B) pbt_note(" %u", range);
      if (use_global) {
        if (arr && op == U32) sp_times_random(n, o);
        else if (arr) sp_times_random_bounded(range, n, o);
        else *o = op == U32 ? sp_time_random() : sp_time_random_bounded(range);
      } else {
        if (arr && op == U32) sph_random_u32_array(s, n, o);
        else if (arr) sph_random_u32_bounded_array(s, range, n, o);
        else *o = op == U32 ? sph_random_u32(s) : sph_random_u32_bounded(s, range);
      }
      for (size_t i = 0; i < n; i += 1) {
        u32 e = op == U32 ? (u32)(ref_ss(&r) >> 32) : (u32)ref_bounded(&r, range);
        CHECK(o[i] == e, "%s: value %zu is %u, expected %u", names[op], i, o[i], e);
        CHECK(op == U32 || o[i] < range, "%u is not below %u", o[i], range);
      }
    } break;
    default: {
      double *o = new_array(double, n), range = op == F64B ? d_rangef() : 1;
      if (op == F64B) pbt_note(" %g", range);
      if (use_global && op == F1) { if (arr) sp_samples_random(n, o); else *o = sp_sample_random(); }
      else if (use_global && op == F0) { if (arr) sp_units_random(n, o); else *o = sp_unit_random(); }
      else if (use_global && op == F64B && arr) sp_samples_random_bounded(range, n, o);
      else if (arr) op == F64 ? sph_random_f64_array(s, n, o) : op == F64B ? sph_random_f64_bounded_array(s, range, n, o) : op == F1 ? sph_random_f64_array_1to1(s, n, o) : sph_random_f64_array_0to1(s, n, o);
      else *o = op == F64 ? sph_random_f64(s) : op == F64B ? sph_random_f64_bounded(s, range) : op == F1 ? sph_random_f64_1to1(s) : sph_random_f64_0to1(s);
      for (size_t i = 0; i < n; i += 1) {
        double lo = op == F1 ? -1 : op == F64B && range < 0 ? range : 0, hi = op == F64B ? (range < 0 ? 0 : range) : 1, e, e2;
        ref_t r2 = r;
        e2 = (ref_ss(&r2) >> 11) * 0x1.0p-53;
        e = ref_plus(&r);
        e = op == F64B ? range * e : op == F1 ? 2 * e - 1 : e;
        CHECK(o[i] == e || (op == F64 && o[i] == e2) || (op == F64B && near_rel(o[i], e, 1e-15, 0)), "%s: value %zu is %.17g, expected %.17g", names[op], i, o[i], e);
        CHECK(o[i] >= lo && o[i] <= hi, "%s: %.17g is not in the range %g to %g", names[op], o[i], lo, hi);
      }
    }
    }
    CHECK(same_state(s, &r), "the state after %s differs from the reference", names[op]);
  }
}

static const pbt_meta META = { .id = "C24", .quick = 4000000, .thorough = 50000000, .setup = setup_small, .run = run,
  .rule = "any seed, then sequences of 1 to 8 draws of all kinds, single or as arrays of any size, with small, large and power-of-two bounds, each value and state compared with the published generators; non-trivial: at least two drawing operations, or initialising the library again" };
