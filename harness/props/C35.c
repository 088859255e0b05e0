/* arrays with a used length, and memory registers, against models */
#include "../sp.h"
#include <sph-sp/array3.h>
#include <sph-sp/memreg.h>

static long fail_in; /* the nth allocation from now fails */
static int failed;
static int fails(void) {
  if (fail_in > 0 && --fail_in == 0) {
    failed = 1;
    return 1;
  }
  return 0;
}
static void* my_malloc(size_t n) { return fails() ? 0 : malloc(n); }
static void* my_realloc(void* a, size_t n) { return fails() ? 0 : realloc(a, n); }
typedef struct { char c; u32 n; char d[3]; } odd_t;
#define allocs my_malloc, my_realloc
array3_declare_type_custom(bytes, u8, my_malloc, my_realloc);
array3_declare_type_custom(words, u64, my_malloc, my_realloc);
array3_declare_type_custom(odds, odd_t, my_malloc, my_realloc);
static u8 to_u8(u64 v) { return (u8)v; }
static u64 to_u64(u64 v) { return v * 0x100000001ull; }
static odd_t to_odd(u64 v) { return (odd_t){ .c = (char)v, .n = (u32)v * 77, .d = { 1, (char)v, 3 } }; }
static int eq_u8(u8 a, u64 v) { return a == (u8)v; }
static int eq_u64(u64 a, u64 v) { return a == to_u64(v); }
static int eq_odd(odd_t a, u64 v) { return a.c == (char)v && a.n == (u32)v * 77 && a.d[0] == 1 && a.d[1] == (char)v && a.d[2] == 3; }

#define MOST 1200
static u64 model[MOST];
/* one history for an element type */
#define history(name, type, to, eq) \
  static int history_##name(int ops) { \
    array3_declare(a, name##_t); \
    size_t size = d_rare(20000) ? d_mid() : d_below(12), used = 0, most = 0, resized = 0; \
    CHECK(!a.data && !a.size && !a.used, "a declared array is not empty"); \
    CHECK(array3_full(a) && !array3_not_full(a) && !array3_unused_size(a), "an array without space is not full"); \
    size += !size; \
    fail_in = d_chance(5); \
    failed = 0; \
    int r = name##_new(size, &a); \
    CHECK(!r == !failed, "creating returns %d", r); \
    if (r) return 0; \
    if (size > 200) for (most = used = size - d_below(30); resized < used; resized++) { \
      type x = to(resized); \
      array3_add(a, x); \
      model[resized] = resized; \
    } \
    resized = 0; \
    for (int o = 0; o < ops; o++) { \
      CHECK(array3_max_size(a) == size && array3_size(a) == used && array3_unused_size(a) == size - used, "size %zu, used %zu, unused %zu instead of %zu, %zu, %zu", array3_max_size(a), array3_size(a), array3_unused_size(a), size, used, size - used); \
      CHECK(!array3_full(a) == !(used == size) && !array3_not_full(a) == !(used < size), "full and not full do not match %zu of %zu", used, size); \
      for (size_t i = 0; i < used; i++) CHECK(eq(array3_get(a, i), model[i]), "element %zu of %zu is another one", i, used); \
      u64 op = d_below(20), v = d_below(1000); \
      if (op < 11) { \
        if (used == size) continue; \
        type x = to(v); \
        array3_add(a, x); \
        model[used++] = v; \
        if (used > most) most = used; \
      } else if (op < 13) { \
        if (!used) continue; \
        array3_remove(a); \
        used--; \
      } else if (op < 15) { \
        if (!used) continue; \
        size_t i = d_below(used); \
        array3_get(a, i) = to(v); \
        model[i] = v; \
      } else if (op < 18) { \
        size_t n = d_bool() ? size * 2 : 1 + d_below(30); \
        if (n > MOST) n = MOST; \
        fail_in = d_chance(10); \
        failed = 0; \
        r = name##_resize(&a, n); \
        CHECK(!r == !failed, "resizing returns %d", r); \
        if (r) continue; \
        if (n < used) used = n; \
        size = n; \
        resized++; \
        pbt_note(" resize %zu", n); \
      } else if (op < 19) { \
        if (used == size) CHECK(eq(array3_data_last(a), model[used - 1]), "the last element is another one"); \
        if (d_chance(20)) { \
          array3_clear(a); \
          used = 0; \
        } \
      } else { \
        name##_t b, *bp = &b; \
        array3_set_null(b); \
        CHECK(!b.data && !b.size && !b.used, "an array set to null is not empty"); \
        CHECK(array3_full(b) && !array3_not_full(b), "an array set to null is not full"); \
        array3_take(bp, a.data, a.size, a.used); \
        CHECK(b.data == a.data && b.size == size && b.used == used, "taking gives another array"); \
        array3_set_null(a); \
        a = b; \
      } \
    } \
    array3_free(a); \
    return most > 1 && resized; \
  }
history(bytes, u8, to_u8, eq_u8)
history(words, u64, to_u64, eq_u64)
history(odds, odd_t, to_odd, eq_odd)
/* arrays in local variables, a new one each time the declaration is passed */
#define stack_history(name, type, to, eq) \
  static int stack_##name(int ops) { \
    int good = 0; \
    for (int round = 0; round < 3; round++) { \
      array3_declare_stack(a, 24, name##_t, type); \
      name##_t* volatile escape = &a; \
      size_t used = 0, most = 0; \
      CHECK(array3_max_size((*escape)) == 24 && array3_size((*escape)) == 0 && array3_unused_size((*escape)) == 24, "declaration %d of a local array for 24 elements has size %zu with %zu used", round + 1, array3_max_size(a), array3_size(a)); \
      for (int o = 0; o < ops; o++) { \
        u64 op = d_below(8), v = d_below(1000); \
        if (op < 5) { \
          if (used == 24) continue; \
          type x = to(v); \
          array3_add(a, x); \
          model[used++] = v; \
          if (used > most) most = used; \
        } else if (op < 7) { \
          if (!used) continue; \
          array3_remove(a); \
          used--; \
        } else if (d_chance(10)) { \
          array3_clear(a); \
          used = 0; \
        } \
        CHECK(array3_size((*escape)) == used && array3_unused_size((*escape)) == 24 - used && !array3_full((*escape)) == !(used == 24), "%zu of 24 are used instead of %zu", array3_size(a), used); \
        for (size_t i = 0; i < used; i++) CHECK(eq(array3_get((*escape), i), model[i]), "element %zu of %zu of a local array is another one", i, used); \
      } \
      good |= most > 2; \
    } \
    return good; \
  }
stack_history(bytes, u8, to_u8, eq_u8)
stack_history(words, u64, to_u64, eq_u64)
stack_history(odds, odd_t, to_odd, eq_odd)

static int order[64], released_n;
static void handler_a(void* p) { order[released_n++] = 1 + *(int*)p; }
static void handler_b(void* p) { order[released_n++] = 1001 + *(int*)p; }
static void record_free(void* p) { order[released_n++] = 1 + *(int*)p; }
#define LIMIT 30
/* every registered address is released once, the last first; the registers are independent */
static int registers(void) {
  int ids[64], n[4] = { 0 }, list[4][LIMIT], ops = (int)d_below(60), rounds = 0;
  for (int i = 0; i < 64; i++) ids[i] = i;
#define free record_free
  memreg_init(LIMIT);
  memreg_init_named(x, LIMIT);
  memreg2_init_named(y, LIMIT);
  memreg2_init_named(z, LIMIT);
#define release(k, expression) \
  released_n = 0; \
  expression; \
  CHECK(released_n == n[k], "%d addresses are released instead of %d", released_n, n[k]); \
  for (int i = 0; i < n[k]; i++) CHECK(order[i] == list[k][n[k] - 1 - i], "release %d is of %d instead of %d", i, order[i], list[k][n[k] - 1 - i]); \
  rounds += n[k] > 1; \
  n[k] = 0
#define release_any(k) \
  if (k == 0) { release(0, memreg_free); } \
  else if (k == 1) { release(1, memreg_free_named(x)); } \
  else if (k == 2) { release(2, memreg2_free_named(y)); } \
  else { release(3, memreg2_free_named(z)); }
  for (int o = 0; o < ops; o++) {
    int k = (int)d_below(4), id = (int)d_below(64), b = d_bool();
    if (d_chance(15)) { release_any(k) }
    else if (n[k] < LIMIT) {
      if (k == 0) { memreg_add(ids + id); }
      else if (k == 1) { memreg_add_named(x, ids + id); }
      else if (k == 2) { memreg2_add_named(y, ids + id, b ? handler_b : handler_a); }
      else { memreg2_add_named(z, ids + id, b ? handler_b : handler_a); }
      list[k][n[k]++] = 1 + id + (k > 1 && b ? 1000 : 0);
    }
  }
  for (int k = 0; k < 4; k++) { release_any(k) }
  for (int k = 0; k < 4; k++) { release_any(k) }
#undef free
  pbt_note("registers, %d operations", ops);
  return rounds > 1;
}
static void run(void) {
  int k = (int)d_below(4), good;
  pbt_label(k == 0 ? "bytes" : k == 1 ? "words" : k == 2 ? "structs" : "registers");
  if (k == 3) good = registers();
  else {
    int ops = (int)d_below(d_bool() ? 30 : 120);
    int local = d_chance(20);
    pbt_note("%sarray of %s, %d operations", local ? "local " : "", k == 0 ? "bytes" : k == 1 ? "words" : "structs", ops);
    if (local) {
      pbt_label("local arrays");
      good = k == 0 ? stack_bytes(ops) : k == 1 ? stack_words(ops) : stack_odds(ops);
    } else good = k == 0 ? history_bytes(ops) : k == 1 ? history_words(ops) : history_odds(ops);
  }
  if (good) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C35", .quick = 6000000, .thorough = 60000000, .setup = setup_sp, .run = run,
  .rule = "an array of at least two elements that was resized, a local array that held at least three, or at least two releases of several addresses" };
