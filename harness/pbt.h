/* Small property-based testing engine for C.
   A property draws integers from a "tape" of choices. Random search fills the tape from a PRNG,
   shrinking edits the tape, replay feeds a stored tape, libFuzzer feeds bytes. */
#ifndef PBT_H
#define PBT_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <float.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

typedef struct {
  const char* id;
  u64 quick;    /* number of generated cases, quick tier */
  u64 thorough; /* thorough tier */
  const char* rule; /* when a case counts as non-trivial */
  void (*setup)(void); /* once per worker process */
  void (*run)(void); /* one case */
  int nondeterministic; /* schedules matter: a failure need not replay every time */
  double hang_seconds; /* wall limit for one case, 0: default */
  int workers; /* 0: default */
} pbt_meta;

/* ---- provided to properties ---- */
u64 d_below(u64 n); /* 0..n-1, shrinks towards 0 */
static inline i64 d_range(i64 lo, i64 hi) { return lo + (i64)d_below((u64)(hi - lo) + 1); }
static inline int d_bool(void) { return (int)d_below(2); }
static inline int d_rare(u64 n) { return d_below(n) == n * 2 / 3; } /* about one of n cases; the ends are drawn more often than that */
static inline int d_chance(int percent) { return d_below(100) >= (u64)(100 - percent); }
void pbt_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void pbt_note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); /* describes the case: shown with failures and samples */
void pbt_label(const char* name); /* counts a kind of case */
void pbt_nontrivial(void);
void pbt_known(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void pbt_discard(void) __attribute__((noreturn)); /* the drawn case is outside the domain */
int tape_mode_is_search(void); /* not a replay or shrinking step */
int W_index(void); /* number of this worker process */
const char* pbt_scratch(void); /* private directory of this process */
#define CHECK(cond, ...) do { if (!(cond)) pbt_fail(__VA_ARGS__); } while (0)
#endif
