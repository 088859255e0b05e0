/* recording events and a model of sequencing, used by C01 to C04, C08, C09 and C29 */
#include <pthread.h>
#include <sched.h>
#define REC_MEM 12

typedef struct rec {
  int id;
  sp_time_t start, end; /* absolute */
  sp_time_t win_start, win_end; /* absolute range in which it may be asked: own range cut by the groups around it */
  int channels; /* writes to channels 0..channels-1 */
  int has_prepare, has_free, mem_before, mem_prepare, mem_fixed, mem_fixed_prepare, mem_reserve, replaces, fail_prepare, fail_generate, prepare_mem_then_fail, delay;
  sp_time_t late_end; /* prepare sets the end */
  sp_time_t fail_at; /* relative */
  /* observed */
  volatile int prepared, freed, calls, running, failed;
  volatile int mem_freed[REC_MEM];
  int mem_n;
  /* expected in the current block */
  sp_time_t ask_from, ask_to; /* relative, empty if equal */
  sp_time_t asked; /* how far it has been asked */
  int may_prepare;
} rec_t;

static struct {
  int strict_size; /* sequential: the output area ends with the block */
  int parallel; /* errors may leave requests unasked */
  sp_time_t block_start, block_end;
  int active; /* in a call of sp_seq */
  volatile int any_failed;
  volatile int fail_ids[80];
  int lost; /* after an error nothing may be called */
} G;
static rec_t recs[80];
static int recs_n;

static double rec_value(int id, int ci, sp_time_t i) { return (double)(mix64(id * 7919ull + ci * 104729ull + i * 1299709ull) % 2001) - 1000; }

static void mem_handler(void* p) {
  volatile int* a = p;
  *a += 1;
  CHECK(*a == 1, "memory registered with an event was released %d times", *a);
}
static void mem_handler_b(void* p) {
  volatile int* a = p;
  *a += 1000;
  CHECK(*a == 1000, "memory registered with an event was released with the wrong handler or twice (%d)", *a);
}
static sp_memory_free_t mem_handler_of(int i) { return i % 3 == 2 ? mem_handler_b : mem_handler; }
static int rec_register(rec_t* r, sp_event_t* e, int n, int fixed) {
  if ((fixed || r->mem_reserve) && n) {
    status_t s = sp_event_memory_ensure(e, n + r->mem_reserve);
    if (s.id) return 1;
  }
  for (int i = 0; i < n; i++) {
    int k = r->mem_n;
    if (fixed) sp_event_memory_fixed_add_with_handler(e, (void*)(r->mem_freed + k), mem_handler_of(k));
    else {
      status_t s = sp_event_memory_add_with_handler(e, (void*)(r->mem_freed + k), mem_handler_of(k));
      if (s.id) return 1;
    }
    r->mem_n++;
  }
  return 0;
}
static void rec_spin(rec_t* r) {
  for (int i = 0; i < r->delay; i++) {
    if (i % 64 == 63) sched_yield();
    __asm__ volatile("" ::: "memory");
  }
}
static status_t rec_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e);
static status_t rec_unprepared(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  rec_t* r = e->config;
  pbt_fail("event %d: the generate function it had before prepare replaced it was called", r->id);
  status_return;
}
static status_t rec_prepare(sp_event_t* e) {
  status_declare;
  rec_t* r = e->config;
  CHECK(!G.lost, "event %d: prepared after an error", r->id);
  CHECK(r->prepared == 0, "event %d: prepare called again", r->id);
  CHECK(r->freed == 0, "event %d: prepare called after free", r->id);
  CHECK(r->calls == 0, "event %d: prepare called after generate", r->id);
  CHECK(r->may_prepare, "event %d (%u..%u): prepared although block %u..%u does not reach it", r->id, r->start, r->end, G.block_start, G.block_end);
  r->prepared += 1;
  rec_spin(r);
  if (r->late_end) e->end = r->late_end;
  if (r->replaces) e->generate = rec_generate;
  if (r->fail_prepare && !r->prepare_mem_then_fail) goto failed;
  if (rec_register(r, e, r->mem_prepare, r->mem_fixed_prepare)) {
    status_set_goto("rec", 901);
  }
  if (r->fail_prepare) {
  failed:
    r->failed = 1;
    __atomic_store_n(&G.any_failed, 1, __ATOMIC_RELAXED);
    status_set_goto("rec", 1000 + r->id);
  }
exit:
  status_return;
}
static void rec_free(sp_event_t* e) {
  rec_t* r = e->config;
  __atomic_fetch_add(&r->freed, 1, __ATOMIC_RELAXED);
  CHECK(r->freed == 1, "event %d: freed %d times", r->id, r->freed);
  CHECK(!r->running, "event %d: freed while it is generating", r->id);
  e->free = 0;
  sp_event_memory_free(e);
  /* there is nothing left to release */
  if (r->id & 1) sp_event_memory_free(e);
}
static status_t rec_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  rec_t* r = e->config;
  CHECK(!G.lost, "event %d: generate called after an error", r->id);
  CHECK(!r->freed, "event %d: generate called after free", r->id);
  CHECK(__atomic_fetch_add(&r->running, 1, __ATOMIC_RELAXED) == 0, "event %d: two generate calls at the same time", r->id);
  CHECK(r->prepared == r->has_prepare, "event %d: generate called before prepare", r->id);
  CHECK(start <= end && end <= r->end - r->start, "event %d of length %u: asked for %u..%u", r->id, r->end - r->start, start, end);
  if (start < end || r->ask_from < r->ask_to) {
    CHECK(start == r->asked && start >= r->ask_from && end <= r->ask_to, "event %d (%u..%u), block %u..%u: asked for %u..%u, expected %u..%u with %u done", r->id, r->start, r->end, G.block_start, G.block_end, start, end, r->ask_from, r->ask_to, r->asked);
    r->asked = end;
  }
  if (G.strict_size && start < end)
    CHECK(out.size == G.block_end - (r->start + start), "event %d (%u..%u), block %u..%u: output area has size %u, up to the end of the block are %u", r->id, r->start, r->end, G.block_start, G.block_end, out.size, G.block_end - (r->start + start));
  CHECK(out.size >= end - start, "event %d: output area of %u samples for a request of %u", r->id, out.size, end - start);
  CHECK(out.channel_count >= r->channels, "event %d: output has %d channels instead of %d", r->id, out.channel_count, r->channels);
  r->calls += 1;
  rec_spin(r);
  if (r->fail_generate && r->fail_at >= start && r->fail_at < end) {
    r->failed = 1;
    __atomic_store_n(&G.any_failed, 1, __ATOMIC_RELAXED);
    __atomic_fetch_sub(&r->running, 1, __ATOMIC_RELAXED);
    status_set_goto("rec", 1000 + r->id);
  }
  for (int ci = 0; ci < r->channels; ci++)
    for (sp_time_t i = start; i < end; i++) out.samples[ci][i - start] += rec_value(r->id, ci, i);
  __atomic_fetch_sub(&r->running, 1, __ATOMIC_RELAXED);
exit:
  status_return;
}
static rec_t* rec_new(sp_time_t start, sp_time_t end, int channels) {
  rec_t* r = recs + recs_n;
  memset(r, 0, sizeof(*r));
  r->id = recs_n++;
  r->start = start;
  r->end = end;
  r->win_start = start;
  r->win_end = end;
  r->channels = channels;
  return r;
}
/* draw optional features */
static void rec_draw(rec_t* r, int with_memory) {
  r->has_prepare = d_bool();
  r->has_free = d_bool();
  if (with_memory) {
    int k = d_below(4);
    if (k == 1) r->mem_before = 1 + d_below(6);
    if (k == 2 && r->has_prepare) r->mem_prepare = 1 + d_below(6);
    if (k == 3) {
      r->mem_before = 1 + d_below(5);
      if (r->has_prepare) r->mem_prepare = 1 + d_below(6);
    }
    r->mem_fixed = d_bool();
    r->mem_fixed_prepare = d_bool();
    if (d_chance(15)) r->mem_reserve = 1 + d_below(3);
  }
  if (r->has_prepare && d_chance(20)) r->replaces = 1;
}
static sp_event_t rec_event(rec_t* r) {
  sp_declare_event(e);
  e.start = r->start;
  e.end = r->end;
  e.generate = r->replaces ? rec_unprepared : rec_generate;
  e.config = r;
  if (r->has_prepare) e.prepare = rec_prepare;
  if (r->has_free) e.free = rec_free;
  if (r->mem_before) CHECK(!rec_register(r, &e, r->mem_before, r->mem_fixed), "registering memory failed");
  return e;
}
/* all times of a case are offset by this */
static sp_time_t d_late(void) {
  if (!d_chance(10)) return 0;
  pbt_label("times far from zero");
  switch (d_below(4)) {
    case 0: return 65000 + d_below(1100);
    case 1: return 16777000 + d_below(1000);
    case 2: return 2147483000u + d_below(1500);
    default: return d_below(4200000000u);
  }
}
/* how long before time s an event begins that is to be rendered from base on */
static sp_time_t d_ago(sp_time_t base, sp_time_t s) {
  if (!base || !d_chance(40)) return 0;
  pbt_label("begins long before it is rendered");
  return d_bool() ? base : d_below(s + 1);
}
static void seq_begin(void) {
  memset(&G, 0, sizeof(G));
  recs_n = 0;
}
/* call before each block */
static void seq_expect(sp_time_t start, sp_time_t end) {
  G.block_start = start;
  G.block_end = end;
  for (int i = 0; i < recs_n; i++) {
    rec_t* r = recs + i;
    sp_time_t a = r->win_start > start ? r->win_start : start, b = r->win_end < end ? r->win_end : end;
    if (a < b) {
      r->ask_from = a - r->start;
      r->ask_to = b - r->start;
    } else r->ask_from = r->ask_to = 0;
    r->asked = r->ask_from;
    r->may_prepare = start < r->win_end && r->win_start < end;
  }
}
/* after a successful block */
static void seq_check_asked(void) {
  for (int i = 0; i < recs_n; i++) {
    rec_t* r = recs + i;
    CHECK(r->asked == r->ask_to, "event %d (%u..%u), block %u..%u: asked up to %u instead of %u", r->id, r->start, r->end, G.block_start, G.block_end, r->asked, r->ask_to);
  }
}
static void seq_check_out(sp_block_t out, sp_sample_t** before) {
  for (int ci = 0; ci < out.channel_count; ci++)
    for (sp_time_t t = G.block_start; t < G.block_end; t++) {
      double e = before[ci][t - G.block_start];
      for (int i = 0; i < recs_n; i++) {
        rec_t* r = recs + i;
        if (ci < r->channels && t >= r->win_start && t < r->win_end) e += rec_value(r->id, ci, t - r->start);
      }
      CHECK(out.samples[ci][t - G.block_start] == e, "block %u..%u channel %d: sample at %u is %.17g instead of %.17g", G.block_start, G.block_end, ci, t, out.samples[ci][t - G.block_start], e);
    }
}
static void seq_check_released(void) {
  for (int i = 0; i < recs_n; i++) {
    rec_t* r = recs + i;
    if (r->has_free) CHECK(r->freed == 1, "event %d (%u..%u): free was called %d times", r->id, r->start, r->end, r->freed);
    for (int k = 0; k < r->mem_n; k++) {
      int want = k % 3 == 2 ? 1000 : 1;
      CHECK(r->mem_freed[k] == want, "event %d: memory %d of %d registered with it was not released", r->id, k, r->mem_n);
    }
  }
}
static sp_block_t block_filled(int channels, sp_time_t size, sp_sample_t** before) {
  sp_block_t b = buf_block(channels, size);
  u64 seed = d_below(5);
  for (int ci = 0; ci < channels; ci++) {
    before[ci] = new_samples(size);
    for (sp_time_t i = 0; i < size; i++) before[ci][i] = b.samples[ci][i] = seed ? (double)(mix64(seed * 99991 + ci * 31 + i) % 201) - 100 : 0;
  }
  return b;
}
static void list_check(sp_event_list_t* a, int n) {
  sp_event_list_t* prev = 0;
  int k = 0;
  while (a) {
    CHECK(k < n + 1, "the list has a cycle or too many elements");
    CHECK(a->previous == prev, "backward link of element %d is wrong", k);
    prev = a;
    a = a->next;
    k++;
  }
  CHECK(k == n, "the list has %d elements instead of %d", k, n);
}
