/* parallel rendering equals the model of sequential rendering, for any number of workers and any schedule */
#include "seq.h"
#include "tree.h"
#include <sph-sp/queue.h>
#include <sph-sp/thread-pool.h>
#include <sph-sp/futures.h>
static int workers;
extern sph_thread_pool_t sph_futures_pool;

/* known finding: a parallel group in a parallel list with a single worker waits for itself */
static rec_t nested_rec;
static status_t nested_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  nested_rec.calls = 1;
  status_return;
}
static volatile int nested_returned;
static void* nested_thread(void* x) {
  sp_event_list_t** list = x;
  static sp_sample_t samples[4];
  sp_block_t out = { .channel_count = 1, .size = 4, .samples = { samples } };
  CHECK_OK(sp_seq_parallel(0, 4, out, list), "sp_seq_parallel of a nested parallel group");
  nested_returned = 1;
  return 0;
}
static void nested_finding(void) {
  sp_event_list_t* list = 0;
  sp_event_t g = sp_null_event, e = sp_null_event;
  sp_event_t* gp = &g;
  pthread_t th;
  e.end = 4;
  e.generate = nested_generate;
  sp_group_parallel_event(gp);
  if (sp_group_add(gp, e).id || sp_event_list_add(&list, g).id) _exit(3);
  pthread_create(&th, 0, nested_thread, &list);
  for (int i = 0; i < 200 && !nested_returned; i++) usleep(10000);
  if (!nested_returned) {
    /* nothing happens any more: run the waiting task here, so that the worker can go on */
    pthread_mutex_lock(&sph_futures_pool.queue_mutex);
    sph_thread_pool_task_t* task = 0;
    if (sph_futures_pool.queue.size) task = sph_queue_get(sph_queue_deq(&sph_futures_pool.queue), sph_thread_pool_task_t, q);
    pthread_mutex_unlock(&sph_futures_pool.queue_mutex);
    if (task) {
      task->f(task);
      pbt_known("nested-parallel-deadlock", "with one worker, sp_seq_parallel of a list that holds a parallel group with one event never returns: the worker that renders the group waits for an event that no worker is free to render");
    }
  }
  pthread_join(th, 0);
  sp_event_list_free(&list);
}
static void setup(void) {
  workers = 1;
  status_t s = sp_initialize(1, 2, TEST_RATE);
  if (s.id) _exit(3);
#ifndef PBT_TSAN /* helps the library with its own means */
  if (tape_mode_is_search() && W_index() == 0) nested_finding();
#endif
}
static void set_workers(int n) {
  if (n == workers) return;
  sph_future_deinit();
  CHECK(sph_future_init(n) == 0, "sph_future_init(%d) failed", n);
  workers = n;
}
/* more events in one block than fit small counters */
enum { MANY = 1100 };
static struct { sp_time_t start, end; volatile int asked, freed, prepared, fails; } crowd[MANY];
static status_t crowd_prepare(sp_event_t* e) {
  status_declare;
  crowd[(size_t)e->config].prepared += 1;
  status_return;
}
static status_t crowd_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  size_t i = (size_t)e->config;
  __atomic_fetch_add(&crowd[i].asked, (int)(end - start), __ATOMIC_RELAXED);
  if (crowd[i].fails) {
    status.id = 77;
    status_return;
  }
  for (sp_time_t k = start; k < end; k++) out.samples[0][k - start] += (double)(i + 1) * (double)(k + 1);
  status_return;
}
static void crowd_free(sp_event_t* e) { crowd[(size_t)e->config].freed += 1; }
static void crowd_case(void) {
  sp_event_list_t* list = 0;
  int n = (int)d_mid();
  sp_time_t length = 4 + d_below(30), t = 0;
  int failing = d_chance(20) ? (int)d_below(n) : -1;
  static double want[64];
  memset(want, 0, sizeof want);
  pbt_note("%d worker(s), %d events of up to %u samples%s", workers, n, length, failing < 0 ? "" : ", one fails");
  pbt_label("hundreds of events");
  pbt_nontrivial();
  mem_reset();
  u64 q = d_below(1u << 30);
  for (int i = 0; i < n; i++) {
    sp_event_t e = sp_null_event;
    memset(crowd + i, 0, sizeof crowd[i]);
    crowd[i].start = mix64(q + i) % 3 ? 0 : (sp_time_t)(mix64(q + 3 * i) % length);
    crowd[i].end = crowd[i].start + 1 + (sp_time_t)(mix64(q + 7 * i) % (length - crowd[i].start));
    crowd[i].fails = i == failing;
    e.start = crowd[i].start;
    e.end = crowd[i].end;
    e.prepare = crowd_prepare;
    e.generate = crowd_generate;
    e.free = crowd_free;
    e.config = (void*)(size_t)i;
    for (sp_time_t k = 0; k < crowd[i].end - crowd[i].start; k++) want[crowd[i].start + k] += (double)(i + 1) * (double)(k + 1);
    CHECK_OK(sp_event_list_add(&list, e), "sp_event_list_add");
  }
  sp_seq_events_prepare(&list);
  while (t <= length) {
    sp_time_t size = d_bool() ? length + 1 - t : 1 + (sp_time_t)d_below(length + 1 - t);
    sp_block_t out = { .channel_count = 1, .size = size, .samples = { zero_samples(size) } };
    int reached = failing >= 0 && crowd[failing].start < t + size;
    pbt_note(" %u", size);
    status_t s = sp_seq_parallel(t, t + size, out, &list);
    if (reached) {
      CHECK(s.id == 77, "event %d failed with status 77, sp_seq_parallel returned %d", failing, s.id);
      CHECK(!list, "the list is not empty after an error");
      break;
    }
    CHECK_OK(s, "sp_seq_parallel");
    for (sp_time_t k = 0; k < size; k++) CHECK(out.samples[0][k] == want[t + k], "sample %u is %.17g instead of %.17g", t + k, out.samples[0][k], want[t + k]);
    t += size;
  }
  for (int i = 0; i < n; i++) {
    int reached = failing < 0;
    if (reached) CHECK(crowd[i].asked == (int)(crowd[i].end - crowd[i].start), "event %d of %u samples was asked for %d", i, crowd[i].end - crowd[i].start, crowd[i].asked);
    CHECK(crowd[i].prepared <= 1 && (!reached || crowd[i].prepared), "event %d was prepared %d times", i, crowd[i].prepared);
  }
  sp_event_list_free(&list);
  for (int i = 0; i < n; i++) CHECK(crowd[i].freed <= 1 && crowd[i].freed >= crowd[i].prepared, "event %d was freed %d times", i, crowd[i].freed);
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
}
/* the events of the library itself: they must not share anything while several workers prepare and generate them */
enum { WAVE, NOISE, MAP, GROUP, PARALLEL };
typedef struct lib {
  int kind, fmod, pmod, channels, n;
  sp_time_t start, duration, frq;
  double amp;
  struct lib* child[3];
} lib_t;
enum { LIB_LONGEST = 240 };
static lib_t libs[40];
static int libs_n, lib_noise, lib_parallel;
static sp_sample_t lib_table[64], lib_gain[40];
static sp_sample_t* lib_amod;
static sp_time_t *lib_fmod, *lib_pmod;
static lib_t* lib_draw(int depth, int allow_parallel, int allow_noise) {
  lib_t* a = libs + libs_n++;
  memset(a, 0, sizeof *a);
  /* a worker that renders a group waits for others: fewer of these than workers */
  a->kind = depth ? d_below(lib_parallel < allow_parallel ? 5 : 4) : d_below(2);
  if (a->kind == NOISE && !allow_noise) a->kind = WAVE;
  if (a->kind == NOISE) lib_noise++;
  if (a->kind == PARALLEL) lib_parallel++;
  a->start = d_below(40);
  a->duration = 1 + d_below(d_bool() ? 40 : 150);
  a->frq = 1 + d_below(90);
  a->amp = (double)(1 + d_below(16)) / 16;
  a->fmod = d_bool();
  a->pmod = d_chance(30);
  a->channels = 1 + d_below(2);
  static const char* names[] = { "wave", "noise", "map", "group", "parallel group" };
  pbt_note(" %s at %u", names[a->kind], a->start);
  if (a->kind < MAP) pbt_note(" of %u", a->duration);
  else {
    int n = a->kind == MAP ? 1 : 1 + d_below(3);
    sp_time_t end = 0;
    pbt_note(" (");
    for (int i = 0; i < n && libs_n < 36; i++) {
      a->child[a->n++] = lib_draw(depth - 1, allow_parallel, allow_noise && lib_noise == 0);
      if (a->kind == MAP) a->child[0]->start = 0;
      sp_time_t e = a->child[i]->start + a->child[i]->duration;
      if (e > end) end = e;
    }
    pbt_note(")");
    a->duration = end ? end : 1;
  }
  return a;
}
static status_t lib_map(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* state) {
  status_declare;
  for (int ci = 0; ci < 2; ci++)
    for (sp_time_t i = 0; i < end - start; i++) out.samples[ci][i] += *(sp_sample_t*)state * in.samples[ci][i];
  status_return;
}
/* sequential: groups that would be rendered in parallel are ordinary groups */
static sp_event_t lib_event(lib_t* a, int sequential) {
  sp_event_t e = sp_null_event;
  sp_event_t* ep = &e;
  e.start = a->start;
  e.end = a->start + a->duration;
  if (a->kind == WAVE) {
    sp_wave_event_config_t* w = new_array(sp_wave_event_config_t, 1);
    *w = sp_wave_event_config_defaults();
    w->wvf = lib_table;
    w->wvf_size = 64;
    w->channel_config->amod = lib_amod;
    w->channel_config->amp = a->amp;
    w->channel_config->frq = a->frq;
    if (a->fmod) w->channel_config->fmod = lib_fmod;
    if (a->pmod) w->channel_config->pmod = lib_pmod;
    w->channel_count = 2;
    if (a->channels == 2) {
      w->channel_config[1].use = 1;
      w->channel_config[1].amp = a->amp / 2;
      w->channel_config[1].frq = a->frq + 3;
    }
    sp_wave_event(ep, w);
  } else if (a->kind == NOISE) {
    sp_noise_event_config_t* w = new_array(sp_noise_event_config_t, 1);
    *w = sp_noise_event_config_defaults();
    w->channel_config->amod = lib_amod;
    w->channel_config->amp = a->amp;
    w->channel_config->frq = sp_rate / 10;
    w->channel_config->wdt = sp_rate / 5;
    w->channel_count = 2;
    sp_noise_event(ep, w);
  } else if (a->kind == MAP) {
    sp_map_event_config_t* m = new_array(sp_map_event_config_t, 1);
    memset(m, 0, sizeof *m);
    m->map_generate = lib_map;
    m->config = lib_gain + (a - libs);
    m->isolate = 1;
    m->event = lib_event(a->child[0], sequential);
    lib_gain[a - libs] = a->amp;
    sp_map_event(ep, m);
  } else {
    e.end = a->start;
    if (a->kind == PARALLEL && !sequential) { sp_group_parallel_event(ep); } else { sp_group_event(ep); }
    for (int i = 0; i < a->n; i++) CHECK_OK(sp_group_add(ep, lib_event(a->child[i], sequential)), "sp_group_add");
    e.end = a->start + a->duration;
  }
  return e;
}
static void lib_render(lib_t** top, int n, sp_time_t stop, sp_block_t out, int sequential, u64 seed) {
  sp_event_list_t* list = 0;
  sp_random_state = sp_random_state_new(seed);
  for (int i = 0; i < n; i++) CHECK_OK(sp_event_list_add(&list, lib_event(top[i], sequential)), "sp_event_list_add");
  sp_seq_events_prepare(&list);
  sp_time_t t = 0;
  while (t < stop) {
    sp_time_t size = sequential || d_bool() ? stop - t : 1 + d_below(stop - t);
    sp_block_t part = out;
    part.size = size;
    for (int ci = 0; ci < 2; ci++) part.samples[ci] = out.samples[ci] + t;
    status_t s;
    if (sequential) s = sp_seq(t, t + size, part, &list);
    else {
      pbt_note(" %u", size);
      s = sp_seq_parallel(t, t + size, part, &list);
    }
    CHECK_OK(s, sequential ? "sp_seq" : "sp_seq_parallel");
    t += size;
  }
  sp_event_list_free(&list);
}
static void lib_case(void) {
  lib_t* top[8];
  sp_time_t stop = 0;
  int n = 2 + d_below(5), only_noise = d_chance(15), used[8] = { 0 };
  u64 seed = d_below(1000);
  libs_n = lib_noise = lib_parallel = 0;
  mem_reset();
  pbt_note("%d worker(s), own events:", workers);
  for (int i = 0; i < n; i++) {
    if (only_noise) {
      /* the same noise one after the other */
      top[i] = libs + libs_n++;
      *top[i] = (lib_t){ .kind = NOISE, .duration = i ? top[0]->duration : 8 + d_below(60), .amp = 1, .channels = 1 };
      top[i]->start = i * top[i]->duration;
      if (!i) pbt_note(" %d noises of %u", n, top[i]->duration);
    } else top[i] = lib_draw(d_below(3), workers - 1 < 2 ? workers - 1 : 2, lib_noise == 0);
    if (top[i]->start + top[i]->duration > stop) stop = top[i]->start + top[i]->duration;
  }
  lib_amod = new_samples(1000);
  lib_fmod = new_array(sp_time_t, 1000);
  lib_pmod = new_array(sp_time_t, 1000);
  for (int i = 0; i < 64; i++) lib_table[i] = (double)((i * 37) % 64) / 32 - 1;
  for (int i = 0; i < 1000; i++) {
    lib_amod[i] = only_noise ? 1 : (double)((i * 7) % 16) / 16;
    lib_fmod[i] = i % 5;
    lib_pmod[i] = i % 11;
  }
  pbt_note(" rendered in");
  sp_block_t a = { .channel_count = 2, .size = stop, .samples = { zero_samples(stop), zero_samples(stop) } };
  sp_block_t b = { .channel_count = 2, .size = stop, .samples = { zero_samples(stop), zero_samples(stop) } };
  lib_render(top, n, stop, a, 1, seed);
  lib_render(top, n, stop, b, 0, seed);
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  if (only_noise) {
    /* which event gets which random numbers depends on the schedule */
    sp_time_t size = top[0]->duration;
    for (int i = 0; i < n; i++) {
      int k;
      for (k = 0; k < n; k++) {
        if (used[k]) continue;
        sp_time_t j = 0;
        while (j < 2 * size && near_rel(b.samples[j & 1][i * size + j / 2], a.samples[j & 1][k * size + j / 2], 1e-9, 1e-9)) j++;
        if (j == 2 * size) break;
      }
      CHECK(k < n, "noise %d rendered in parallel is not one of those rendered sequentially with the same random state", i);
      used[k] = 1;
    }
    pbt_label("several noise events");
  } else {
    for (int ci = 0; ci < 2; ci++)
      for (sp_time_t i = 0; i < stop; i++)
        CHECK(near_rel(b.samples[ci][i], a.samples[ci][i], 1e-9, 1e-9), "channel %d: sample %u of the library's events is %.17g in parallel and %.17g sequentially", ci, i, b.samples[ci][i], a.samples[ci][i]);
    pbt_label("wave, noise and map events");
  }
  if (lib_parallel) pbt_label("parallel groups");
  if (workers > 1) {
    pbt_label("two or more workers");
    pbt_nontrivial();
  }
}
static void run(void) {
  if (d_chance(6)) {
    static const int choice[] = { 2, 3, 4, 8 };
    set_workers(d_chance(10) ? choice[d_below(4)] : workers);
    lib_case();
    return;
  }
  if (d_rare(400)) {
    static const int choice[] = { 1, 2, 3, 4, 8 };
    set_workers(d_chance(30) ? choice[d_below(5)] : workers);
    crowd_case();
    return;
  }
  seq_begin();
  tree_begin();
  tree_long = d_rare(600);
  if (tree_long) pbt_label("long");
  G.parallel = 1;
  int channels = 1 + d_below(sp_channel_count_limit);
  int memory = d_bool(), delays = d_chance(70);
  static const int choice[] = { 1, 2, 3, 4, 8 };
  int w = d_chance(4) ? choice[d_below(5)] : workers;
  /* the worker count of the process is kept most of the time: it is expensive to change. a replay starts with one */
  set_workers(w);
  mem_reset();
  sp_event_list_t* list = 0;
  node_t* top[16];
  int n = d_below(12), fails = d_chance(40), failing = 0;
  int allow_parallel = workers - 1 < 2 ? workers - 1 : 2;
  sp_time_t last = 0, base = d_late();
  tree_draw_ago(base);
  pbt_note("%d worker(s), %d channel(s):", workers, channels);
  for (int i = 0; i < n && nodes_n < 50; i++) {
    top[i] = d_chance(20) ? tree_group(channels, 1, memory, delays, allow_parallel) : tree_leaf(channels, memory, delays);
    if (top[i]->end || top[i]->n == 0) {
      top[i]->start += base;
      top[i]->end += base;
      top[i]->event.start += base;
      top[i]->event.end += base;
    }
    pbt_note(" %u..%u;", top[i]->start, top[i]->end);
    CHECK_OK(sp_event_list_add(&list, top[i]->event), "sp_event_list_add");
    tree_place(top[i], 0, 0, UINT32_MAX, 0);
    if (top[i]->end > last) last = top[i]->end;
  }
  for (int i = 0; fails && i < recs_n; i++) {
    rec_t* r = recs + i;
    if (!r->channels || !d_chance(20)) continue;
    if (r->has_prepare && !r->prepared && d_bool()) {
      r->fail_prepare = 1;
      r->prepare_mem_then_fail = d_bool();
    } else if (r->end > r->start) {
      r->fail_generate = 1;
      sp_time_t len = r->end - r->start;
      r->fail_at = tree_ago && len > 60 ? len - 1 - d_below(60) : d_below(len);
    }
    failing++;
    pbt_note(" event %d fails%s", i, r->fail_prepare ? " in prepare" : "");
  }
  sp_seq_events_prepare(&list);
  sp_time_t t = base + tree_ago + (d_chance(70) ? 0 : d_below(20)), stop = last + 1 + d_below(3);
  int blocks = 0, style = d_below(3), concurrent = 0, failed = 0, no_memory = d_chance(8), out_of_memory = 0;
  mem_failed = 0;
  pbt_note(" blocks from %u:", t);
  while (t < stop && blocks < 12) {
    sp_time_t size = style == 0 ? 4 + d_below(8) : style == 1 ? stop - t : 1 + d_below(40);
    if (tree_long && style != 1) size = 1 + d_below(stop - t);
    sp_sample_t* before[sp_channel_count_limit];
    sp_block_t out = block_filled(channels, size, before);
    pbt_note(" %u", size);
    seq_expect(t, t + size);
    int active = 0;
    for (int i = 0; i < recs_n; i++) active += recs[i].ask_from < recs[i].ask_to;
    if (active > 1) concurrent = 1;
    if (no_memory && d_chance(40)) {
      long k = 1 + (long)d_below(2 * n + 3);
      pbt_note(" allocation %ld fails", k);
      mem_failed = 0;
      __atomic_store_n(&mem_fail_at, k, __ATOMIC_RELAXED);
    }
    status_t s = sp_seq_parallel(t, t + size, out, &list);
    __atomic_store_n(&mem_fail_at, 0, __ATOMIC_RELAXED);
    if (mem_failed) out_of_memory = 1;
    for (int i = 0; i < recs_n; i++) CHECK(!recs[i].running, "event %d is still running when sp_seq_parallel returns", i);
    if (s.id) {
      if (mem_failed) pbt_note(" error %d", s.id);
      else CHECK(!strcmp((char*)s.group, "rec") && s.id >= 1000 && s.id < 1000 + recs_n && recs[s.id - 1000].failed, "sp_seq_parallel returned status %d of group '%s', not that of a failing event", s.id, (char*)s.group);
      G.lost = 1;
      failed = 1;
      CHECK(!list, "the list is not empty after an error");
      seq_check_released();
      CHECK(mem_live == 0, "%ld allocations remain after an error", mem_live);
      if (delays) usleep(300);
      break;
    }
    CHECK(!G.any_failed, "an event failed but sp_seq_parallel returned success");
    seq_check_asked();
    seq_check_out(out, before);
    t += size;
    blocks++;
  }
  sp_event_list_free(&list);
  seq_check_released();
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  if (failed && !out_of_memory) pbt_label("an event failed");
  if (out_of_memory) pbt_label("an allocation failed");
  if (concurrent) pbt_label("several events active in a block");
  if (tree_parallel) pbt_label("parallel groups");
  if (workers > 1) pbt_label("two or more workers");
  if (concurrent && (workers > 1 || failed)) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C03", .quick = 40000, .thorough = 500000, .setup = setup, .run = run, .nondeterministic = 1,
  .rule = "several events active in one block, and more than one worker or a failing event" };
