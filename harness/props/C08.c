/* map events */
#include "seq.h"
typedef struct map_node {
  int id, isolate;
  struct map_node* inner; /* or */
  rec_t* rec;
  int mul, add, wave; /* the user function, integer arithmetic */
  int fail;
  sp_time_t fail_at;
  volatile int failed, calls;
  sp_map_event_config_t* config;
  /* expectation */
  sp_time_t ask_from, ask_to, asked;
} map_node;
static map_node maps[24];
static int maps_n;
static double* model_in[sp_channel_count_limit]; /* what the wrapped event produced, for the outermost isolated map that is checked */

static double map_value(map_node* m, double x, sp_time_t i) { return m->mul * x + m->add + (m->wave ? (double)(i % m->wave) : 0); }
static status_t map_f(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* config) {
  status_declare;
  map_node* m = config;
  CHECK(start < end && start == m->asked && end <= m->ask_to, "map %d: called for %u..%u, expected %u..%u", m->id, start, end, m->asked, m->ask_to);
  m->asked = end;
  m->calls++;
  CHECK(in.channel_count == out.channel_count, "map %d: %d input channels and %d output channels", m->id, in.channel_count, out.channel_count);
  CHECK(in.size >= end - start && out.size >= end - start, "map %d: blocks of %u and %u samples for a request of %u", m->id, in.size, out.size, end - start);
  for (int ci = 0; ci < in.channel_count; ci++) {
    if (m->isolate) {
      CHECK(in.samples[ci] != out.samples[ci], "map %d: an isolated map got its output as input", m->id);
      for (sp_time_t k = end - start; k < in.size; k++) CHECK(in.samples[ci][k] == 0, "map %d: input sample %u beyond the request is not zero", m->id, k);
      if (m->rec)
        for (sp_time_t k = start; k < end; k++) {
          double e = ci < m->rec->channels ? rec_value(m->rec->id, ci, k) : 0;
          CHECK(in.samples[ci][k - start] == e, "map %d: input sample %u of channel %d is %.17g, the wrapped event produced %.17g", m->id, k, ci, in.samples[ci][k - start], e);
        }
    } else CHECK(in.samples[ci] == out.samples[ci], "map %d: a map that is not isolated did not get the output as input", m->id);
  }
  if (m->fail && m->fail_at >= start && m->fail_at < end) {
    m->failed = 1;
    status_set_goto("map", 2000 + m->id);
  }
  for (int ci = 0; ci < in.channel_count; ci++)
    for (sp_time_t k = start; k < end; k++) {
      double v = map_value(m, in.samples[ci][k - start], k);
      if (m->isolate) out.samples[ci][k - start] += v;
      else out.samples[ci][k - start] = v;
    }
exit:
  status_return;
}
/* the model: what a request does to a buffer */
static void model(map_node* m, sp_time_t start, sp_time_t end, double** out, int channels) {
  double* in[sp_channel_count_limit];
  for (int ci = 0; ci < channels; ci++) in[ci] = m->isolate ? zero_samples(end - start) : out[ci];
  if (m->inner) model(m->inner, start, end, in, channels);
  else
    for (int ci = 0; ci < m->rec->channels; ci++)
      for (sp_time_t k = start; k < end; k++) in[ci][k - start] += rec_value(m->rec->id, ci, k);
  for (int ci = 0; ci < channels; ci++)
    for (sp_time_t k = start; k < end; k++) {
      double v = map_value(m, in[ci][k - start], k);
      out[ci][k - start] = m->isolate ? out[ci][k - start] + v : v;
    }
}
static sp_event_t map_event(map_node* m, sp_time_t start, sp_time_t end) {
  sp_map_event_config_t* c;
  sp_event_t e = sp_null_event;
  sp_event_t* ep = &e;
  if (d_chance(80)) CHECK_OK(sp_map_event_config_new(&c), "sp_map_event_config_new");
  else {
    /* several configurations at once */
    int count = 1 + d_below(4);
    CHECK_OK(sp_map_event_config_new_n(count, &c), "sp_map_event_config_new_n");
    for (int i = 0; i < count; i++) {
      CHECK(!c[i].event.start && !c[i].event.end && !c[i].event.prepare && !c[i].event.free && !c[i].event.memory.data && !c[i].isolate && !c[i].config, "a new configuration is not empty");
      memset(c + i, 0, sizeof *c);
    }
  }
  if (m->inner) c->event = map_event(m->inner, start, end);
  else c->event = rec_event(m->rec);
  c->isolate = m->isolate;
  c->map_generate = map_f;
  c->config = m;
  m->config = c;
  e.start = start;
  e.end = end;
  if (d_bool()) {
    sp_map_event(ep, c);
    CHECK_OK(sp_event_memory_add_with_handler(ep, c, t_free), "sp_event_memory_add");
  } else {
    CHECK_OK(sp_event_memory_add_with_handler(ep, c, t_free), "sp_event_memory_add");
    sp_map_event(ep, c);
  }
  return e;
}
static void run(void) {
  seq_begin();
  maps_n = 0;
  int channels = 1 + d_below(sp_channel_count_limit);
  map_node* top[3];
  int n = 1 + d_below(3), wide = d_rare(5000), fails = d_chance(30), depth_max = 0, isolated = 0;
  sp_event_list_t* list = 0;
  sp_time_t last = 0, base = d_late();
  if (wide) pbt_label("long"); /* times and lengths above 16 bits */
  pbt_note("%d channel(s):", channels);
  for (int i = 0; i < n; i++) {
    sp_time_t s = base + d_below(wide ? 70000 : 40), len = 1 + d_below(wide ? 100000 : 40);
    sp_time_t ago = d_ago(base, s);
    s -= ago;
    len += ago;
    int depth = 1 + d_below(3);
    if (depth > depth_max) depth_max = depth;
    map_node* m = 0;
    rec_t* r = rec_new(s, s + len, 1 + d_below(channels));
    rec_draw(r, 1);
    if (fails && d_chance(25)) {
      if (r->has_prepare && d_bool()) {
        r->fail_prepare = 1;
        r->prepare_mem_then_fail = d_bool();
      } else {
        r->fail_generate = 1;
        r->fail_at = ago + d_below(len - ago);
      }
      pbt_note(" event %d fails%s", r->id, r->fail_prepare ? " in prepare" : "");
    }
    for (int k = 0; k < depth; k++) {
      map_node* o = maps + maps_n;
      memset(o, 0, sizeof(*o));
      o->id = maps_n++;
      /* only one event at a time can transform the common output */
      o->isolate = (n > 1 && k == depth - 1) ? 1 : d_bool();
      isolated |= o->isolate;
      o->inner = m;
      o->rec = m ? 0 : r;
      o->mul = d_range(-2, 3);
      o->add = d_range(-3, 3);
      o->wave = d_below(6);
      if (fails && d_chance(15)) {
        o->fail = 1;
        o->fail_at = ago + d_below(len - ago);
      }
      pbt_note("%s%s%s", k ? " -> " : " ", o->isolate ? "isolated" : "map", o->fail ? " FAILS" : "");
      m = o;
    }
    top[i] = m;
    pbt_note(" at %u..%u;", s, s + len);
    if (s + len > last) last = s + len;
    CHECK_OK(sp_event_list_add(&list, map_event(m, s, s + len)), "sp_event_list_add");
  }
  sp_seq_events_prepare(&list);
  sp_time_t t = base + (d_chance(70) ? 0 : d_below(30)), stop = last + 1;
  int blocks = 0, failed = 0, style = d_below(3), cross = 0, stop_early = d_chance(15);
  pbt_note(" blocks from %u:", t);
  while (t < stop && blocks < 50) {
    if (stop_early && d_chance(20)) break;
    sp_time_t size = style == 0 ? 1 + d_below(8) : style == 1 ? stop - t : 1 + d_below(40);
    if (wide && style != 1) size = 1 + d_below(stop - t);
    sp_sample_t* before[sp_channel_count_limit];
    sp_block_t out = block_filled(channels, size, before);
    pbt_note(" %u", size);
    seq_expect(t, t + size);
    for (int i = 0; i < n; i++) {
      map_node* m = top[i];
      map_node* b = m;
      while (b->inner) b = b->inner;
      rec_t* r = b->rec;
      if (r->ask_from < r->ask_to && (r->ask_from || r->ask_to < r->end - r->start || r->start > t)) cross = 1;
      for (; m; m = m->inner) {
        m->ask_from = m->asked = r->ask_from;
        m->ask_to = r->ask_to;
      }
      if (r->ask_from < r->ask_to) {
        double* part[sp_channel_count_limit];
        sp_time_t off = r->start > t ? r->start - t : 0;
        for (int ci = 0; ci < channels; ci++) part[ci] = before[ci] + off;
        model(top[i], r->ask_from, r->ask_to, part, channels);
      }
    }
    status_t s = sp_seq(t, t + size, out, &list);
    if (s.id) {
      failed = 1;
      G.lost = 1;
      if (!strcmp((char*)s.group, "rec")) CHECK(s.id >= 1000 && s.id < 1000 + recs_n && recs[s.id - 1000].failed, "status %d is not that of a failing event", s.id);
      else CHECK(!strcmp((char*)s.group, "map") && s.id >= 2000 && s.id < 2000 + maps_n && maps[s.id - 2000].failed, "status %d of group '%s' is not that of a failing stage", s.id, (char*)s.group);
      int c = 0;
      for (int i = 0; i < recs_n; i++) c += recs[i].failed;
      for (int i = 0; i < maps_n; i++) c += maps[i].failed;
      CHECK(c == 1, "%d stages failed: not only the first", c);
      CHECK(!list, "the list is not empty after an error");
      break;
    }
    CHECK(!G.any_failed, "an event failed but sp_seq returned success");
    for (int i = 0; i < maps_n; i++) CHECK(!maps[i].failed, "a map function failed but sp_seq returned success");
    for (int i = 0; i < maps_n; i++) CHECK(maps[i].asked == maps[i].ask_to, "map %d: called up to %u instead of %u", i, maps[i].asked, maps[i].ask_to);
    seq_check_asked();
    for (int ci = 0; ci < channels; ci++)
      for (sp_time_t k = 0; k < size; k++) CHECK(out.samples[ci][k] == before[ci][k], "channel %d, sample %u: %.17g instead of %.17g", ci, t + k, out.samples[ci][k], before[ci][k]);
    t += size;
    blocks++;
  }
  sp_event_list_free(&list);
  seq_check_released();
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  if (failed) pbt_label("a stage failed");
  if (isolated) pbt_label("isolated maps");
  if (depth_max > 1) pbt_label("chained maps");
  if (!blocks && !failed) pbt_label("never played");
  if (failed || (cross && blocks > 1)) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C08", .quick = 1000000, .thorough = 10000000, .setup = setup_sp, .run = run,
  .rule = "a stage failed, or the map was cut by block boundaries or started inside a block" };
