/* life cycle of events: prepare once, free once, memory released once, errors */
#include "seq.h"
static void run(void) {
  seq_begin();
  G.strict_size = 0;
  int channels = 1 + d_below(sp_channel_count_limit);
  int n = d_below(9);
  sp_event_list_t* list = 0;
  sp_time_t span = 1 + d_below(80), last = 0, base = d_late();
  int memory = 0, fails = d_chance(60), failing = 0;
  pbt_note("events:");
  for (int i = 0; i < n; i++) {
    sp_time_t s = base + d_below(span), len = 1 + d_below(40);
    sp_time_t ago = d_ago(base, s);
    s -= ago;
    len += ago;
    rec_t* r = rec_new(s, s + len, 1);
    rec_draw(r, 1);
    memory |= r->mem_before || r->mem_prepare;
    if (fails && d_chance(30)) {
      if (r->has_prepare && d_bool()) {
        r->fail_prepare = 1;
        r->prepare_mem_then_fail = d_bool();
      } else {
        r->fail_generate = 1;
        r->fail_at = ago + d_below(len - ago);
      }
      failing++;
    }
    if (s + len > last) last = s + len;
    pbt_note(" [%u..%u%s%s%s%s mem %d+%d]", s, s + len, r->has_prepare ? " p" : "", r->has_free ? " f" : "", r->fail_prepare ? " FAILS in prepare" : "", r->fail_generate ? " FAILS in generate" : "", r->mem_before, r->mem_prepare);
    CHECK_OK(sp_event_list_add(&list, rec_event(r)), "sp_event_list_add");
  }
  if (!n) pbt_discard();
  sp_seq_events_prepare(&list);
  sp_time_t t = base + (d_chance(70) ? 0 : d_below(span));
  int blocks = d_below(12), failed = 0, freed_by_block = 0;
  pbt_note(" from %u blocks", t);
  for (int b = 0; b < blocks; b++) {
    sp_time_t size = 1 + d_below(d_bool() ? 8 : 60);
    sp_sample_t* before[sp_channel_count_limit];
    sp_block_t out = block_filled(channels, size, before);
    pbt_note(" %u", size);
    seq_expect(t, t + size);
    int freed_before[80];
    for (int i = 0; i < n; i++) freed_before[i] = recs[i].freed;
    status_t s = sp_seq(t, t + size, out, &list);
    if (s.id) {
      CHECK(!strcmp((char*)s.group, "rec") && s.id >= 1000 && s.id < 1000 + n && recs[s.id - 1000].failed, "sp_seq returned status %d of group '%s', not that of a failing event", s.id, (char*)s.group);
      int c = 0;
      for (int i = 0; i < n; i++) c += recs[i].failed;
      CHECK(c == 1, "%d events failed although the first failure ends rendering", c);
      CHECK(!list, "the list is not empty after an error");
      failed = 1;
      G.lost = 1;
      seq_check_released();
      CHECK(mem_live == 0, "%ld allocations remain after an error", mem_live);
      /* rendering the now empty list is harmless */
      CHECK_OK(sp_seq(t, t + size, out, &list), "sp_seq of the emptied list");
      break;
    }
    CHECK(!G.any_failed, "an event failed but sp_seq returned success");
    seq_check_asked();
    for (int i = 0; i < n; i++) {
      rec_t* r = recs + i;
      if (r->has_prepare && r->may_prepare) CHECK(r->prepared == 1, "event %d was reached but prepare was called %d times", i, r->prepared);
      if (r->has_free) {
        if (r->end <= t) CHECK(r->freed == 1, "event %d (%u..%u) is past but was not freed by block %u..%u", i, r->start, r->end, t, t + size);
        else CHECK(r->freed == 0, "event %d (%u..%u) was freed by block %u..%u", i, r->start, r->end, t, t + size);
        freed_by_block |= r->freed;
      }
      for (int k = 0; k < r->mem_n; k++)
        CHECK((r->mem_freed[k] != 0) == (r->end <= t), "event %d (%u..%u): memory %d %s by block %u..%u", i, r->start, r->end, k, r->mem_freed[k] ? "was released" : "was not released", t, t + size);
    }
    t += size;
    if (d_chance(10)) t += d_below(30);
  }
  sp_event_list_free(&list);
  CHECK(!list, "the list is not empty after freeing it");
  seq_check_released();
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  if (failed) pbt_label("an event failed");
  if (memory) pbt_label("registered memory");
  if (freed_by_block) pbt_label("past events freed by a later block");
  if (failed || (memory && freed_by_block)) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C02", .quick = 2000000, .thorough = 20000000, .setup = setup_sp, .run = run,
  .rule = "an event failed during rendering, or registered memory was released when a later block passed its event" };
