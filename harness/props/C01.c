/* block partition invariance of sp_seq */
#include "seq.h"
static void run(void) {
  seq_begin();
  G.strict_size = 1;
  int channels = 1 + d_below(sp_channel_count_limit);
  int n = d_below(10), wide = d_rare(5000); /* times and lengths above 16 bits */
  if (wide) pbt_label("long");
  sp_event_list_t* list = 0;
  sp_time_t span = 1 + d_below(wide ? 70000 : 120), last = 0;
  sp_time_t base = d_chance(15) ? d_below(1000000) : d_late();
  pbt_note("%d channel(s), events:", channels);
  int crossing = 0, overlap = 0;
  for (int i = 0; i < n; i++) {
    sp_time_t s = base + d_below(span), len = d_chance(10) ? 0 : 1 + d_below(wide ? 140000 : 60);
    sp_time_t ago = d_ago(base, s);
    s -= ago;
    len += ago;
    rec_t* r = rec_new(s, s + len, 1 + d_below(channels));
    rec_draw(r, 0);
    if (s + len > last) last = s + len;
    pbt_note(" %u..%u", s, s + len);
    sp_event_list_t* prev = list;
    CHECK_OK(sp_event_list_add(&list, rec_event(r)), "sp_event_list_add");
  }
  for (int i = 0; i < n; i++)
    for (int k = 0; k < i; k++) overlap |= recs[i].start < recs[k].end && recs[k].start < recs[i].end;
  sp_seq_events_prepare(&list);
  CHECK(n || !list, "preparing an empty list gives a non-empty list");
  if (last < base) last = base;
  /* blocks: consecutive, starting anywhere, rarely with gaps */
  sp_time_t t = d_bool() ? base : base + d_below(span), stop = last + d_below(8);
  int gaps = d_chance(20), blocks = 0;
  pbt_note(" blocks from %u:", t);
  while (t < stop && blocks < 40) {
    sp_time_t left = stop - t, size;
    switch (d_below(4)) {
      case 0: size = 1 + d_below(4); break;
      case 1: size = 1 + d_below(24); break;
      case 2: size = left; break;
      default: {
        /* up to an edge of an event, or one sample off */
        size = 1 + d_below(left);
        if (n) {
          rec_t* r = recs + d_below(n);
          i64 edge = (d_bool() ? r->start : r->end) + d_range(-1, 1);
          if (edge > t) size = edge - t;
        }
      }
    }
    if (wide && size < 1000) size = 1 + d_below(left);
    if (size < 1) size = 1;
    sp_sample_t* before[sp_channel_count_limit];
    /* the output may be larger than the range */
    sp_block_t out = block_filled(channels, size, before);
    pbt_note(" %u", size);
    seq_expect(t, t + size);
    for (int i = 0; i < n; i++)
      if (recs[i].ask_from < recs[i].ask_to && (recs[i].ask_from || recs[i].ask_to < recs[i].end - recs[i].start)) crossing = 1;
    CHECK_OK(sp_seq(t, t + size, out, &list), "sp_seq");
    seq_check_asked();
    seq_check_out(out, before);
    t += size;
    blocks++;
    if (gaps && d_chance(30)) {
      t += d_below(20);
      pbt_note(" gap");
    }
  }
  sp_event_list_free(&list);
  CHECK(!list, "the list is not empty after freeing it");
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  if (crossing) pbt_label("event crosses a block boundary");
  if (overlap) pbt_label("overlapping events");
  if (blocks > 1 && crossing) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C01", .quick = 1000000, .thorough = 10000000, .setup = setup_sp, .run = run,
  .rule = "at least two blocks and an event that crosses a block boundary" };
