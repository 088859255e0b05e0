/* groups render as their members at shifted times */
#include "seq.h"
#include "tree.h"
#include <sph-sp/queue.h>
static void setup(void) {
  status_t s = sp_initialize(4, 2, TEST_RATE);
  if (s.id) _exit(1);
}
static void run(void) {
  seq_begin();
  tree_begin();
  tree_long = d_rare(400);
  if (tree_long) pbt_label("long");
  int channels = 1 + d_below(sp_channel_count_limit);
  int memory = d_bool();
  sp_event_list_t* list = 0;
  node_t* top[6];
  int n = 1 + d_below(4);
  /* at most 3 workers can be waiting for other workers */
  int allow_parallel = d_chance(40) ? 3 : 0;
  sp_time_t last = 0, base = d_late();
  int play = d_chance(92);
  tree_draw_ago(base);
  pbt_note("%d channel(s):", channels);
  for (int i = 0; i < n; i++) {
    top[i] = d_chance(75) ? tree_group(channels, 3, memory, 0, allow_parallel) : tree_leaf(channels, memory, 0);
    if (top[i]->end || top[i]->n == 0) {
      top[i]->start += base;
      top[i]->end += base;
      top[i]->event.start += base;
      top[i]->event.end += base;
    }
    pbt_note(" at %u..%u;", top[i]->start, top[i]->end);
    CHECK_OK(sp_event_list_add(&list, top[i]->event), "sp_event_list_add");
    tree_place(top[i], 0, 0, UINT32_MAX, 0);
    if (top[i]->end > last) last = top[i]->end;
  }
  G.strict_size = tree_parallel == 0;
  sp_seq_events_prepare(&list);
  sp_time_t t = base + tree_ago + (d_chance(70) ? 0 : d_below(30)), stop = last + 1 + d_below(3);
  int blocks = 0, style = d_below(3);
  int early = d_chance(25);
  pbt_note(" blocks from %u:", t);
  while (play && t < stop && blocks < 60) {
    sp_time_t size = style == 0 ? 1 + d_below(8) : style == 1 ? stop - t : 1 + d_below(40);
    if (tree_long && style != 1) size = 1 + d_below(stop - t);
    sp_sample_t* before[sp_channel_count_limit];
    sp_block_t out = block_filled(channels, size, before);
    pbt_note(" %u", size);
    seq_expect(t, t + size);
    CHECK_OK(sp_seq(t, t + size, out, &list), "sp_seq");
    seq_check_asked();
    seq_check_out(out, before);
    t += size;
    blocks++;
    if (early && d_chance(15)) break;
  }
  sp_event_list_free(&list);
  CHECK(!list, "the list is not empty after freeing it");
  seq_check_released();
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  if (tree_parallel) pbt_label("parallel groups");
  if (tree_cut) pbt_label("a group is cut off before its members end");
  if (tree_depth > 1) pbt_label("nested groups");
  if (!blocks) pbt_label("never played");
  if (tree_groups && tree_depth > 0 && blocks > 1) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C04", .quick = 100000, .thorough = 1500000, .setup = setup, .run = run,
  .rule = "at least one group with members, rendered in two or more blocks" };
