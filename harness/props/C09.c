/* rendering ranges of events to blocks and files */
#include "../sp.h"
#include "seq.h"
#include "tree.h"
#include "wav.h"
static void run(void) {
  seq_begin();
  tree_begin();
  int kind = d_below(3), channels = kind == 2 ? 2 : 1 + d_below(sp_channel_count_limit);
  static const char* kinds[] = { "block", "file", "whole file" };
  pbt_note("to %s, %d channels:", kinds[kind], channels);
  sp_event_t event;
  sp_time_t event_end;
  rec_t* r = 0;
  sp_time_t ago = 0, base = kind < 2 ? d_late() : 0;
  int fail = d_chance(15) ? 1 + d_below(kind ? 5 : 2) : 0, late = 0;
  if (!fail && d_chance(45)) {
    if (kind < 2) tree_draw_ago(base);
    node_t* a = tree_group(channels, 2, 1, 0, 0);
    if (a->end || a->n == 0) {
      a->start += base;
      a->end += base;
      a->event.start += base;
      a->event.end += base;
    } else base = tree_ago = 0;
    tree_place(a, 0, 0, UINT32_MAX, 0);
    event = a->event;
    event_end = event.end;
  } else {
    sp_time_t s = base + (d_chance(50) ? 0 : d_below(30));
    r = rec_new(s, s + (d_rare(3000) ? d_long() : 1 + d_below(kind == 2 && d_chance(20) ? 9000 : 120)), 1 + d_below(channels));
    r->start -= ago = d_ago(base, s);
    r->win_start = r->start;
    if (r->end - base > 65000) pbt_label("long");
    rec_draw(r, 1);
    if (fail == 1) {
      r->fail_generate = 1;
      r->fail_at = ago + d_below(r->end - r->start - ago);
    }
    if (fail == 2) r->has_prepare = r->fail_prepare = 1;
    event = rec_event(r);
    event_end = r->end;
    if (kind == 2 && !fail && r->start == 0 && r->has_prepare && d_chance(50)) {
      late = 1;
      r->late_end = r->end;
      event.end = 0;
    }
    pbt_note(" %u..%u%s%s", r->start, r->end, late ? " late" : "", fail == 1 ? " generate fails" : fail == 2 ? " prepare fails" : "");
  }
  sp_time_t start = 0, end = event_end, rate = TEST_RATE, block_size = 4 * TEST_RATE;
  if (kind < 2) {
    base += tree_ago;
    if (event_end < base) base = event_end - d_below(event_end < 50 ? event_end : 50);
    start = base + (d_chance(35) ? 0 : d_below(event_end - base + 10));
    end = start + 1 + d_below(d_bool() ? 20 : event_end - base + 20);
    if (kind == 1 && !fail && d_chance(3)) end = start;
    block_size = d_chance(50) ? 1 + d_below(12) : d_chance(50) ? 1 + d_below(end - start + 4)   : 1 + d_below(400);
    if (end - start > 60000) block_size = d_bool() ? 65000 + d_below(1100) : 1000 + d_below(end);
    rate = d_bool() ? TEST_RATE : 1 + d_below(200000);
  }
  if (fail == 1) {
    /* the failing request is in the range or not */
    if (r->start + r->fail_at < start || r->start + r->fail_at >= end) fail = -1;
  }
  if (fail == 2 && !(r->start < end && r->end > start)) fail = -1;
  pbt_note(" range %u..%u, blocks of %u", start, end, block_size);
  char path[300];
  snprintf(path, sizeof(path), "%s/render.wav", pbt_scratch());
  if (kind) {
    unlink(path);
    if (d_chance(30)) {
      /* an older file is replaced */
      u8* junk = (u8*)buf_new(700);
      file_put(path, junk, 700);
    }
    if (fail == 3) snprintf(path, sizeof(path), "%s/missing/render.wav", pbt_scratch());
    if (fail == 4) snprintf(path, sizeof(path), "%s", pbt_scratch());
    if (fail == 3 || fail == 4) pbt_note(" to a path that can not be written");
  }
  if (fail == 5) {
    fwrite_fail_at = 1 + (long)d_below(1 + (end - start + block_size - 1) / block_size);
    pbt_note(" writing fails at %ld", fwrite_fail_at);
  }
  seq_expect(start, end);
  if (late) r->may_prepare = 1;
  int fd = fd_lowest();
  sp_block_t out;
  memset(&out, 0, sizeof(out));
  status_t s;
  if (kind == 0) s = sp_render_range_block(event, start, end, sp_render_config(channels, rate, block_size, 0), &out);
  else if (kind == 1) s = sp_render_range_file(event, start, end, sp_render_config(channels, rate, block_size, d_chance(10)), (uint8_t*)path);
  else s = sp_render_file(event, (uint8_t*)path);
  fwrite_fail_at = 0;
  CHECK(fd_lowest() == fd, "a file remains open");
  if (fail == 5 && (!fwrite_failed || fwrite_failed_size < 5)) pbt_discard(); /* nothing but the final length could not be written */
  if (fail > 0) {
    CHECK(s.id, "success is reported although the %s", fail == 1 ? "event failed" : fail == 2 ? "event could not be prepared" : fail == 5 ? "file could not be written" : "file could not be created");
    if (fail == 5) CHECK(s.id == sp_s_id_file_write && !strcmp((char*)s.group, sp_s_group_sp), "status %d instead of the one for a failed write", s.id);
    if (fail < 3) CHECK(s.id == 1000 && !strcmp((char*)s.group, "rec"), "status %d of group %s instead of the event's", s.id, (char*)s.group);
    pbt_label(fail == 1 ? "event fails" : fail == 2 ? "prepare fails" : fail == 5 ? "write fails" : "file not writable");
    seq_check_released();
    CHECK(mem_live == 0, "%ld allocations remain after a failure", mem_live);
    if (fail < 3 || fail == 5) unlink(path);
    pbt_nontrivial();
    return;
  }
  CHECK(s.id == 0, "returned status %d of group %s", s.id, (char*)s.group);
  seq_check_asked();
  if (kind == 0) {
    CHECK(out.channel_count == channels && out.size == end - start, "block with %d channels of %u samples", out.channel_count, out.size);
    double* zero = zero_samples(end - start);
    sp_sample_t* before[sp_channel_count_limit];
    for (int ci = 0; ci < sp_channel_count_limit; ci++) before[ci] = zero;
    seq_check_out(out, before);
    sp_block_free(&out);
  } else {
    float* a = wav_check(path, channels, rate, end - start);
    for (sp_time_t t = start; t < end; t++)
      for (int ci = 0; ci < channels; ci++) {
        double e = 0;
        for (int i = 0; i < recs_n; i++)
          if (ci < recs[i].channels && t >= recs[i].win_start && t < recs[i].win_end) e += rec_value(recs[i].id, ci, t - recs[i].start);
        CHECK(a[(t - start) * channels + ci] == (float)e, "sample %u of channel %d in the file is %.9g instead of %.9g", t - start, ci, a[(t - start) * channels + ci], (float)e);
      }
    unlink(path);
  }
  seq_check_released();
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  if (start && kind < 2) pbt_label("range starts after zero");
  if ((end - start) % block_size) pbt_label("length is not a multiple of the block size");
  if (end > start && (kind < 2 || end > block_size) && (kind == 0 || end - start > block_size)) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C09", .quick = 300000, .thorough = 3000000, .setup = setup_sp, .run = run,
  .rule = "a range to a block, a range to a file in several blocks, or a failure" };
