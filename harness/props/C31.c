/* blocks, interleaving, byte packing */
#include "../sp.h"

static void blocks(void) {
  int channels = 1 + (int)d_below(sp_channel_count_limit);
  sp_time_t size = d_chance(5) ? 0 : 1 + (sp_time_t)d_below(d_bool() ? 8 : 300);
  if (d_rare(3000)) size = d_long();
  u64 fail = d_chance(20) ? 1 + d_below((u64)channels) : 0;
  pbt_note("block of %d channels, %u samples, failing allocation %llu", channels, size, (unsigned long long)fail);
  mem_reset();
  mem_fail_at = (long)fail;
  sp_block_t a = { 0 };
  status_t s = sp_block_new((sp_channel_count_t)channels, size, &a);
  int failed = mem_failed;
  mem_fail_at = 0;
  if (failed) {
    CHECK(s.id, "sp_block_new reports success after a failed allocation");
    CHECK(mem_live == 0, "sp_block_new failed and keeps %ld allocations", mem_live);
    pbt_nontrivial();
    return;
  }
  CHECK_OK(s, "sp_block_new");
  CHECK(a.channel_count == channels && a.size == size, "the block has %d channels and size %u", a.channel_count, a.size);
  for (int c = 0; c < channels; c++) {
    for (int d = 0; d < c; d++) CHECK(!size || a.samples[c] != a.samples[d], "channels %d and %d share their samples", c, d);
    for (sp_time_t i = 0; i < size; i++) CHECK(a.samples[c][i] == 0, "sample %u of channel %d of a new block is %.17g", i, c, a.samples[c][i]);
  }
  for (int c = 0; c < channels; c++) d_fill(a.samples[c], size, -2, 2);
  double* want[sp_channel_count_limit];
  for (int c = 0; c < channels; c++) want[c] = memcpy(new_samples(size + 1), a.samples[c], size * sizeof(double));
  int steps = 1 + (int)d_below(5);
  for (int k = 0; k < steps; k++) {
    int op = (int)d_below(4);
    if (op == 0) { /* offset views, possibly of a view */
      sp_time_t o = (sp_time_t)d_below(size + 1);
      sp_block_t v = sp_block_with_offset(a, o);
      pbt_note(" offset %u", o);
      sp_time_t o2 = d_bool() ? (sp_time_t)d_below(size - o + 1) : 0;
      if (o2) v = sp_block_with_offset(v, o2);
      o += o2;
      CHECK(v.channel_count == channels && v.size == size - o, "a block of size %u with offset %u has %d channels and size %u", size, o, v.channel_count, v.size);
      for (int c = 0; c < channels; c++) CHECK(v.samples[c] == a.samples[c] + o, "the block with offset %u does not start there", o);
      if (d_bool()) {
        pbt_note(" zeroed");
        sp_block_zero(v);
        for (int c = 0; c < channels; c++) memset(want[c] + o, 0, (size - o) * sizeof(double));
      } else {
        for (int c = 0; c < channels; c++) for (sp_time_t i = 0; i < v.size; i++) v.samples[c][i] = want[c][o + i] = hash_unit(i * 31 + (u64)c + o);
      }
    } else if (op == 1) { /* copy from a block that is not larger */
      int bc = 1 + (int)d_below((u64)channels);
      sp_time_t bs = (sp_time_t)d_below(size + 1);
      pbt_note(" copy in %d x %u", bc, bs);
      sp_block_t b = { .channel_count = (sp_channel_count_t)bc, .size = bs };
      for (int c = 0; c < bc; c++) {
        b.samples[c] = new_samples(bs);
        d_fill(b.samples[c], bs, -3, 3);
        memcpy(want[c], b.samples[c], bs * sizeof(double));
      }
      double* keep[sp_channel_count_limit];
      for (int c = 0; c < bc; c++) keep[c] = memcpy(new_samples(bs), b.samples[c], bs * sizeof(double));
      sp_block_copy(b, a);
      for (int c = 0; c < bc; c++) CHECK(!memcmp(keep[c], b.samples[c], bs * sizeof(double)), "sp_block_copy changed the source");
    } else if (op == 2) { /* copy to a larger block */
      sp_time_t more = (sp_time_t)d_below(4);
      sp_block_t b = buf_block((sp_channel_count_t)(channels + (int)d_below((u64)(sp_channel_count_limit - channels + 1))), size + more);
      pbt_note(" copy out to %d x %u", b.channel_count, b.size);
      for (int c = 0; c < b.channel_count; c++) for (sp_time_t i = 0; i < b.size; i++) b.samples[c][i] = 7;
      sp_block_copy(a, b);
      for (int c = 0; c < b.channel_count; c++)
        for (sp_time_t i = 0; i < b.size; i++) {
          double w = c < channels && i < size ? want[c][i] : 7;
          CHECK(b.samples[c][i] == w, "after sp_block_copy sample %u of channel %d is %.17g instead of %.17g", i, c, b.samples[c][i], w);
        }
    } else if (d_chance(30)) {
      pbt_note(" zero");
      sp_block_zero(a);
      for (int c = 0; c < channels; c++) memset(want[c], 0, size * sizeof(double));
    }
    CHECK(a.channel_count == channels && a.size == size, "the block has %d channels and size %u afterwards", a.channel_count, a.size);
    for (int c = 0; c < channels; c++)
      for (sp_time_t i = 0; i < size; i++)
        CHECK(a.samples[c][i] == want[c][i], "sample %u of channel %d is %.17g instead of %.17g", i, c, a.samples[c][i], want[c][i]);
  }
  sp_block_free(&a);
  CHECK(mem_live == 0, "%ld allocations are not freed by sp_block_free", mem_live);
  if (channels > 1 && size > 1) pbt_nontrivial();
}

static void interleave(void) {
  size_t channels = d_chance(60) ? 1 + d_below(4) : 1 + d_below(255), n = d_below(d_bool() ? 5 : 70);
    if (d_rare(3000)) n = d_long() / channels + 3;
  pbt_note("interleave %zu channels of %zu samples", channels, n);
  if (!sp_interleave || !sp_deinterleave) return;
  double** a = new_array(double*, channels);
  double** back = new_array(double*, channels);
  for (size_t c = 0; c < channels; c++) {
    a[c] = new_samples(n);
    back[c] = new_samples(n);
    for (size_t i = 0; i < n; i++) a[c][i] = (double)(c * 1000 + i);
  }
  double* b = new_samples(n * channels);
  sp_interleave(a, b, (sp_time_t)n, (sp_channel_count_t)channels);
  for (size_t c = 0; c < channels; c++)
    for (size_t i = 0; i < n; i++) {
      CHECK(b[i * channels + c] == (double)(c * 1000 + i), "interleaved element %zu is %g instead of sample %zu of channel %zu", i * channels + c, b[i * channels + c], i, c);
      CHECK(a[c][i] == (double)(c * 1000 + i), "sp_interleave changed its input");
    }
  sp_deinterleave(back, b, (sp_time_t)n, (sp_channel_count_t)channels);
  for (size_t c = 0; c < channels; c++)
    for (size_t i = 0; i < n; i++) {
      CHECK(back[c][i] == a[c][i], "sample %zu of channel %zu of %zu is %g after interleaving and deinterleaving", i, c, channels, back[c][i]);
      CHECK(b[i * channels + c] == a[c][i], "sp_deinterleave changed its input");
    }
  if (n > 1 && channels > 1) pbt_nontrivial();
}

static void bytes(void) {
  sp_time_t count = 1 + (sp_time_t)d_below(8);
  size_t off = d_below(4);
  uint8_t* a = new_array(uint8_t, off + count);
  u64 want = 0;
  pbt_note("bytes:");
  for (sp_time_t i = 0; i < count; i++) {
    a[off + i] = (uint8_t)(d_chance(30) ? 255 : d_chance(20) ? 0 : d_below(256));
    want |= (u64)a[off + i] << (8 * i);
    pbt_note(" %u", a[off + i]);
  }
  u64 got = sp_u64_from_array(a + off, count);
  CHECK(got == want, "sp_u64_from_array of %u bytes is %llu instead of %llu", count, (unsigned long long)got, (unsigned long long)want);
  if (count > 2) pbt_nontrivial();
}

static void run(void) {
  int i = (int)d_below(4);
  pbt_label(i < 2 ? "blocks" : i == 2 ? "interleaving" : "bytes");
  if (i < 2) blocks();
  else if (i == 2) interleave();
  else bytes();
}
static const pbt_meta META = { .id = "C31", .quick = 2000000, .thorough = 30000000, .setup = setup_sp, .run = run,
  .rule = "a block of several channels and samples, several channels interleaved, more than two bytes, or a failed allocation" };
