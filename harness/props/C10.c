/* wave files: write, inspect, read back */
#include "wav.h"
/* the writer is interrupted before closing: what has reached the file can be read up to the last complete sample */
static void interrupted(const char* path, int channels, sp_sample_t** in, sp_time_t n) {
  char copy[320];
  size_t size;
  sp_file_t file;
  int fd = fd_lowest();
  fflush(0);
  u8* a = file_bytes(path, &size);
  CHECK(a && size == 44 + (size_t)n * channels * 4, "the unfinished file has %zu bytes after writing %u samples on %d channels", size, n, channels);
  size_t keep = d_chance(40) ? size : d_below(size + 1);
  pbt_note(" (interrupted, %zu of %zu bytes)", keep, size);
  snprintf(copy, sizeof(copy), "%s/b.wav", pbt_scratch());
  file_put(copy, a, keep);
  memset(&file, 0xff, sizeof(file));
  status_t s = sp_file_open_read((uint8_t*)copy, &file);
  if (keep < 44) {
    CHECK(s.id == sp_s_id_file_read && !strcmp((char*)s.group, sp_s_group_sp), "a header of %zu bytes gives status %d", keep, s.id);
    CHECK(fd_lowest() == fd, "a file remains open after a failed open");
    return;
  }
  CHECK_OK(s, "sp_file_open_read of an unfinished file");
  CHECK(file.channel_count == channels, "opening an unfinished file reports %d channels instead of %d", file.channel_count, channels);
  sp_time_t have = (keep - 44) / 4 / channels, first = d_below(have + 1), want = have - first + d_below(4);
  for (int k = 0; k < 2; k++) {
    sp_time_t at = k ? first : 0, ask = k ? want : first, got = k ? have - first : first;
    if (!ask) continue;
    sp_sample_t* part[255];
    for (int ci = 0; ci < channels; ci++) {
      part[ci] = new_samples(ask);
      for (sp_time_t i = 0; i < ask; i++) part[ci][i] = 12345;
    }
    s = sp_file_read(file, ask, part);
    /* the rest can be an incomplete sample, which may or may not count as the end */
    if (got) CHECK_OK(s, "sp_file_read of an unfinished file");
    else CHECK(!s.id || (s.id == sp_s_id_file_eof && !strcmp((char*)s.group, sp_s_group_sp)), "reading at the end of an unfinished file returns status %d", s.id);
    for (int ci = 0; ci < channels; ci++)
      for (sp_time_t i = 0; i < ask; i++) {
        double e = i < got ? (double)(float)in[ci][at + i] : 12345;
        CHECK(part[ci][i] == e, "unfinished file, sample %u of channel %d: read %.17g instead of %.17g", at + i, ci, part[ci][i], e);
      }
  }
  sp_file_close_read(file);
  CHECK(fd_lowest() == fd, "a file remains open after closing");
  pbt_label("interrupted writing");
}
static void run(void) {
  static const int chs[] = { 1, 2, 3, 6, 17, 255 };
  int channels = d_chance(60) ? 1 + d_below(2) : chs[d_below(6)];
  sp_time_t n = d_chance(4) ? 0 : 1 + d_below(d_chance(80) ? 40 : channels < 7 ? 3000 : 60);
  if (d_rare(1500)) {
    n = d_long();
    if (channels > 4) n /= channels;
    pbt_label("long");
  }
  u32 rate = d_bool() ? 44100 : 1 + d_below(d_bool() ? 200000 : 1u << 20);
  char path[300];
  snprintf(path, sizeof(path), "%s/a.wav", pbt_scratch());
  unlink(path);
  if (d_chance(25)) {
    u8* junk = (u8*)buf_new(5000);
    file_put(path, junk, 1 + d_below(5000));
  }
  pbt_note("%d channels, %u samples, rate %u", channels, n, rate);
  sp_sample_t* in[255];
  int zero_run = d_chance(20);
  for (int ci = 0; ci < channels; ci++) {
    in[ci] = new_samples(n);
    if (ci < 2 && n < 41) for (sp_time_t i = 0; i < n; i++) in[ci][i] = d_float(-2, 2);
    else d_fill(in[ci], n, -1, 1);
    if (zero_run && n > 4) for (sp_time_t i = n - 3; i < n; i++) in[ci][i] = 0;
    if (n && d_chance(10)) in[ci][d_below(n)] = d_float(-1e30, 1e30);
  }
  sp_file_t file;
  int fd = fd_lowest();
  memset(&file, 0xff, sizeof(file));
  if (d_chance(2)) {
    /* the header can not be written */
    fwrite_fail_at = 1;
    status_t s = sp_file_open_write((uint8_t*)path, channels, rate, &file);
    fwrite_fail_at = 0;
    if (fwrite_failed) {
      CHECK(s.id == sp_s_id_file_write && !strcmp((char*)s.group, sp_s_group_sp), "the header can not be written but the status is %d", s.id);
      CHECK(fd_lowest() == fd, "a file remains open after a failed open");
      pbt_label("header not written");
    } else sp_file_close_write(&file);
    memset(&file, 0xff, sizeof(file));
  }
  CHECK_OK(sp_file_open_write((uint8_t*)path, channels, rate, &file), "sp_file_open_write");
  size_t piece[64], pieces = d_partition(n, piece, 64), at = 0, writes = 0;
  pbt_note(", written");
  for (size_t b = 0; b < pieces; b++) {
    sp_sample_t* part[255];
    for (int ci = 0; ci < channels; ci++) {
      part[ci] = new_samples(piece[b]);
      memcpy(part[ci], in[ci] + at, piece[b] * sizeof(double));
    }
    if (d_chance(3)) CHECK_OK(sp_file_write(&file, part, 0), "sp_file_write of nothing");
    pbt_note(" %zu", piece[b]);
    fwrite_failed = 0;
    if (d_chance(4)) fwrite_fail_at = 1;
    status_t s = sp_file_write(&file, part, piece[b]);
    fwrite_fail_at = 0;
    if (fwrite_failed) {
      /* nothing of this portion has been written */
      CHECK(s.id == sp_s_id_file_write && !strcmp((char*)s.group, sp_s_group_sp), "samples could not be written but the status is %d", s.id);
      pbt_note(" (fails)");
      pbt_label("failed write");
      if (d_bool()) {
        /* the file keeps what was written before */
        n = at;
        break;
      }
      s = sp_file_write(&file, part, piece[b]);
    }
    CHECK_OK(s, "sp_file_write");
    for (int ci = 0; ci < channels; ci++) CHECK(!memcmp(part[ci], in[ci] + at, piece[b] * sizeof(double)), "writing changed the samples");
    at += piece[b];
    writes++;
    if (n < 100 && d_chance(5)) interrupted(path, channels, in, at);
  }
  sp_file_close_write(&file);
  CHECK(fd_lowest() == fd, "a file remains open after closing");
  float* a = wav_check(path, channels, rate, n);
  for (sp_time_t i = 0; i < n; i++)
    for (int ci = 0; ci < channels; ci++)
      CHECK(a[i * channels + ci] == (float)in[ci][i], "sample %u of channel %d in the file is %.9g instead of %.9g", i, ci, a[i * channels + ci], (float)in[ci][i]);
  /* read */
  memset(&file, 0xff, sizeof(file));
  CHECK_OK(sp_file_open_read((uint8_t*)path, &file), "sp_file_open_read");
  CHECK(file.channel_count == channels, "opening reports %d channels instead of %d", file.channel_count, channels);
  sp_time_t pos = 0;
  int reads = 0, partial = 0, ends = 0;
  pbt_note(", read");
  while (ends < 2 && reads < 300) {
    sp_time_t want = 1 + d_below(d_chance(50) ? 8 : n + 10), got = n - pos < want ? n - pos : want;
    if (d_chance(3)) want = got = 0;
    if (reads > 60) {
      want = n + 5;
      got = n - pos;
    }
    sp_sample_t* part[255];
    for (int ci = 0; ci < channels; ci++) {
      part[ci] = new_samples(want);
      for (sp_time_t i = 0; i < want; i++) part[ci][i] = 12345;
    }
    pbt_note(" %u", want);
    status_t s = sp_file_read(file, want, part);
    if (want && !got) {
      CHECK(s.id == sp_s_id_file_eof && !strcmp((char*)s.group, sp_s_group_sp), "reading at the end returns status %d of group %s", s.id, (char*)s.group);
      ends++;
    } else CHECK(s.id == 0, "reading %u samples at %u of %u returns status %d", want, pos, n, s.id);
    for (int ci = 0; ci < channels; ci++)
      for (sp_time_t i = 0; i < want; i++) {
        double e = i < got ? (double)(float)in[ci][pos + i] : 12345;
        CHECK(part[ci][i] == e, "sample %u of channel %d: read %.17g instead of %.17g", pos + i, ci, part[ci][i], e);
      }
    if (got < want && got) partial = 1;
    pos += got;
    reads++;
  }
  sp_file_close_read(file);
  CHECK(fd_lowest() == fd, "a file remains open after closing");
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  if (partial) pbt_label("read past the end delivers the rest");
  if (!n) pbt_label("empty file");
  if (channels > 2) pbt_label("more than two channels");
  if (n > 1 && (writes > 1 || reads > 2)) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C10", .quick = 100000, .thorough = 2000000, .setup = setup_sp, .run = run,
  .rule = "at least two samples written or read in several portions" };
