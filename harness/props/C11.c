/* reading arbitrary bytes as a wave file */
#include "wav.h"
static u8 a[4096];
static void run(void) {
  size_t n = 0;
  char path[300];
  snprintf(path, sizeof(path), "%s/in.wav", pbt_scratch());
  int kind = d_below(6), channels = d_chance(70) ? 1 + d_below(2) : 1 + d_below(255);
  sp_time_t frames = d_below(12);
  if (channels > 20) frames = d_below(3);
  int expect = -1; /* -1: any status, 0: success, else a failure */
  const char* what = "";
  size_t data_at = 0;
  if (kind == 0) {
    /* arbitrary bytes */
    n = d_below(d_bool() ? 64 : 200);
    for (size_t i = 0; i < n; i++) a[i] = d_below(256);
    expect = 1;
    what = "arbitrary bytes";
    if (n >= 44 && !memcmp(a, "RIFF", 4)) expect = -1;
  } else if (kind == 1) {
    /* paths */
    switch (d_below(3)) {
      case 0: snprintf(path, sizeof(path), "%s/not there", pbt_scratch()); break;
      case 1: snprintf(path, sizeof(path), "%s", pbt_scratch()); break;
      default: snprintf(path, sizeof(path), "%s/in.wav/x", pbt_scratch());
    }
    expect = 1;
    what = "path";
  } else {
    /* a well-formed file */
    memcpy(a, "RIFF", 4);
    memcpy(a + 8, "WAVEfmt ", 8);
    put32(a + 16, 16);
    put16(a + 20, 3);
    put16(a + 22, channels);
    put32(a + 24, 48000);
    put32(a + 28, 48000 * channels * 4);
    put16(a + 32, channels * 4);
    put16(a + 34, 32);
    n = 36;
    int chunks = d_chance(50) ? 1 + d_below(4) : 0;
    for (int i = 0; i < chunks; i++) {
      static const char* ids[] = { "LIST", "fact", "bext", "PEAK", "dat ", "Data" };
      memcpy(a + n, ids[d_below(6)], 4);
      u32 size = d_chance(70) ? 2 * d_below(30) : d_below(60);
      put32(a + n + 4, size);
      n += 8;
      for (u32 k = 0; k < size; k++) a[n + k] = d_chance(5) ? d_below(256) : i;
      if (size >= 8 && d_chance(20)) memcpy(a + n, "data", 4); /* inside another chunk: not a data chunk */
      n += size;
      if (size & 1) {
        /* a chunk of odd size is followed by a byte that its size does not count */
        a[n++] = d_chance(70) ? 0 : d_below(256);
        pbt_label("chunk of odd size");
      }
    }
    memcpy(a + n, "data", 4);
    put32(a + n + 4, frames * channels * 4);
    n += 8;
    data_at = n;
    for (sp_time_t i = 0; i < frames * channels; i++) {
      float f = (float)((i64)d_below(2001) - 1000) / 8;
      memcpy(a + n, &f, 4);
      n += 4;
    }
    expect = 0;
    what = "well-formed file";
    if (d_chance(40)) {
      /* chunks after the data */
      int k = 1 + d_below(3);
      for (int i = 0; i < k; i++) {
        u32 size = d_below(80);
        memcpy(a + n, i & 1 ? "id3 " : "LIST", 4);
        put32(a + n + 4, size);
        n += 8;
        for (u32 j = 0; j < size; j++) a[n + j] = d_chance(5) ? d_below(256) : 1 + i;
        n += size;
        if (size & 1) a[n++] = 0;
      }
    }
    if (kind == 3) {
      /* truncated before the data */
      n = d_below(data_at);
      expect = 1;
      what = "truncated file";
    } else if (kind == 4) {
      /* one field is wrong */
      what = "other encoding";
      switch (d_below(7)) {
        case 0: a[d_below(4)] ^= 1 + d_below(255); expect = sp_s_id_file_read; break;
        case 1: a[8 + d_below(4)] ^= 1 + d_below(255); expect = sp_s_id_file_read; break;
        case 2: a[12 + d_below(4)] ^= 1 + d_below(255); expect = sp_s_id_file_read; break;
        case 3: put16(a + 20, (3 + 1 + d_below(65535)) & 65535); expect = sp_s_id_file_not_implemented; break;
        case 4: put16(a + 34, (32 + 1 + d_below(65535)) & 65535); expect = sp_s_id_file_not_implemented; break;
        case 5: put16(a + 22, 0); expect = 1; break;
        default: put16(a + 22, 256 + d_below(65000)); expect = 1;
      }
      if (expect == sp_s_id_file_read) what = "not a wave file";
      if (d_chance(30)) {
        /* the fields that do not decide are something else */
        put32(a + 24, d_mid());
        put32(a + 28, d_bool() ? 0 : d_mid());
        put16(a + 32, d_bool() ? 0 : d_below(65536));
      }
    } else if (kind == 5) {
      /* random damage anywhere */
      int k = 1 + d_below(4);
      for (int i = 0; i < k; i++) a[d_below(n)] = d_bool() ? d_below(256) : 255;
      if (d_chance(30)) n = d_below(n + 1);
      expect = -1;
      what = "damaged file";
    }
  }
  pbt_note("%s, %zu bytes, %d channels", what, n, channels);
  if (kind == 1) {
    char p[300];
    snprintf(p, sizeof(p), "%s/in.wav", pbt_scratch());
    file_put(p, a, 0);
  } else file_put(path, a, n);
  int fd = fd_lowest(), fault = expect == 0 && d_chance(15);
  fread_failed = 0;
  fread_fail_at = 0;
  if (fault) {
    fread_fail_at = 1 + (long)d_below(8);
    pbt_note(", read %ld fails", fread_fail_at);
  }
  sp_file_t file;
  memset(&file, 0xff, sizeof(file));
  status_t s = sp_file_open_read((uint8_t*)path, &file);
  if (s.id) {
    CHECK(fd_lowest() == fd, "a file remains open after a failed open");
    CHECK(expect != 0 || fread_failed, "a well-formed file is rejected with status %d", s.id);
    if (kind != 1 && n < 44) CHECK(s.id == sp_s_id_file_read && !strcmp((char*)s.group, sp_s_group_sp), "a file of %zu bytes gives status %d", n, s.id);
    if (expect > 1) CHECK(s.id == expect && !strcmp((char*)s.group, sp_s_group_sp), "%s: status %d instead of %d", what, s.id, expect);
    if (kind == 3) CHECK(s.id == sp_s_id_file_read, "a truncated file gives status %d", s.id);
  } else {
    CHECK(!fread_failed, "the file is opened although reading its header failed");
    CHECK(expect <= 0, "%s (%zu bytes, expected status %d) is accepted", what, n, expect);
    int c = file.channel_count;
    CHECK(c > 0 && n >= 44 && c == (int)le16(a + 22), "%d channels are reported for a file with %u", c, le16(a + 22));
    CHECK(le16(a + 20) == 3 && le16(a + 34) == 32, "an encoding that is not 32 bit float is accepted");
    /* the first data chunk */
    size_t at = 36;
    while (at + 8 <= n && memcmp(a + at, "data", 4)) at += 8 + (size_t)le32(a + at + 4) + (le32(a + at + 4) & 1);
    CHECK(at + 8 <= n, "a file without data chunk is accepted");
    /* the stated size of the data can differ from what is there: the smaller one has to be delivered.
       no stated size: either nothing or, as in files that are still being written, all that follows */
    size_t have = (n - at - 8) / 4, said = le32(a + at + 4) / 4, least = (have < said ? have : said) / c;
    if (le32(a + at + 4)) have = have < said ? have : said;
    at += 8;
    sp_time_t pos = 0, total = have / c;
    int end = 0;
    for (int k = 0; k < 40 && !end; k++) {
      sp_time_t want = 1 + d_below(8);
      sp_sample_t* part[255];
      for (int ci = 0; ci < c; ci++) {
        part[ci] = new_samples(want);
        for (sp_time_t i = 0; i < want; i++) part[ci][i] = 12345;
      }
      s = sp_file_read(file, want, part);
      sp_time_t got = total - pos < want ? total - pos : want;
      if (fread_failed) {
        CHECK(s.id && !(s.id == sp_s_id_file_eof && !strcmp((char*)s.group, sp_s_group_sp)), "an error while reading is returned as %s", s.id ? "the end of the file" : "success");
        break;
      }
      if (s.id) {
        CHECK(s.id == sp_s_id_file_eof && !strcmp((char*)s.group, sp_s_group_sp), "reading returns status %d", s.id);
        CHECK(pos >= least, "end of file is reported with %u samples left", got);
        end = 1;
      }
      for (int ci = 0; ci < c; ci++)
        for (sp_time_t i = 0; i < want; i++) {
          float f = 12345;
          if (i < got) memcpy(&f, a + at + 4 * ((size_t)(pos + i) * c + ci), 4);
          if (pos + i >= least && part[ci][i] == 12345) continue;
          CHECK(part[ci][i] == f || (isnan(f) && isnan(part[ci][i])), "sample %u of channel %d: %.9g instead of %.9g", pos + i, ci, part[ci][i], f);
        }
      pos += got;
    }
    if (expect == 0 && !fread_failed) CHECK(pos >= frames || !end, "%u samples were read instead of %u", pos, frames);
    fread_fail_at = 0;
    sp_file_close_read(file);
    CHECK(fd_lowest() == fd, "a file remains open after closing");
  }
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  fread_fail_at = 0;
  if (fread_failed) pbt_label("an error while reading");
  pbt_label(what);
  if (kind) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C11", .quick = 200000, .thorough = 5000000, .setup = setup_sp, .run = run,
  .rule = "not just arbitrary bytes: well-formed, truncated, damaged or unusable files and paths" };
