/* reading and writing files independently of the library */
static u8* file_bytes(const char* path, size_t* size) {
  FILE* f = fopen(path, "rb");
  if (!f) return 0;
  fseek(f, 0, SEEK_END);
  *size = ftell(f);
  rewind(f);
  u8* a = (u8*)buf_new(*size ? *size : 1);
  size_t n = fread(a, 1, *size, f);
  fclose(f);
  return n == *size ? a : 0;
}
static void file_put(const char* path, const void* a, size_t size) {
  FILE* f = fopen(path, "wb");
  if (!f || fwrite(a, 1, size, f) != size) abort();
  fclose(f);
}
static u32 le32(const u8* a) { return a[0] | a[1] << 8 | a[2] << 16 | (u32)a[3] << 24; }
static u32 le16(const u8* a) { return a[0] | a[1] << 8; }
static void put32(u8* a, u32 v) { for (int i = 0; i < 4; i++) a[i] = v >> (8 * i); }
static void put16(u8* a, u32 v) { for (int i = 0; i < 2; i++) a[i] = v >> (8 * i); }
/* checks the header of a file with frames frames; returns the interleaved samples */
static float* wav_check(const char* path, int channels, u32 rate, u32 frames) {
  size_t size;
  u8* a = file_bytes(path, &size);
  CHECK(a, "the file was not created");
  u32 data = frames * channels * 4;
  CHECK(size == 44 + (size_t)data, "the file has %zu bytes instead of %u for %u samples on %d channels", size, 44 + data, frames, channels);
  CHECK(!memcmp(a, "RIFF", 4) && !memcmp(a + 8, "WAVEfmt ", 8) && !memcmp(a + 36, "data", 4), "the chunk names are wrong");
  CHECK(le32(a + 4) == 36 + data, "riff chunk size %u instead of %u", le32(a + 4), 36 + data);
  CHECK(le32(a + 16) == 16, "format chunk size %u", le32(a + 16));
  CHECK(le16(a + 20) == 3, "format code %u is not float", le16(a + 20));
  CHECK(le16(a + 22) == (u32)channels, "channel count %u instead of %d", le16(a + 22), channels);
  CHECK(le32(a + 24) == rate, "sample rate %u instead of %u", le32(a + 24), rate);
  CHECK(le32(a + 28) == (u32)(rate * channels * 4), "byte rate %u instead of %u", le32(a + 28), (u32)(rate * channels * 4));
  CHECK(le16(a + 32) == (u32)channels * 4, "frame size %u instead of %d", le16(a + 32), channels * 4);
  CHECK(le16(a + 34) == 32, "bits per sample %u", le16(a + 34));
  CHECK(le32(a + 40) == data, "data chunk size %u instead of %u", le32(a + 40), data);
  float* b = (float*)buf_new(data ? data : 4);
  memcpy(b, a + 44, data);
  return b;
}
