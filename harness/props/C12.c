/* Fourier transform against its definition */
#include <nayuki-fft/fft.h>
#pragma weak Fft_transformRadix2
#pragma weak Fft_transformBluestein
#pragma weak Fft_convolveReal
#pragma weak Fft_convolveComplex
static void dft_bin(double* re, double* im, size_t n, size_t k, int sign, double* out_re, double* out_im) {
  long double a = 0, b = 0;
  for (size_t i = 0; i < n; i++) {
    long double x = 2 * 3.141592653589793238462643383279503L * ((u64)i * k % n) / n, c = cosl(x), s = sign * sinl(x);
    a += re[i] * c - im[i] * s;
    b += re[i] * s + im[i] * c;
  }
  *out_re = a;
  *out_im = b;
}
static void check(double* re, double* im, size_t n, double* got_re, double* got_im, int sign, const char* what) {
  double sum = 0;
  for (size_t i = 0; i < n; i++) sum += fabs(re[i]) + fabs(im[i]);
  double tol = 1e-11 * (sum + 1e-30) * (1 + log2(n + 1));
  size_t bins = n <= 130 ? n : n > 60000 ? 3 : 24;
  for (size_t i = 0; i < bins; i++) {
    size_t k = n <= 130 ? i : i < 3 ? (size_t[]){ 0, n / 2, n - 1 }[i] : d_below(n);
    double a, b;
    dft_bin(re, im, n, k, sign, &a, &b);
    CHECK(fabs(got_re[k] - a) <= tol && fabs(got_im[k] - b) <= tol, "%s of length %zu: element %zu is %.15g %+.15gi instead of %.15g %+.15gi", what, n, k, got_re[k], got_im[k], a, b);
  }
}
static double* copy(double* a, size_t n) { return memcpy(new_samples(n), a, n * sizeof(double)); }
static int is_power(size_t n) { return n && !(n & (n - 1)); }
/* circular convolution against its definition */
static void convolution(void) {
  size_t n = d_chance(70) ? 1 + d_below(40) : 1 + d_below(d_bool() ? 300 : 1100);
  if (d_chance(15)) n = (size_t)1 << d_below(11);
  if (d_rare(500)) n = d_long();
  int complex = d_bool(), few = d_chance(40);
  double *v[6];
  for (int i = 0; i < 4; i++) {
    v[i] = zero_samples(n);
    if (!complex && (i & 1)) continue;
    if (!few) d_fill(v[i], n, -1, 1);
    else for (size_t k = 0; k < n && k < 12; k++) v[i][k] = d_range(-9, 9);
  }
  double *keep[4];
  for (int i = 0; i < 4; i++) keep[i] = copy(v[i], n);
  v[4] = new_samples(n);
  v[5] = zero_samples(n);
  int same = d_chance(15); /* a vector with itself */
  double *xr = v[0], *xi = v[1], *yr = same ? v[0] : v[2], *yi = same ? v[1] : v[3];
  pbt_note("circular convolution of length %zu, %s%s", n, complex ? "complex" : "real", same ? " with itself" : "");
  int r = complex ? Fft_convolveComplex(xr, xi, yr, yi, v[4], v[5], n) : Fft_convolveReal(xr, yr, v[4], n);
  CHECK(r == 1, "circular convolution returns %d", r);
  for (int i = 0; i < 4; i++) CHECK(!memcmp(v[i], keep[i], n * sizeof(double)), "circular convolution changed its input");
  double sx = 0, sy = 0;
  for (size_t i = 0; i < n; i++) {
    sx = fmax(sx, fabs(xr[i]) + fabs(xi[i]));
    sy = fmax(sy, fabs(yr[i]) + fabs(yi[i]));
  }
  double tol = 1e-11 * (1e-30 + n * sx * sy) * (1 + log2(n + 1));
  size_t bins = n <= 130 ? n : n > 60000 ? 5 : 30;
  for (size_t i = 0; i < bins; i++) {
    size_t k = n <= 130 ? i : i < 3 ? (size_t[]){ 0, n / 2, n - 1 }[i] : d_below(n);
    long double a = 0, b = 0;
    for (size_t j = 0; j < n; j++) {
      size_t l = k >= j ? k - j : k + n - j;
      a += (long double)xr[j] * yr[l] - (long double)xi[j] * yi[l];
      b += (long double)xr[j] * yi[l] + (long double)xi[j] * yr[l];
    }
    CHECK(fabs(v[4][k] - (double)a) <= tol && fabs(v[5][k] - (double)b) <= tol, "circular convolution of length %zu: element %zu is %.15g %+.15gi instead of %.15g %+.15gi", n, k, v[4][k], v[5][k], (double)a, (double)b);
  }
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  pbt_label("circular convolution");
  if (n > 2) pbt_nontrivial();
}
static void run(void) {
  if (Fft_convolveReal && Fft_convolveComplex && d_chance(15)) {
    convolution();
    return;
  }
  static const size_t sizes[] = { 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 97, 127, 128 };
  size_t n = d_chance(30) ? sizes[d_below(13)] : d_chance(85) ? 1 + d_below(130) : 1 + d_below(d_bool() ? 600 : 5000);
  if (d_chance(10)) n = (size_t)1 << d_below(13);
  if (d_rare(1500)) {
    n = d_chance(20) ? (size_t)1 << (14 + d_below(4)) : d_long();
    pbt_label("long");
  }
  double* re = zero_samples(n);
  double* im = zero_samples(n);
  int kind = d_below(6), complex = 0;
  static const char* kinds[] = { "few values", "real", "complex", "impulse", "sinusoid", "large" };
  switch (kind) {
    case 0:
      for (size_t i = 0; i < n && i < 40; i++) {
        re[i] = d_range(-9, 9);
        im[i] = d_range(-9, 9);
      }
      break;
    case 1: d_fill(re, n, -1, 1); break;
    case 3: re[d_below(n)] = 1; im[d_below(n)] = d_bool(); break;
    case 4: {
      size_t f = d_below(n);
      for (size_t i = 0; i < n; i++) re[i] = cos(2 * M_PI * (f * i % n) / n);
      break;
    }
    case 5: d_fill(re, n, -1e12, 1e12); d_fill(im, n, -1e3, 1e3); break;
    default: d_fill(re, n, -1, 1); d_fill(im, n, -1, 1);
  }
  for (size_t i = 0; i < n; i++) complex |= im[i] != 0;
  pbt_note("length %zu, %s", n, kinds[kind]);
  double* a = copy(re, n);
  double* b = copy(im, n);
  int inverse_first = d_chance(40), r;
  int direct = Fft_transformRadix2 && Fft_transformBluestein && d_chance(20);
  if (direct) { /* the algorithms by themselves */
    int radix = is_power(n) ? d_bool() : d_chance(20);
    inverse_first = 0;
    r = radix ? Fft_transformRadix2(a, b, n) : Fft_transformBluestein(a, b, n);
    pbt_note(", %s", radix ? "radix-2" : "Bluestein");
    if (radix && !is_power(n)) {
      CHECK(!r, "the radix-2 transform accepts the length %zu", n);
      CHECK(!memcmp(a, re, n * sizeof(double)) && !memcmp(b, im, n * sizeof(double)), "a rejected length modifies the data");
      CHECK(mem_live == 0, "%ld allocations remain", mem_live);
      pbt_label("length rejected");
      return;
    }
    pbt_label(radix ? "radix-2" : "Bluestein");
    r = !r;
  } else r = inverse_first ? sp_ffti(n, a, b) : sp_fft(n, a, b);
  CHECK(r == 0, "%s returns %d", inverse_first ? "sp_ffti" : "sp_fft", r);
  check(re, im, n, a, b, inverse_first ? 1 : -1, inverse_first ? "inverse transform" : "transform");
  if (d_bool()) {
    r = inverse_first ? sp_fft(n, a, b) : sp_ffti(n, a, b);
    CHECK(r == 0, "the transform back returns %d", r);
    double m = 0;
    for (size_t i = 0; i < n; i++) m = fmax(m, fmax(fabs(re[i]), fabs(im[i])));
    for (size_t i = 0; i < n; i++)
      CHECK(fabs(a[i] - n * re[i]) <= 1e-10 * n * m && fabs(b[i] - n * im[i]) <= 1e-10 * n * m, "transform and back of length %zu: element %zu is %.15g %+.15gi instead of %.15g %+.15gi", n, i, a[i], b[i], n * re[i], n * im[i]);
  } else {
    /* linear */
    double* re2 = new_samples(n);
    double* im2 = new_samples(n);
    d_fill(re2, n, -1, 1);
    d_fill(im2, n, -1, 1);
    double x = d_float(-4, 4);
    double* c = copy(re2, n);
    double* d = copy(im2, n);
    for (size_t i = 0; i < n; i++) {
      c[i] += x * re[i];
      d[i] += x * im[i];
    }
    double m = 0;
    for (size_t i = 0; i < n; i++) m += fabs(c[i]) + fabs(d[i]) + fabs(x * re[i]) + fabs(x * im[i]);
    r = inverse_first ? sp_ffti(n, re2, im2) : sp_fft(n, re2, im2);
    r |= inverse_first ? sp_ffti(n, c, d) : sp_fft(n, c, d);
    CHECK(r == 0, "a transform returns %d", r);
    for (size_t i = 0; i < n; i++)
      CHECK(fabs(c[i] - (re2[i] + x * a[i])) <= 1e-10 * m && fabs(d[i] - (im2[i] + x * b[i])) <= 1e-10 * m, "the transform of a sum differs from the sum of the transforms at %zu", i);
    pbt_label("linearity");
  }
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  pbt_label((n & (n - 1)) ? "length not a power of two" : "power of two");
  if (complex) pbt_label("complex input");
  if (n > 2) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C12", .quick = 25000, .thorough = 600000, .setup = setup_sp, .run = run,
  .rule = "length above two" };
