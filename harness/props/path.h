/* reference evaluation of path segments */
#include "../sp.h"
typedef struct { double x, y; } pnt;

static double bez(const double* p, int n, double t) {
  double m = 1 - t;
  if (n == 2) return p[0] * m + p[1] * t;
  if (n == 3) return p[0] * m * m + 2 * p[1] * m * t + p[2] * t * t;
  return p[0] * m * m * m + 3 * p[1] * m * m * t + 3 * p[2] * m * t * t + p[3] * t * t * t;
}
/* t with x(t) = x; x(t) does not decrease */
static double bez_t(const double* px, int n, double x) {
  double a = 0, b = 1;
  if (x <= px[0]) return 0;
  if (x >= px[n - 1]) return 1;
  for (int i = 0; i < 44; i += 1) {
    double c = (a + b) / 2;
    if (bez(px, n, c) < x) a = c;
    else b = c;
  }
  return (a + b) / 2;
}
/* range of the curve's y values where x is in x-w..x+w */
static void bez_hull(const pnt* p, int n, double x, double w, double* lo, double* hi) {
  double px[4], py[4];
  for (int i = 0; i < n; i += 1) px[i] = p[i].x - p[0].x, py[i] = p[i].y;
  x -= p[0].x;
  double a = bez_t(px, n, x - w), b = bez_t(px, n, x + w);
  *lo = INFINITY;
  *hi = -INFINITY;
  for (int i = 0; i <= 64; i += 1) {
    double y = bez(py, n, a + (b - a) * i / 64);
    if (y < *lo) *lo = y;
    if (y > *hi) *hi = y;
  }
  double s = 0, r = *hi - *lo;
  for (int i = 0; i < n; i += 1) s = fmax(s, fabs(py[i]));
  *lo -= 1e-3 * r + 1e-9 * s + 1e-12;
  *hi += 1e-3 * r + 1e-9 * s + 1e-12;
}
/* control point of an arc: on the perpendicular through the midpoint, |c| = 1 at the border of the rectangle,
   positive towards the height of the first point */
static pnt arc_control(pnt a, pnt b, double c) {
  double w = b.x - a.x, h = b.y - a.y;
  pnt r = {(a.x + b.x) / 2, (a.y + b.y) / 2};
  if (h == 0 || w == 0) return r;
  /* direction with y towards a: (|h|, -+w) */
  double dx = fabs(h), dy = h > 0 ? -w : w;
  double t = fmin(w / 2 / fabs(dx), fabs(h) / 2 / fabs(dy));
  r.x += c * t * dx;
  r.y += c * t * dy;
  return r;
}
