// Orientation predicates over the reals: the determinants whose sign predicates.cpp
// (Shewchuk's adaptive arithmetic) computes exactly for doubles.
namespace dnt {
  double orient1d(double a, double b, double x) { if (x > std::max(a, b)) return 1; if (x < std::min(a, b)) return -1; return 0; }
  double _orient2d(const double* a, const double* b, const double* c)
  { return (a[0]-c[0])*(b[1]-c[1]) - (a[1]-c[1])*(b[0]-c[0]); }
  double _orient3d(const double* a, const double* b, const double* c, const double* d)
  {
    double ax = a[0]-d[0], bx = b[0]-d[0], cx = c[0]-d[0];
    double ay = a[1]-d[1], by = b[1]-d[1], cy = c[1]-d[1];
    double az = a[2]-d[2], bz = b[2]-d[2], cz = c[2]-d[2];
    return az*(bx*cy - cx*by) + bz*(cx*ay - ax*cy) + cz*(ax*by - bx*ay);
  }
  bool _collides_segment_point_1d(double p0, double p1, double point)
  { if (p0 > p1) std::swap(p0, p1); return p0 <= point && point <= p1; }
}
