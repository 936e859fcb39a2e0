// The portable variant of Vector3d.cc, under another namespace, next to the SIMD one.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <iosfwd>
#include <limits>
#include <ostream>
#include <stdexcept>
#define NO_SIMD
#define lsst lsst_portable
#include "Vector3d.cc"
extern "C" double portable_normalize(double *p) {
    lsst::sphgeom::Vector3d v(p[0], p[1], p[2]);
    double n = v.normalize();
    p[0] = v.x();
    p[1] = v.y();
    p[2] = v.z();
    return n;
}
