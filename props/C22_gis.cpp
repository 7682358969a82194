//@ quickscale: 12
//@ sources: geometry/src/*.cpp
//@ fuzz: 200000
// C22: geographic conversions.
#include "pbt.h"
#include <rofl/geometry/gis.h>
#include <cmath>
#include <vector>

PBT_PROPERTY("C22",
             "random geodetic positions (poles, equator, date line, altitudes) against the WGS84 formulas in double precision; random origins "
             "and nearby points against the lengths of a degree on the ellipsoid and the documented harmonics, in both directions. "
             "Non-trivial: latitude and longitude both away from 0 by a degree.")

static const double A = 6378137.0, B = 6356752.3142, E2 = 1 - (B / A) * (B / A), RAD = M_PI / 180;

static float genLat(pbt::Ctx& c, int max) { return c.b(1, 4) ? (float)c.i(-max, max) : (float)c.i(-max * 10000, max * 10000) / 10000; }
static float genLon(pbt::Ctx& c) { return c.b(1, 4) ? (float)(c.i(-12, 12) * 15) : (float)c.i(-1800000, 1800000) / 10000; }

FACET(ecef, 400000, 8000000) {
    float lat = genLat(c, 90), lon = genLon(c), alt = c.b(1, 4) ? 0.f : (float)c.i(-10000, 100000) / 4, x = 0, y = 0, z = 0;
    if (c.b(1, 8)) alt *= 1000;  // up to satellites
    if (c.b(1, 6)) lon += c.b() ? 360.f : -360.f;  // longitudes counted from 0 to 360, or beyond
    NOTE("latitude " << lat << " longitude " << lon << " altitude " << alt);
    rofl::convertLatLonAltToECEF(lat, lon, alt, x, y, z);
    double sl = std::sin(lat * RAD), cl = std::cos(lat * RAD), N = A / std::sqrt(1 - E2 * sl * sl);
    double ex = (N + alt) * cl * std::cos(lon * RAD), ey = (N + alt) * cl * std::sin(lon * RAD), ez = ((1 - E2) * N + alt) * sl;
    double tol = (5 + 6e-7 * std::fabs(alt)) * (std::fabs(lon) > 180 ? 3 : 1);
    REQUIRE(std::fabs(x - ex) <= tol && std::fabs(y - ey) <= tol && std::fabs(z - ez) <= tol, "ECEF " << x << " " << y << " " << z << " expected " << ex << " " << ey << " " << ez);
    c.nontrivial(std::fabs(lat) > 1 && std::fabs(lon) > 1);
}
FACET(degrees, 300000, 5000000) {
    float lat = genLat(c, 90);
    NOTE("latitude " << lat);
    double p = lat * RAD, mLat = rofl::meterPerDegLat(lat), mLon = rofl::meterPerDegLon(lat);
    double aLat = 111132.09 - 566.05 * std::cos(2 * p) + 1.20 * std::cos(4 * p) - 0.002 * std::cos(6 * p), aLon = 111415.13 * std::cos(p) - 94.55 * std::cos(3 * p) + 0.12 * std::cos(5 * p);
    REQUIRE(std::fabs(mLat - aLat) <= 0.05 && std::fabs(mLon - aLon) <= 0.05, "meters per degree at " << lat << ": " << mLat << " " << mLon << " expected " << aLat << " " << aLon);
    double s = std::sin(p), w = 1 - E2 * s * s, eLat = RAD * A * (1 - E2) / std::pow(w, 1.5), eLon = RAD * A / std::sqrt(w) * std::cos(p);
    REQUIRE(std::fabs(mLat - eLat) <= 30 && std::fabs(mLon - eLon) <= 30, "meters per degree at " << lat << ": " << mLat << " " << mLon << " on the ellipsoid " << eLat << " " << eLon);
    c.nontrivial(std::fabs(lat) > 1);
}
FACET(local, 400000, 8000000) {
    float lat0 = c.b(1, 10) ? (float)(c.b() ? 1 : -1) * (float)c.i(85000, 89900) / 1000 : genLat(c, 85), lon0 = genLon(c), d = c.pick(std::vector<float>{0.01f, 0.01f, 1.f, 1.f, 20.f});
    float lat = lat0 + d * (float)c.i(-1000, 1000) / 1000, lon = lon0 + d * (float)c.i(-1000, 1000) / 1000, x = 0, y = 0, lat2 = 0, lon2 = 0;
    NOTE("origin " << lat0 << " " << lon0 << " point " << lat << " " << lon);
    rofl::convertLatLonToLocalXY(lat0, lon0, lat, lon, x, y);
    double p = lat0 * RAD;
    double eLat = 111132.09 - 566.05 * std::cos(2 * p) + 1.20 * std::cos(4 * p) - 0.002 * std::cos(6 * p), eLon = 111415.13 * std::cos(p) - 94.55 * std::cos(3 * p) + 0.12 * std::cos(5 * p);
    double dlat = (double)lat - lat0, dlon = (double)lon - lon0;
    // the length of a degree is rounded to float, as the differences are
    double tx = 0.05 * std::fabs(dlon) + 1e-6 * std::fabs(dlon * eLon) + 1e-3, ty = 0.05 * std::fabs(dlat) + 1e-6 * std::fabs(dlat * eLat) + 1e-3;
    REQUIRE(std::fabs(x - dlon * eLon) <= tx && std::fabs(y - dlat * eLat) <= ty, "local coordinates " << x << " " << y << " expected about " << dlon * eLon << " " << dlat * eLat);
    rofl::convertLocalXYToLatLon(lat0, lon0, x, y, lat2, lon2);
    REQUIRE(std::fabs(lat2 - lat) <= 3e-5 && std::fabs(lon2 - lon) <= 7e-5, "back to " << lat2 << " " << lon2 << " from " << lat << " " << lon);
    if (lat == lat0 && lon == lon0) REQUIRE(x == 0 && y == 0, "the origin is not at 0 0");
    c.nontrivial(std::fabs(lat0) > 1 && std::fabs(lon0) > 1 && dlat != 0 && dlon != 0);
}
