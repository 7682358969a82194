//@ quickscale: 40
//@ sources: common/src/*.cpp
//@ libs: pcl_common
//@ fuzz: 100000
// C27: alignment of a point cloud with a plane.
#include "pbt.h"
#include <pcl/point_types.h>
#include <rofl/pcl/point_cloud_plane_aligner.h>
#include <cmath>
#include <limits>

PBT_PROPERTY("C27",
             "random planes (axis aligned, near ties of the largest component, through the origin, any orientation sign and scale) and clouds "
             "of points on, near and far from the plane, checked in double precision: rigid motion, normal along +Z, heights, inlier "
             "centroid, orientation toward the origin; the same object used for several clouds and planes. Non-trivial: normal not an "
             "axis and at least 2 points.")

static void setTag(pcl::PointXYZ&, float) {}
static void setTag(pcl::PointXYZI& p, float v) { p.intensity = v; }
static bool hasTag(const pcl::PointXYZ&, float) { return true; }
static bool hasTag(const pcl::PointXYZI& p, float v) { return p.intensity == v; }
template <class P>
static void run(pbt::Ctx& c) {
    using Al = rofl::PointCloudPlaneAligner<P>;
    Al al;
    size_t rounds = 1 + c.small(3);
    bool nt = false;
    float tol = 0.02f;  // documented default of the class
    double unit = c.b(2, 3) ? 1 : std::ldexp(1.0, (int)c.i(-12, 8));  // of all the lengths
    for (size_t round = 0; round < rounds; ++round) {
        // the plane n.p + d = 0, |n| = 1
        Eigen::Vector3d n;
        switch (c.w({3, 1, 2})) {
            case 0: n << (double)c.i(-100, 100), (double)c.i(-100, 100), (double)c.i(-100, 100); break;
            case 1: n << (double)c.i(-1, 1), (double)c.i(-1, 1), (double)c.i(-1, 1); break;
            default: n << (double)c.i(-3, 3), (double)c.i(-3, 3), (double)c.i(-3, 3); break;
        }
        if (n.norm() == 0) n << 0, 0, 1;
        n.normalize();
        double d = c.b(1, 6) ? 0 : c.b(1, 4) ? (c.b() ? 1 : -1) * std::ldexp(1.0 + (double)c.u(1000) / 1000, -(int)c.u(30)) : (double)c.i(-4000, 4000) / 100;
        d *= unit;
        double scale = c.b(2, 3) ? 1 : std::ldexp(1.0, (int)c.i(-6, 6));
        if (c.b(1, 3) || (unit != 1 && round == 0)) tol = 0.01f * (float)(1 + c.u(20)) * (float)unit, al.setPlaneTol(tol);
        // clear distances for every reading of the tolerance on scaled coefficients
        double in = (scale == 1 ? 0.97 : 0.5) * tol / std::max(1.0, scale), out = (scale == 1 ? 1.03 : 2) * tol / std::min(1.0, scale);
        rofl::Vector4 coeff;
        coeff << (float)(n(0) * scale), (float)(n(1) * scale), (float)(n(2) * scale), (float)(d * scale);
        Eigen::Vector3d a = n.unitOrthogonal(), b = n.cross(a);
        typename Al::PointCloud::Ptr cloud(new typename Al::PointCloud);
        size_t num = c.b(1, 40) ? c.len(13, 400) : c.len(0, 12);
        Eigen::Vector3d sum(0, 0, 0);
        size_t inl = 0;
        bool holes = c.b(1, 4);
        NOTE("plane " << coeff.transpose() << " tolerance " << tol);
        for (size_t i = 0; i < num; ++i) {
            bool isIn = c.b(2, 3);
            double h = (isIn ? in * (double)c.i(-100, 100) / 100 : (c.b() ? 1 : -1) * (out + (c.b() ? 0 : (double)c.i(0, 1000) / 100 * unit)));
            Eigen::Vector3d q = a * ((double)c.i(-1000, 1000) / 50 * unit) + b * ((double)c.i(-1000, 1000) / 50 * unit) + n * (h - d);
            P p;
            setTag(p, (float)i + 0.5f);
            p.x = (float)q(0), p.y = (float)q(1), p.z = (float)q(2);
            if (holes && c.b(1, 5)) {  // no measurement
                int k = (int)c.u(4);
                const float nan = std::numeric_limits<float>::quiet_NaN();
                if (k == 0 || k == 3) p.x = nan;
                if (k == 1 || k == 3) p.y = nan;
                if (k == 2 || k == 3) p.z = nan;
                cloud->points.push_back(p);
                cloud->is_dense = false;
                NOTE("no measurement " << p.x << " " << p.y << " " << p.z);
                continue;
            }
            cloud->points.push_back(p);
            NOTE((isIn ? "inlier " : "outlier ") << p.x << " " << p.y << " " << p.z);
            if (isIn) sum += q, ++inl;
        }
        cloud->width = (uint32_t)num, cloud->height = 1;
        al.setInputCloud(cloud);
        al.setPlaneCoeffs(coeff);
        rofl::Vector4 pl = al.getPlaneCoeffs();
        REQUIRE((pl - coeff).norm() <= 1e-6 * coeff.norm() || (pl + coeff).norm() <= 1e-6 * coeff.norm(), "getPlaneCoeffs is " << pl.transpose());
        REQUIRE(pl(3) >= 0, "the plane does not look toward the origin: " << pl.transpose());
        Eigen::Vector3d nz = (pl - coeff).norm() <= 1e-6 * coeff.norm() ? n : Eigen::Vector3d(-n);
        al.compute();
        Eigen::Matrix4d M = al.getTransform().matrix().template cast<double>();
        Eigen::Matrix3d R = M.topLeftCorner<3, 3>();
        REQUIRE((R * R.transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-5 && std::fabs(R.determinant() - 1) < 1e-5, "not a rotation:\n" << R);
        REQUIRE((M.row(3) - Eigen::RowVector4d(0, 0, 0, 1)).norm() == 0, "not an affine transform");
        REQUIRE((R * nz - Eigen::Vector3d::UnitZ()).norm() < 1e-5, "the plane normal maps to " << (R * nz).transpose());
        typename Al::PointCloud outc;
        al.transform(outc);
        REQUIRE(outc.points.size() == num, "the transformed cloud has " << outc.points.size() << " points of " << num);
        double ext = 100 * unit + std::fabs(d) + out, eps = 2e-5 * ext;
        for (size_t i = 0; i < num; ++i) {
            const P &p = cloud->points[i], &q = outc.points[i];
            Eigen::Vector3d pv(p.x, p.y, p.z), qv(q.x, q.y, q.z), e = R * pv + M.topRightCorner<3, 1>();
            REQUIRE(hasTag(q, (float)i + 0.5f), "the intensity of point " << i << " changes");
            REQUIRE(hasTag(p, (float)i + 0.5f), "the input cloud changes");
            if (!std::isfinite(p.x + p.y + p.z)) continue;
            REQUIRE((qv - e).norm() < eps, "point " << i << " maps to " << qv.transpose() << " expected " << e.transpose());
            REQUIRE(std::fabs(qv(2) - nz.dot(pv)) < eps, "height of point " << i << " is " << qv(2) << " expected " << nz.dot(pv));
            if (i && std::isfinite(cloud->points[i - 1].x + cloud->points[i - 1].y + cloud->points[i - 1].z)) {
                const P &p0 = cloud->points[i - 1], &q0 = outc.points[i - 1];
                double dp = (pv - Eigen::Vector3d(p0.x, p0.y, p0.z)).norm(), dq = (qv - Eigen::Vector3d(q0.x, q0.y, q0.z)).norm();
                REQUIRE(std::fabs(dp - dq) < eps, "the distance between points " << i - 1 << " and " << i << " changes from " << dp << " to " << dq);
            }
        }
        // the centroid of the inliers is at x = y = 0; without inliers the origin stays there
        Eigen::Vector3d cen = inl ? Eigen::Vector3d(sum / (double)inl) : Eigen::Vector3d(0, 0, 0), mc = R * cen + M.topRightCorner<3, 1>();
        REQUIRE(std::hypot(mc(0), mc(1)) < eps * 2, "the centroid of the inliers maps to " << mc.transpose());
        nt = nt || (n.cwiseAbs().maxCoeff() < 0.999 && num >= 2);
        c.label(inl == 0 ? "no inliers" : inl == num ? "all inliers" : "mixed");
    }
    c.nontrivial(nt);
}
FACET(xyz, 60000, 1500000) { run<pcl::PointXYZ>(c); }
FACET(xyzi, 30000, 600000) { run<pcl::PointXYZI>(c); }
