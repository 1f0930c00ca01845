// Robot models used by the drivers: generated trees and reduced versions of the model shipped with the tests.
#pragma once
#include "pbt.h"
#include <iDynTree/Model/Model.h>
#include <iDynTree/Model/RevoluteJoint.h>
#include <iDynTree/Model/FreeFloatingState.h>
#include <iDynTree/ModelIO/ModelLoader.h>
#include <iDynTree/KinDynComputations.h>
#include <iDynTree/Core/EigenHelpers.h>
#include <Eigen/Dense>

namespace models {
using pbt::Gen;

inline iDynTree::Rotation rpy(double r, double p, double y) { return iDynTree::Rotation::RPY(r, p, y); }
inline iDynTree::Rotation genRotation(Gen& g) {
    if (g.chance(15)) return iDynTree::Rotation::Identity();
    return rpy(g.real(-3.1, 3.1), g.real(-1.5, 1.5), g.real(-3.1, 3.1));
}
inline iDynTree::Position genPosition(Gen& g, double s) { return iDynTree::Position(g.real(-s, s), g.real(-s, s), g.real(-s, s)); }

inline iDynTree::Link genLink(Gen& g, double massScale = 1.0) {
    iDynTree::Link l;
    double m = massScale * g.logReal(0.2, 8.0);
    iDynTree::Position c = genPosition(g, 0.2);
    // principal moments satisfying the triangle inequality, rotated, then moved to the link frame
    double a = g.real(0.01, 0.2), b = g.real(0.01, 0.2), d = g.real(0.01, 0.2);
    Eigen::Matrix3d R = iDynTree::toEigen(genRotation(g));
    Eigen::Matrix3d I = R * Eigen::Vector3d(b + d, a + d, a + b).asDiagonal() * R.transpose() * m * 0.1;
    Eigen::Vector3d cv = iDynTree::toEigen(c);
    I += m * (cv.squaredNorm() * Eigen::Matrix3d::Identity() - cv * cv.transpose());
    iDynTree::RotationalInertiaRaw ri;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ri(static_cast<unsigned>(i), static_cast<unsigned>(j)) = I(i, j);
    iDynTree::SpatialInertia si(m, c, ri);
    l.setInertia(si);
    return l;
}

struct TreeOptions { std::vector<std::string> frames{"l_sole", "r_sole", "neck_2"}; bool limits = true; std::vector<std::string> links, joints; };   // links, joints: names to use instead of the usual ones

// a free-floating tree with n revolute joints; every requested frame is attached, with an offset, to some link
inline iDynTree::Model genTree(Gen& g, unsigned n, const TreeOptions& opt = TreeOptions()) {
    iDynTree::Model m;
    auto linkName = [&](unsigned i) { return i < opt.links.size() ? opt.links[i] : i == 0 ? std::string("root_link") : "link" + std::to_string(i); };
    m.addLink(linkName(0), genLink(g, 2.0));
    std::vector<std::string> names{linkName(0)};
    for (unsigned i = 0; i < n; ++i) {
        std::string parent = g.chance(60) ? names.back() : names[g.below(names.size())];
        iDynTree::Transform X(genRotation(g), genPosition(g, 0.4));
        Eigen::Vector3d ax(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1));
        if (g.chance(40) || ax.norm() < 0.1) { ax.setZero(); ax(static_cast<long>(g.below(3))) = 1; }
        ax.normalize();
        iDynTree::Axis axis(iDynTree::Direction(ax(0), ax(1), ax(2)), genPosition(g, g.chance(30) ? 0.2 : 0.0));
        iDynTree::RevoluteJoint j(X, axis);
        if (opt.limits) { double lo = g.real(-3, 0), hi = g.real(0, 3); j.setPosLimits(0, lo, hi); j.enablePosLimits(g.chance(75)); }
        iDynTree::Link child = genLink(g);
        std::string nm = linkName(i + 1);
        m.addJointAndLink(parent, i < opt.joints.size() ? opt.joints[i] : "joint" + std::to_string(i), &j, nm, child);
        names.push_back(nm);
    }
    for (size_t k = 0; k < opt.frames.size(); ++k) {
        std::string l = names[g.below(names.size())];
        if (k == 0 && names.size() > 1) l = names.back();
        iDynTree::Transform X = g.chance(20) ? iDynTree::Transform::Identity() : iDynTree::Transform(genRotation(g), genPosition(g, 0.3));
        m.addAdditionalFrameToLink(l, opt.frames[k], X);
    }
    return m;
}

inline const std::vector<std::string>& icubJoints() {
    static std::vector<std::string> v{"torso_pitch", "torso_roll", "torso_yaw", "l_shoulder_pitch", "l_shoulder_roll", "l_shoulder_yaw", "l_elbow",
        "r_shoulder_pitch", "r_shoulder_roll", "r_shoulder_yaw", "r_elbow", "l_hip_pitch", "l_hip_roll", "l_hip_yaw", "l_knee", "l_ankle_pitch", "l_ankle_roll",
        "r_hip_pitch", "r_hip_roll", "r_hip_yaw", "r_knee", "r_ankle_pitch", "r_ankle_roll"};
    return v;
}
inline const iDynTree::Model& icub(const std::vector<std::string>& joints) {
    static std::map<std::string, iDynTree::Model> cache;
    std::string key; for (auto& j : joints) key += j + ",";
    auto it = cache.find(key);
    if (it == cache.end()) {
        iDynTree::ModelLoader ml;
        if (!ml.loadReducedModelFromFile(std::string(HARNESS_MODEL_DIR) + "/iCubGenova04.urdf", joints)) throw std::runtime_error("cannot load the test model");
        it = cache.emplace(key, ml.model()).first;
    }
    return it->second;
}
inline const iDynTree::Model& icubFull() { return icub(icubJoints()); }

inline double maxAbs(const Eigen::Ref<const Eigen::MatrixXd>& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0.0; }
} // namespace models
