// Reference store of graph contents: what has been told so far, and what has not yet been given to an optimiser.
#pragma once
#include <gtsam/inference/Symbol.h>
#include <gtsam/navigation/BarometricFactor.h>
#include <gtsam/navigation/CombinedImuFactor.h>
#include <gtsam/nonlinear/ISAM2.h>
#include <gtsam/slam/BetweenFactor.h>
#include <gtsam/slam/PriorFactor.h>
#include <gtsam/slam/StereoFactor.h>
#include <ros/time.h>

#include "gen.hpp"

namespace ledger {
using gtsam::Key;
typedef gtsam::NonlinearFactor::shared_ptr FactorPtr;
typedef std::map<int, gtsam::StereoPoint2> Features;
inline Key sym(char c, int i) { return gtsam::Symbol(c, i); }

// What the store has been told so far.
struct Ledger {
    gtsam::Values values;
    std::map<int, ros::Time> times;
    std::map<int, std::vector<FactorPtr>> factors;
    std::map<std::string, std::pair<int, unsigned>> names;
    std::map<int, Features> features;
    std::map<int, std::set<int>> landmarks;  // key at which they were added
    std::set<Key> fresh;                     // values not yet given to the optimiser
    std::map<int, std::vector<FactorPtr>> fresh_factors;
    std::map<int, std::set<int>> fresh_landmarks;
    gtsam::Pose3 cam;
    boost::shared_ptr<gtsam::Cal3_S2Stereo> K;
    gtsam::SharedNoiseModel stereo_noise;

    template<typename T> void put(Key k, const T& v) { if (values.exists(k)) values.update(k, v); else { values.insert(k, v); fresh.insert(k); } }
    void add(int k, const FactorPtr& f) { factors[k].push_back(f); fresh_factors[k].push_back(f); }
    gtsam::Point3 point(int k, const gtsam::StereoPoint2& z) const {
        const double depth = K->fx() * K->baseline() / (z.uL() - z.uR());
        const gtsam::Point3 p((z.uL() - K->px()) * depth / K->fx(), (z.v() - K->py()) * depth / K->fy(), depth);
        return values.at<gtsam::Pose3>(sym('x', k)).transformFrom(cam.transformFrom(p));
    }
    FactorPtr stereo(int k, int id, const gtsam::StereoPoint2& z) const {
        return boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(z, stereo_noise, sym('x', k), sym('s', id), K, cam);
    }
    // false if a feature is reacquired
    bool observe(int k, const Features& f) {
        const Features *one = nullptr, *two = nullptr;
        int prev = 0;
        auto it = features.rbegin();
        if (it != features.rend()) { one = &it->second; prev = it->first; if (++it != features.rend()) two = &it->second; }
        if (one)
            for (const auto& e : f)
                if (one->count(e.first) && !(two && two->count(e.first)) && values.exists(sym('s', e.first))) return false;
        if (one)
            for (const auto& e : f) {
                if (!one->count(e.first)) continue;
                if (!(two && two->count(e.first))) { add(k, stereo(prev, e.first, one->at(e.first))); landmarks[k].insert(e.first); fresh_landmarks[k].insert(e.first); }
                add(k, stereo(k, e.first, e.second));
                put(sym('s', e.first), point(k, e.second));
            }
        features[k] = f;
        return true;
    }
    std::vector<FactorPtr> take_factors(int max) {
        std::vector<FactorPtr> r;
        while (!fresh_factors.empty() && fresh_factors.begin()->first <= max) { for (auto& f : fresh_factors.begin()->second) r.push_back(f); fresh_factors.erase(fresh_factors.begin()); }
        return r;
    }
    gtsam::Values take_values(int max) {
        gtsam::Values r;
        std::set<Key> taken;
        for (Key k : fresh) { const gtsam::Symbol y(k); if (y.chr() != 's' && static_cast<int>(y.index()) <= max) taken.insert(k); }
        while (!fresh_landmarks.empty() && fresh_landmarks.begin()->first <= max) { for (int id : fresh_landmarks.begin()->second) taken.insert(sym('s', id)); fresh_landmarks.erase(fresh_landmarks.begin()); }
        for (Key k : taken) { r.insert(k, values.at(k)); fresh.erase(k); }
        return r;
    }
};

inline void same_values(const gtsam::Values& got, const gtsam::Values& want, const std::string& what, double tol = 1e-6) {
    for (Key k : want.keys()) CHECK(got.exists(k), what, ": ", gtsam::DefaultKeyFormatter(k), " is missing");
    for (Key k : got.keys()) {
        CHECK(want.exists(k), what, ": unexpected ", gtsam::DefaultKeyFormatter(k));
        const double d = got.at(k).localCoordinates_(want.at(k)).norm();
        const double scale = gtsam::Symbol(k).chr() == 's' ? 1.0 + want.at<gtsam::Point3>(k).norm() : 1.0;
        CHECK(d <= tol * scale, what, ": value of ", gtsam::DefaultKeyFormatter(k), " differs by ", d);
    }
}
}
