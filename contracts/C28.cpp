// C28: stereo factors and landmarks of tracked features, optimisation and marginalisation.
// @sources: serpent/src/back_end/graph_manager.cpp
// @flags: -Icontracts/stubs_graph -Icontracts/stubs
// @strings: a|b|c
// @bounded: {"n":1}
// @boundedonly: stereo
#include "vp_graph.hpp"
// stereo features: a few features over frames whose keys need not follow each other
static gtsam::StereoPoint2 feature(long frame, long id) {
    const double l = vp_real_ij("l", frame, id), disparity = vp_real_near_ij("d", frame, id, 0.5, 60);
    vp_assume(disparity > 0);
    return {l, l - disparity, vp_real_ij("v", frame, id)};
}
CONTRACT(stereo) {
    serpent::GraphManager g;
    const int F = vp_native() ? 5 : 3, I = vp_native() ? 4 : 3;   // frames, features
    long key[5];
    for (int f = 0; f < F; ++f) key[f] = f ? key[f - 1] + vp_enum(N[f], 1, 2) : vp_enum("first", 0, 1);
    const long last = key[F - 1];
    gtsam::Cal3_S2Stereo K(vp_real_near("fx", 100, 800), vp_real_near("fy", 100, 800), 0, vp_real("u0"), vp_real("v0"), vp_real("b"));
    vp_assume(K.f_x > 0.1 && K.f_y > 0.1);
    g.set_stereo_calibration(K);
    g.set_body_to_stereo_left_cam_pose(pose(9));
    g.set_stereo_noise_model(noise(77));
    bool seen[5][4];
    // a feature is seen in consecutive frames: in the proof one in all three, one in the first or last two, one in a single frame
    const long one = vp_enum("one", 0, 1), two = vp_enum("two", 0, 2);
    for (int id = 0; id < I; ++id) {
        const long from = vp_native() ? vp_enum(AT[id], 0, F - 1) : id == 0 ? 0 : id == 1 ? one : two;
        const long to = vp_native() ? vp_enum(WHAT[id], from, F - 1) : id == 0 ? 2 : id == 1 ? one + 1 : two;
        for (int f = 0; f < F; ++f) seen[f][id] = from <= f && f <= to;
    }
    long landmark_since[4] = {-1, -1, -1, -1};   // the frame at which a landmark was added
    for (int f = 0; f < F; ++f) {
        g.set_pose(int(key[f]), pose(f));
        std::map<int, gtsam::StereoPoint2> features;
        for (int id = 0; id < I; ++id) {
            if (!seen[f][id]) continue;
            const auto z = feature(f, id);
            features.emplace(10 + id, z);
        }
        g.create_stereo_factors_and_values(int(key[f]), features);
        const auto made = g.factors(int(key[f]), int(key[f]));
        const auto fresh = g.extract_new_factors(int(key[f]));
        vp_ieq(long(fresh.size()), long(made.size()), "stereo-factors-handed-over");
        long j = 0;
        for (int id = 0; id < I; ++id) {
            if (f == 0 || !seen[f][id] || !seen[f - 1][id]) continue;
            if (f == 1 || !seen[f - 2][id]) {
                landmark_since[id] = f;
                if (j < long(made.size())) same_factor(*made[j], 5, {X(key[f - 1]), S(10 + id)}, gtsam::stereo_value(feature(f - 1, id)), 77, "stereo-factor-of-the-previous-frame");
                ++j;
            }
            if (j < long(made.size())) same_factor(*made[j], 5, {X(key[f]), S(10 + id)}, gtsam::stereo_value(feature(f, id)), 77, "stereo-factor-of-the-frame");
            ++j;
            const Eigen::Vector3d at = gtsam::StereoCamera(pose(f) * pose(9), boost::make_shared<gtsam::Cal3_S2Stereo>(K)).backproject(feature(f, id));
            same(g.stereo_landmark(10 + id), at, "landmark-where-the-feature-backprojects");
        }
        vp_ieq(long(made.size()), j, "stereo-factors-only-of-tracked-features");
        for (int id = 0; id < I; ++id) vp_ensure(g.has_stereo_landmark(10 + id) == (landmark_since[id] >= 0), "landmark-exactly-for-tracked-features");
        for (const auto& x : made) {
            const auto* s = static_cast<const gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>*>(x.get());
            vp_eq(s->K->f_x, K.f_x, "stereo-factor-calibration");
            vp_eq(s->K->b, K.b, "stereo-factor-calibration");
            vp_ensure(s->sensor.has_value(), "stereo-factor-camera-pose");
            if (s->sensor) same(*s->sensor, pose(9), "stereo-factor-camera-pose");
        }
    }
    // landmarks belong to the key at which they were added
    for (int f = 0; f < F; ++f) {
        long expected = 0;
        const auto marks = g.stereo_landmarks(int(key[f]));
        for (int id = 0; id < I; ++id) {
            vp_ensure((marks.find(10 + id) != marks.end()) == (landmark_since[id] == f), "landmarks-of-a-key");
            expected += landmark_since[id] == f;
        }
        vp_ieq(long(marks.size()), expected, "landmarks-of-a-key");
    }
    long all = 0;
    for (int id = 0; id < I; ++id) all += landmark_since[id] >= 0;
    vp_ieq(long(g.stereo_landmarks().size()), all, "landmarks-of-all-keys");
    for (long first = 0; first <= last; ++first)
        for (int f = 0; f < F; ++f) {
            if (key[f] < first) continue;
            const auto some = g.values(int(first), int(key[f]));
            long expected = 0;
            for (int e = 0; e < F; ++e) expected += key[e] >= first && e <= f;
            for (int id = 0; id < I; ++id) {
                const bool wanted = landmark_since[id] >= 0 && landmark_since[id] <= f && key[landmark_since[id]] >= first;
                expected += wanted;
                vp_ensure(some.exists(S(10 + id)) == wanted, "landmarks-between-two-keys");
            }
            vp_ieq(long(some.size()), expected, "landmarks-between-two-keys");
        }
    // the landmarks are handed over with the key at which they were added
    for (int f = 0; f < F; ++f) {
        const auto fresh = g.extract_new_values(int(key[f]));
        long expected = 1;
        for (int id = 0; id < I; ++id) {
            vp_ensure(fresh.exists(S(10 + id)) == (landmark_since[id] == f), "landmarks-handed-over-once");
            expected += landmark_since[id] == f;
        }
        vp_ieq(long(fresh.size()), expected, "landmarks-handed-over-once");
    }
}
CONTRACT(stereo_refused) {
    serpent::GraphManager g;
    g.set_stereo_calibration(gtsam::Cal3_S2Stereo());
    g.set_body_to_stereo_left_cam_pose(pose(9));
    const std::map<int, gtsam::StereoPoint2> features;
    const long k = vp_int("k", 0, 1000);
    g.create_stereo_factors_and_values(int(k), features);
    bool twice = false, no_pose = false;
    try { g.create_stereo_factors_and_values(int(k), features); } catch (const std::runtime_error&) { twice = true; }
    vp_ensure(twice, "features-of-a-key-given-twice-refused");
    try { g.create_stereo_factors_and_values(int(k + 1), features); } catch (const std::runtime_error&) { no_pose = true; }
    vp_ensure(no_pose, "features-of-a-key-without-pose-refused");
}
// optimisation: three states chained, optimised one after the other (or several at once), with a window
CONTRACT(optimise) {
    serpent::ISAM2GraphManager g{gtsam::ISAM2Params()};
    g.optimiser.shift = vp_real("shift");
    const bool windowed = vp_enum("windowed", 0, 1);
    const long window = vp_enum("window", 0, vp_native() ? 4 : 2);
    g.set_marginalisation(windowed, unsigned(window));
    vp_ieq(g.opt_key(), -1, "nothing-optimised-at-first");
    vp_ieq(g.marginalisation_key(), -1, "nothing-marginalised-at-first");
    bool threw = false;
    try { g.marginalise(0); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "marginalising-before-optimising-refused");
    long done = -1;
    const int S_ = vp_native() ? 6 : 3;
    double expected[6] = {};
    for (int k = 0; k < S_; ++k) {
        if (windowed && window == 0 && done >= 0) break;   // the previous state is gone: nothing left to connect to
        g.set_pose(k, pose(k));
        expected[k] = pose(k).t[0];
        if (k == 0) g.create_prior_pose_factor(0, pose(0), noise(1));
        else g.create_between_pose_factor(k, pose(k), noise(1 + k));
        if (k < S_ - 1 && vp_enum(N[k], 0, 1)) continue;   // optimised with the next one
        const long max = k;
        const auto r = g.optimise(int(max));
        vp_ieq(r.factors, max - done, "optimisation-given-every-new-factor");
        vp_ieq(r.values, max - done, "optimisation-given-every-new-value");
        const long gone = windowed && done >= window ? done - window : -1;   // marginalised before: no longer updated
        for (int j = 0; j <= k; ++j)
            if (j > gone) expected[j] += vp_real("shift");
        for (int j = 0; j <= k; ++j) vp_eq(g.pose(j).t[0], expected[j], "state-updated-by-the-optimisation");
        done = max;
        vp_ieq(g.opt_key(), done, "optimised-up-to-the-key");
        const long last = windowed && done >= window ? done - window : -1;
        vp_ieq(g.marginalisation_key(), last, "marginalised-up-to-the-window");
        vp_ieq(long(g.optimiser.marginalised.size()), last + 1, "window-keys-stay-unmarginalised");
        for (long j = 0; j <= k; ++j) vp_ensure(g.optimiser.held.exists(X(j)) == (j > last), "window-keys-stay-unmarginalised");
    }
    bool early = false;
    try { g.marginalise(int(g.opt_key() + 1)); } catch (const std::runtime_error&) { early = true; }
    vp_ensure(early, "marginalising-before-optimising-refused");
}
CONTRACT(covariances) {
    serpent::ISAM2GraphManager g{gtsam::ISAM2Params()};
    Model m;
    for (int what = 0; what < 4; ++what) operate(g, m, what, what, 1);
    g.optimise(1);
    for (int r = 0; r < 6; ++r)
        for (int c = 0; c < 6; ++c) {
            vp_eq(g.pose_covariance(1)(r, c), g.optimiser.marginalCovariance(X(1))(r, c), "pose-covariance");
            vp_eq(g.imu_bias_covariance(1)(r, c), g.optimiser.marginalCovariance(B(1))(r, c), "bias-covariance");
            vp_eq(g.covariance(B(1))(r, c), g.optimiser.marginalCovariance(B(1))(r, c), "covariance-of-a-variable");
            if (r < 3 && c < 3) vp_eq(g.velocity_covariance(1)(r, c), g.optimiser.marginalCovariance(V(1))(r, c), "velocity-covariance");
        }
    vp_eq(g.barometer_bias_variance(1)(0, 0), g.optimiser.marginalCovariance(P(1))(0, 0), "barometer-bias-variance");
}
