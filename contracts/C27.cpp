// C27: the graph manager keeps every value, factor and time under its key and hands each over exactly once.
// @sources: serpent/src/back_end/graph_manager.cpp
// @flags: -Icontracts/stubs_graph -Icontracts/stubs
// @strings: a|b|c
// @bounded: {"n":1}
// @bounded: {"n":2}
// @boundedonly: values new_values factor_history unmarginalised
#include "vp_graph.hpp"
static void same_values(const gtsam::Values& got, const Model& m, long first, long last, bool only_new, const char* count, const char* label) {
    long expected = 0;
    for (int kind = 0; kind < 4; ++kind)
        for (long k = 0; k < KEYS; ++k) {
            const bool wanted = m.set[kind][k] && first <= k && k <= last && !(only_new && m.handed[kind][k]);
            expected += wanted;
            if (wanted && got.exists(Model::key(kind, k))) same(got.at(Model::key(kind, k)), m.value[kind][k], label);
            vp_ensure(got.exists(Model::key(kind, k)) == wanted, count);
        }
    vp_ieq(long(got.size()), expected, count);
}
CONTRACT(values) {
    const long n = vp_len("n", 1, 6);
    serpent::GraphManager g;
    Model m;
    for (long i = 0; i < n && i < 6; ++i) operate(g, m, i, choice(WHAT, i, 0, 4), choice(AT, i, 0, vp_native() ? 3 : 1));
    for (long k = 0; k < KEYS; ++k) {
        vp_ensure(g.has_pose(int(k)) == m.set[0][k], "pose-known-exactly-when-set");
        if (m.set[0][k]) same(g.pose(int(k)), m.value[0][k], "pose-is-the-last-set");
        if (m.set[1][k]) same(g.velocity(int(k)), m.value[1][k], "velocity-is-the-last-set");
        if (m.set[2][k]) same(g.imu_bias(int(k)), m.value[2][k], "bias-is-the-last-set");
        if (m.set[3][k]) same(g.barometer_bias(int(k)), m.value[3][k], "barometer-bias-is-the-last-set");
        if (m.set[0][k] && m.set[1][k]) {
            const gtsam::NavState s = g.navstate(int(k));
            same(s.pose(), m.value[0][k], "navigation-state-is-pose-and-velocity");
            same(s.velocity(), m.value[1][k], "navigation-state-is-pose-and-velocity");
        }
    }
    same_values(g.values(), m, 0, KEYS, false, "all-values", "all-values");
    for (long f = 0; f < 3; ++f)
        for (long l = f; l < 3; ++l) same_values(g.values(int(f), int(l)), m, f, l, false, "values-between-two-keys", "values-between-two-keys");
}
CONTRACT(missing) {
    serpent::GraphManager g;
    g.set_pose(1, pose(0));
    int refused = 0;
    try { g.pose(0); } catch (const std::exception&) { ++refused; }
    try { g.velocity(1); } catch (const std::exception&) { ++refused; }
    try { g.imu_bias(1); } catch (const std::exception&) { ++refused; }
    try { g.barometer_bias(1); } catch (const std::exception&) { ++refused; }
    try { g.timestamp(1); } catch (const std::exception&) { ++refused; }
    try { g.key("a"); } catch (const std::exception&) { ++refused; }
    vp_ieq(refused, 6, "unset-refused");
    same_values(g.values(0, 0), Model(), 0, 0, false, "values-between-two-keys", "values-between-two-keys");
    vp_ieq(long(g.values(1, 5).size()), 1, "values-between-two-keys");
    vp_ieq(long(g.values(2, 5).size()), 0, "values-between-two-keys");
}
// values are handed over once, with the value they had last
CONTRACT(new_values) {
    const long n = vp_len("n", 1, 5);
    serpent::GraphManager g;
    Model m;
    for (long i = 0; i < n && i < 5; ++i) {
        operate(g, m, i, choice(WHAT, i, 0, 4), choice(AT, i, 0, vp_native() ? 3 : 1));
        if (vp_enum(N[i], 0, 1)) {
            const long max = vp_enum(i % 2 ? "m1" : "m0", 0, vp_native() ? 3 : 1);
            same_values(g.extract_new_values(int(max)), m, 0, max, true, "values-handed-over-once", "value-handed-over-is-the-last-set");
            for (int kind = 0; kind < 4; ++kind) for (long k = 0; k <= max; ++k) m.handed[kind][k] |= m.set[kind][k];
        }
    }
    same_values(g.extract_new_values(KEYS), m, 0, KEYS, true, "values-handed-over-once", "value-handed-over-is-the-last-set");
    vp_ieq(long(g.extract_new_values(KEYS).size()), 0, "values-handed-over-once");
    same_values(g.values(), m, 0, KEYS, false, "values-handed-over-are-kept", "values-handed-over-are-kept");
}
CONTRACT(unmarginalised) {
    const long n = vp_len("n", 1, 5);
    serpent::GraphManager g;
    Model m;
    for (long i = 0; i < n && i < 5; ++i) operate(g, m, i, choice(WHAT, i, 0, 4), choice(AT, i, 0, vp_native() ? 3 : 1));
    const long max = vp_enum("m", 0, 1);
    for (int round = 0; round < 2; ++round) {
        const auto keys = g.extract_unmarginalised_keys(int(round ? KEYS : max));
        long expected = 0;
        for (int kind = 0; kind < 4; ++kind)
            for (long k = 0; k < KEYS; ++k) {
                long count = 0;
                for (Key key : keys) count += key == Model::key(kind, k);
                const bool wanted = m.set[kind][k] && (round ? k > max : k <= max);
                expected += wanted;
                vp_ieq(count, wanted, "each-key-marginalised-once");
            }
        vp_ieq(long(keys.size()), expected, "each-key-marginalised-once");
    }
}
// one factor of any kind at any key
static void create(serpent::GraphManager& g, long what, long k, long i) {
    const auto m = noise(100 + i);
    gtsam::PreintegratedCombinedMeasurements p;
    p.id = i;
    switch (what) {
        case 0: g.create_prior_pose_factor(int(k), pose(i), m); break;
        case 1: g.create_prior_velocity_factor(int(k), vec(i, 0), m); break;
        case 2: g.create_prior_imu_bias_factor(int(k), bias(i), m); break;
        case 3: g.create_prior_barometer_bias_factor(int(k), number(i), m); break;
        case 4: g.create_between_pose_factor(int(k), pose(i), m); break;
        case 5: g.create_combined_imu_factor(int(k), p); break;
        case 6: vp_eq(g.create_barometric_factor(int(k), number(i), m), 7.0 * number(i) - 3.0, "barometric-factor-returns-the-height"); break;
        default: g.create_barometric_bias_factor(int(k), m);
    }
}
static void created(const gtsam::NonlinearFactor& f, long what, long k, long i, const char* label) {
    switch (what) {
        case 0: same_factor(f, 2, {X(k)}, pose(i), 100 + i, label); break;
        case 1: same_factor(f, 2, {V(k)}, vec(i, 0), 100 + i, label); break;
        case 2: same_factor(f, 2, {B(k)}, bias(i), 100 + i, label); break;
        case 3: same_factor(f, 2, {P(k)}, number(i), 100 + i, label); break;
        case 4: same_factor(f, 1, {X(k - 1), X(k)}, pose(i), 100 + i, label); break;
        case 5: same_factor(f, 4, {X(k - 1), V(k - 1), X(k), V(k), B(k - 1), B(k)}, double(i), 0, label); break;
        case 6: same_factor(f, 3, {X(k), P(k)}, number(i), 100 + i, label); break;
        default: same_factor(f, 1, {P(k - 1), P(k)}, 0.0, 100 + i, label);
    }
}
CONTRACT(factor) {
    const long what = vp_enum("what", 0, 7), k = vp_int("key", 1, 1000000);
    serpent::GraphManager g;
    create(g, what, k, 1);
    const auto all = g.factors(int(k), int(k));
    vp_ieq(long(all.size()), 1, "factor-kept-at-its-key");
    if (all.size() == 1) created(*all[0], what, k, 1, "factor-connects-what-it-names");
    const auto fresh = g.extract_new_factors(int(k));
    vp_ieq(long(fresh.size()), 1, "factor-handed-over-at-its-key");
    if (fresh.size() == 1) created(*fresh[0], what, k, 1, "factor-connects-what-it-names");
}
CONTRACT(factor_history) {
    const long n = vp_len("n", 1, 6);
    serpent::GraphManager g;
    long what[6], at[6], handed[6] = {};
    for (long i = 0; i < n && i < 6; ++i) {
        what[i] = choice(WHAT, i, 0, vp_native() ? 7 : 1);
        at[i] = choice(AT, i, 0, vp_native() ? 3 : 1);
        vp_assume(at[i] > 0 || what[i] < 4);   // nothing precedes key 0
        create(g, what[i], at[i], i);
        const long max = vp_enum(N[i], -1, vp_native() ? 3 : 1);   // -1: nothing handed over
        const auto fresh = g.extract_new_factors(int(max));
        long expected = 0;
        for (long j = 0; j <= i; ++j) {
            if (handed[j] || at[j] > max) continue;
            handed[j] = 1;
            ++expected;
            long found = 0;
            for (const auto& f : fresh) found += f->measured.type == 5 ? 0 : (f->noise ? f->noise->id == 100 + j : f->kind == 4 && f->measured.d[0] == double(j));
            vp_ieq(found, 1, "factors-handed-over-once");
        }
        vp_ieq(long(fresh.size()), expected, "factors-handed-over-once");
    }
    for (long f = 0; f < 4; ++f)
        for (long l = f; l < 4; ++l) {
            const auto some = g.factors(int(f), int(l));
            long j = 0, expected = 0;
            for (long k = f; k <= l; ++k)
                for (long i = 0; i < n && i < 6; ++i) {
                    if (at[i] != k) continue;
                    if (j < long(some.size())) created(*some[j], what[i], k, i, "factors-between-two-keys");
                    ++j;
                }
            vp_ieq(long(some.size()), j, "factors-between-two-keys");
        }
    vp_ieq(long(g.all_factors().size()), n < 6 ? n : 6, "factors-handed-over-are-kept");
}
CONTRACT(factors_of_a_key) {
    serpent::GraphManager g;
    const long a = vp_enum("a", 0, 7), b = vp_enum("b", 0, 7);
    create(g, a, 1, 1);
    create(g, b, 2, 2);
    for (int kind = 0; kind < 4; ++kind)
        for (long k = 0; k < 3; ++k) {
            const auto some = g.factors_for_key(Model::key(kind, k));
            long expected = 0;
            for (const auto& f : g.all_factors()) expected += f->find(Model::key(kind, k)) != f->end();
            vp_ieq(long(some.size()), expected, "factors-of-a-variable");
            for (const auto& f : some) vp_ensure(f->find(Model::key(kind, k)) != f->end(), "factors-of-a-variable");
        }
}
CONTRACT(named_keys) {
    serpent::GraphManager g;
    const long a = vp_int("a", 0, 1000), b = vp_int("b", 0, 1000), offset = vp_int("offset", -1000, 1000);
    const long pa = vp_int("pa", 0, 10), pb = vp_int("pb", 0, 10), p = vp_int("p", 0, 10);
    g.set_named_key("a", 5, 7);
    g.set_named_key("b", int(b), unsigned(pb));
    g.set_named_key("a", int(a), unsigned(pa));
    vp_ieq(g.key("a"), a, "named-key-is-the-last-set");
    vp_ieq(long(g.priority("a")), pa, "priority-is-the-last-set");
    vp_ieq(g.key("b", int(offset)), b + offset, "named-key-with-offset");
    bool threw = false;
    long least = 0;
    try { least = g.minimum_key(unsigned(p)); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw == (pa > p && pb > p), "minimum-refused-exactly-when-no-key-has-the-priority");
    if (!threw) {
        vp_ensure(!(pa <= p) || least <= a, "minimum-over-the-keys-of-the-priority");
        vp_ensure(!(pb <= p) || least <= b, "minimum-over-the-keys-of-the-priority");
        vp_ensure((pa <= p && least == a) || (pb <= p && least == b), "minimum-over-the-keys-of-the-priority");
    }
    g.increment("a");
    vp_ieq(g.key("a"), a + 1, "increment-by-one");
    vp_ieq(g.key("b"), b, "increment-leaves-the-others");
    vp_ieq(long(g.priority("a")), pa, "increment-keeps-the-priority");
    bool unknown = false;
    try { g.increment("c"); } catch (const std::exception&) { unknown = true; }
    vp_ensure(unknown, "unknown-name-refused");
}
// every function of a name and an offset is that of the key they stand for
CONTRACT(named_access) {
    serpent::GraphManager g;
    const long a = vp_enum("a", 1, 2), o = vp_enum("offset", -1, 1), k = a + o;
    g.set_named_key("a", int(a));
    g.set_named_key("b", 3);
    g.set_pose("a", pose(0), int(o));
    g.set_velocity("a", vec(0, 3), int(o));
    g.set_imu_bias("a", bias(0), int(o));
    g.set_barometer_bias("a", number(0), int(o));
    ros::Time t, u;
    t.ns = vp_int("t", 0, 4000000000000000000l);
    u.ns = vp_int("u", 0, 4000000000000000000l);
    g.set_timestamp("a", t, int(o));
    g.set_timestamp("b", u);
    same(g.pose(int(k)), pose(0), "named-pose");
    same(g.pose("a", int(o)), pose(0), "named-pose");
    vp_ensure(g.has_pose("a", int(o)), "named-pose");
    same(g.velocity(int(k)), vec(0, 3), "named-velocity");
    same(g.velocity("a", int(o)), vec(0, 3), "named-velocity");
    same(g.imu_bias(int(k)), bias(0), "named-bias");
    same(g.imu_bias("a", int(o)), bias(0), "named-bias");
    same(g.barometer_bias(int(k)), number(0), "named-barometer-bias");
    same(g.barometer_bias("a", int(o)), number(0), "named-barometer-bias");
    if (k != 3) vp_ensure(g.timestamp(int(k)) == t && g.timestamp("a", int(o)) == t, "named-timestamp");
    vp_ensure(g.timestamp("b") == u && g.timestamp(3) == u, "named-timestamp");
    if (k != 3) {
        vp_ieq(g.time_between("a", "b", int(o)).ns, u.ns - t.ns, "time-between");
        vp_ieq(g.time_between("b", "a", 0, int(o)).ns, t.ns - u.ns, "time-between");
        vp_ieq(g.time_between(int(k), 3).ns, u.ns - t.ns, "time-between");
        const serpent::RobotState s = g.state("a", int(o));
        vp_ensure(s.timestamp() == t, "state-timestamp");
        same(s.pose(), pose(0), "state-pose");
        same(s.velocity(), vec(0, 3), "state-velocity");
        same(s.imu_bias(), bias(0), "state-bias");
        vp_eq(s.barometer_bias(), number(0), "state-barometer-bias");
        same(s.navstate().pose(), pose(0), "state-pose");
        same(s.navstate().velocity(), vec(0, 3), "state-velocity");
    }
    g.set_navstate("a", gtsam::NavState(pose(1), vec(1, 0)), int(o));
    same(g.navstate("a", int(o)).pose(), pose(1), "named-navigation-state");
    same(g.navstate(int(k)).velocity(), vec(1, 0), "named-navigation-state");
}
CONTRACT(timestamps) {
    serpent::GraphManager g;
    const long i = vp_int("i", 0, 1000), j = vp_int("j", 0, 1000), k = vp_int("k", 0, 1000);
    const long order = vp_enum("order", 0, 2), other = vp_enum("other", 0, 4);
    vp_assume(order == 0 ? i < j : order == 1 ? i == j : i > j);
    const long low = i < j ? i : j, high = i < j ? j : i;
    vp_assume(other == 0 ? k < low : other == 1 ? k == low : other == 2 ? low < k && k < high : other == 3 ? k == high : high < k);
    ros::Time t, u;
    t.ns = vp_int("t", 0, 4000000000000000000l);
    u.ns = vp_int("u", 0, 4000000000000000000l);
    g.set_timestamp(int(i), t);
    g.set_timestamp(int(j), u);
    vp_ensure(g.timestamp(int(j)) == u, "timestamp-is-the-last-set");
    if (i != j) {
        vp_ensure(g.timestamp(int(i)) == t, "timestamp-of-another-key-kept");
        vp_ieq(g.time_between(int(i), int(j)).ns, u.ns - t.ns, "time-between");
    }
    vp_ieq(long(g.timestamps().size()), i == j ? 1 : 2, "one-timestamp-per-key");
    bool threw = false;
    try { g.timestamp(int(k)); } catch (const std::exception&) { threw = true; }
    vp_ensure(threw == (k != i && k != j), "unset-timestamp-refused");
}
// values of the optimiser replace those it names, and only those
CONTRACT(update_from_values) {
    serpent::GraphManager g;
    g.set_pose(0, pose(0));
    g.set_velocity(0, vec(0, 0));
    g.set_imu_bias(1, bias(0));
    const bool handed = vp_enum("handed", 0, 1);
    if (handed) g.extract_new_values(0);
    gtsam::Values v;
    v.insert(X(0), pose(1));
    v.insert(B(1), bias(1));
    g.update_from_values(v);
    same(g.pose(0), pose(1), "updated-value");
    same(g.imu_bias(1), bias(1), "updated-value");
    same(g.velocity(0), vec(0, 0), "value-not-named-is-kept");
    const auto fresh = g.extract_new_values(1);
    vp_ieq(long(fresh.size()), handed ? 1 : 3, "update-hands-nothing-over-again");
    if (fresh.exists(B(1))) same(fresh.at(B(1)), bias(1), "value-handed-over-is-the-last-set");
    gtsam::Values w;
    w.insert(X(1), pose(2));
    bool threw = false;
    try { g.update_from_values(w); } catch (const std::exception&) { threw = true; }
    vp_ensure(threw, "update-of-an-unknown-value-refused");
}
