// C30: body frames give the configured transform between any two frames.
// @sources: eigen_ros/src/body_frames.cpp eigen_ros/src/body_frames_tf.cpp eigen_ros/src/eigen_ros.cpp eigen_ros/src/geometry_msgs.cpp eigen_ros/src/pose.cpp eigen_ros/src/twist.cpp
// @flags: -Icontracts/stubs_frames -Icontracts/stubs_graph -Icontracts/stubs
#include "vp_ros.hpp"
#include "eigen_ros/body_frames.hpp"
#include "eigen_ros/body_frames_tf.hpp"
using eigen_ros::BodyFrames;
using XmlRpc::XmlRpcValue;
static const char* NAME[] = {"body", "f1", "f2", "f3", "f4", "f5", "f6"};
static const char* ID[] = {"body_id", "id1", "id2", "id3", "id4", "id5", "id6"};
static const char* ALIAS[] = {"a1", "a2", "b1", "b2", "c1", "c2", "d1", "d2", "e1", "e2", "g1", "g2"};
struct Frame {
    int parent = 0;
    bool dynamic = false, lookup = false, own_id = false, translation = false, rotation = false;
    int xyz = 0, wxyz = 0;   // components given (bits)
    int aliases = 0;
    const char* id(int i) const { return own_id ? ID[i] : NAME[i]; }
};
struct Config {
    int n = 1;
    Frame f[7];
    bool extra_false = false;   // flags that are off are written out
};
static Config* config;
static int index_of(const std::string& id) {
    for (int i = 0; i < config->n; ++i) if (id == config->f[i].id(i)) return i;
    vp_ensure(false, "looked-up-under-frame-ids");
    return 0;
}
struct Rigid { Eigen::Matrix3d R; Eigen::Vector3d t; };
static Eigen::Vector3d given(const char* n, long i) { return {vp_real_near_i(n, 3 * i, -2, 2), vp_real_near_i(n, 3 * i + 1, -2, 2), vp_real_near_i(n, 3 * i + 2, -2, 2)}; }
static bool unit_quaternions;
static Eigen::Quaterniond turned(const char* n, long i) {
    const Eigen::Quaterniond q(vp_real_near_i(n, 4 * i, -0.6, 0.6), vp_real_near_i(n, 4 * i + 1, -0.6, 0.6), vp_real_near_i(n, 4 * i + 2, -0.6, 0.6), vp_real_near_i(n, 4 * i + 3, -0.6, 0.6));
    if (unit_quaternions) vp_assume(q.squaredNorm() > 0.01);
    return unit_quaternions ? q.normalized() : q;
 }
static std::int64_t asked;   // the time of lookups
static double patience;
static int lookups;
static geometry_msgs::TransformStamped tf(const std::string& target, const std::string& source, const ros::Time& time, const ros::Duration& timeout) {
    const long k = 8 * index_of(target) + index_of(source);
    vp_ieq(time.ns, asked, "looked-up-at-the-time-asked");
    vp_ieq(timeout.ns, ros::Duration(patience).ns, "lookup-waits-for-the-timeout");
    ++lookups;
    geometry_msgs::TransformStamped m;
    const Eigen::Vector3d t = given("tf t", k);
    const Eigen::Quaterniond q = turned("tf q", k);
    m.transform.translation.x = t[0]; m.transform.translation.y = t[1]; m.transform.translation.z = t[2];
    m.transform.rotation.w = q.w(); m.transform.rotation.x = q.x(); m.transform.rotation.y = q.y(); m.transform.rotation.z = q.z();
    return m;
}
static Rigid looked_up(int target, int source) { return {turned("tf q", 8 * target + source).toRotationMatrix(), given("tf t", 8 * target + source)}; }
static XmlRpcValue node(const Config& c, int i) {
    static const char* axes[] = {"x", "y", "z"};
    static const char* parts[] = {"w", "x", "y", "z"};
    XmlRpcValue v = XmlRpcValue::structure();
    const Frame& f = c.f[i];
    if (f.own_id) v.add("frame_id", ID[i]);
    if (f.dynamic || c.extra_false) v.add("dynamic", f.dynamic);
    if (f.dynamic) return v;
    if (f.lookup || (c.extra_false && i > 0)) v.add("lookup_tf", f.lookup);
    if (f.translation) {
        XmlRpcValue t = XmlRpcValue::structure();
        for (int k = 0; k < 3; ++k) if (f.xyz >> k & 1) t.add(axes[k], vp_real_near_i("t", 3 * i + k, -2, 2));
        v.add("translation", t);
    }
    if (f.rotation) {
        XmlRpcValue r = XmlRpcValue::structure();
        for (int k = 0; k < 4; ++k) if (f.wxyz >> k & 1) r.add(parts[k], vp_real_near_i("q", 4 * i + k, -2, 2));
        v.add("rotation", r);
    }
    if (f.aliases > 0) {
        XmlRpcValue a = XmlRpcValue::array();
        for (int k = 0; k < f.aliases; ++k) a.push(ALIAS[2 * (i - 1) + k]);
        v.add("aliases", a);
    }
    XmlRpcValue nested = XmlRpcValue::structure();
    for (int j = i + 1; j < c.n; ++j) if (c.f[j].parent == i) nested.add(NAME[j], node(c, j));
    if (nested.size() > 0) v.add("frames", nested);
    return v;
}
static XmlRpcValue document(const Config& c) {
    XmlRpcValue v = XmlRpcValue::structure();
    v.add(NAME[0], node(c, 0));
    return v;
}
static Rigid times(const Rigid& a, const Rigid& b) { return {a.R * b.R, a.R * b.t + a.t}; }
static Rigid inverse(const Rigid& a) { return {a.R.transpose(), -(a.R.transpose() * a.t)}; }
// as documented: parts that are not given are zero, except for the real part of the rotation
static Rigid own(const Config& c, int i) {
    const Frame& f = c.f[i];
    if (f.lookup) return looked_up(f.parent, i);
    Rigid r;
    for (int k = 0; k < 3; ++k) r.t[k] = f.translation && (f.xyz >> k & 1) ? vp_real_near_i("t", 3 * i + k, -2, 2) : 0.0;
    double q[4] = {1, 0, 0, 0}, s = 0;
    for (int k = 0; k < 4; ++k) if (f.rotation && (f.wxyz >> k & 1)) q[k] = vp_real_near_i("q", 4 * i + k, -2, 2);
    for (int k = 0; k < 4; ++k) s += q[k] * q[k];
    const double d = std::sqrt(s);
    const double w = q[0] / d, x = q[1] / d, y = q[2] / d, z = q[3] / d;
    r.R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
           2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
           2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return r;
}
static void assume_rotations(const Config& c) {
    for (int i = 1; i < c.n; ++i) {
        if (!c.f[i].rotation || c.f[i].lookup || c.f[i].dynamic) continue;
        double s = c.f[i].wxyz & 1 ? 0 : 1;
        for (int k = 0; k < 4; ++k) if (c.f[i].wxyz >> k & 1) s += vp_real_near_i("q", 4 * i + k, -2, 2) * vp_real_near_i("q", 4 * i + k, -2, 2);
        vp_assume(s > 0.01);
    }
}
static void same(const Eigen::Isometry3d& got, const Rigid& want, const char* label) {
    for (int r = 0; r < 3; ++r) {
        for (int c = 0; c < 3; ++c) vp_eq(got.matrix()(r, c), want.R(r, c), label);
        vp_eq(got.matrix()(r, 3), want.t[r], label);
        vp_eq(got.matrix()(3, r), 0, label);
    }
    vp_eq(got.matrix()(3, 3), 1, label);
}
static void check(Config& c, bool pairs) {
    config = &c;
    unit_quaternions = false;
    assume_rotations(c);
    tf2_ros::Buffer::given = tf;
    asked = 0;
    lookups = 0;
    patience = vp_real_near("patience", 0, 9);
    const XmlRpcValue d = document(c);
    ros::NodeHandle::body_frames = &d;
    ros::NodeHandle::timeout = &patience;
    const BodyFrames b;
    int expected = 0;
    Rigid T[7];
    T[0] = {Eigen::Matrix3d::Identity(), Eigen::Vector3d::Zero()};
    for (int i = 1; i < c.n; ++i) {
        expected += c.f[i].lookup && !c.f[i].dynamic;
        if (!c.f[i].dynamic) T[i] = times(T[c.f[i].parent], own(c, i));
    }
    vp_ieq(lookups, expected, "looked-up-once-where-asked");
    vp_ensure(b.body_frame() == NAME[0] && b.body_frame_id() == c.f[0].id(0), "body-frame");
    const std::vector<std::string> all = b.frames();
    vp_ieq(long(all.size()), c.n, "all-frames-listed");
    vp_ensure(!b.has_frame("other"), "unknown-frame");
    const ros::Time when = ros::Time::of(vp_int("when", 0, 4000000000000000000l));
    for (int i = 0; i < c.n; ++i) {
        const Frame& f = c.f[i];
        bool listed = false;
        for (const std::string& s : all) listed = listed || s == NAME[i];
        vp_ensure(listed && b.has_frame(NAME[i]), "all-frames-listed");
        vp_ensure(b.frame_id(NAME[i]) == f.id(i), "frame-id");
        vp_ensure(b.frame(f.id(i)) == NAME[i], "frame-of-its-id");
        vp_ieq(b.is_dynamic(NAME[i]), f.dynamic, "dynamic-as-configured");
        vp_ieq(b.lookedup_tf(NAME[i]), f.lookup && !f.dynamic, "looked-up-as-configured");
        const std::vector<std::string> a = b.aliases(f.id(i));
        vp_ieq(long(a.size()), f.dynamic ? 0 : f.aliases, "aliases");
        for (int k = 0; k < long(a.size()); ++k) {
            vp_ensure(a[k] == ALIAS[2 * (i - 1) + k], "aliases");
            vp_ensure(b.frame(ALIAS[2 * (i - 1) + k]) == NAME[i], "frame-of-its-alias");
        }
        lookups = 0;
        asked = f.dynamic ? when.ns : -1;
        same(b.body_to_frame(NAME[i], when), f.dynamic ? looked_up(0, i) : T[i], "body-to-frame");
        same(b.frame_to_body(NAME[i], when), f.dynamic ? looked_up(i, 0) : inverse(T[i]), "frame-to-body");
        vp_ieq(lookups, f.dynamic ? 2 : 0, "looked-up-only-for-dynamic-frames");
    }
    for (int i = 0; pairs && i < c.n; ++i)
        for (int j = 0; j < c.n; ++j) {
            const bool dynamic = c.f[i].dynamic || c.f[j].dynamic;
            lookups = 0;
            asked = dynamic ? when.ns : -1;
            same(b.frame_to_frame(NAME[i], NAME[j], when), dynamic ? looked_up(i, j) : times(inverse(T[i]), T[j]), "frame-to-frame");
            vp_ieq(lookups, dynamic, "looked-up-only-for-dynamic-frames");
        }
}
static void same(const geometry_msgs::Transform& m, const Rigid& want, const char* label) {
    // the quaternion of the message stands for the rotation, up to its sign
    const Eigen::Matrix3d R = Eigen::Quaterniond(m.rotation.w, m.rotation.x, m.rotation.y, m.rotation.z).toRotationMatrix();
    vp_eq(m.translation.x, want.t[0], label);
    vp_eq(m.translation.y, want.t[1], label);
    vp_eq(m.translation.z, want.t[2], label);
    if (vp_native()) for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) vp_eq(R(r, c), want.R(r, c), label);
}
// exactly the static frames that are configured here are published, and aliases at their frame
static void publish(Config& c) {
    config = &c;
    unit_quaternions = vp_native();   // TF gives rotations: a message cannot hold anything else
    assume_rotations(c);
    tf2_ros::Buffer::given = tf;
    asked = 0;
    lookups = 0;
    patience = 1.0;
    const XmlRpcValue d = document(c);
    ros::NodeHandle::body_frames = &d;
    ros::NodeHandle::timeout = &patience;
    std::vector<geometry_msgs::TransformStamped> published;
    tf2_ros::StaticTransformBroadcaster::published = &published;
    eigen_ros::BodyFramesTf node;
    long expected = 0, count = 0;
    Rigid T[7];
    T[0] = {Eigen::Matrix3d::Identity(), Eigen::Vector3d::Zero()};
    for (int i = 1; i < c.n; ++i) {
        const Frame& f = c.f[i];
        if (f.dynamic) continue;
        T[i] = times(T[f.parent], own(c, i));
        count += f.lookup;
        expected += f.aliases + !f.lookup;
        for (const auto& m : published) {
            if (m.child_frame_id == f.id(i)) {
                vp_ensure(!f.lookup && m.header.frame_id == c.f[0].id(0), "frames-published-from-the-body");
                same(m.transform, T[i], "published-transform");
            }
            for (int k = 0; k < f.aliases; ++k)
                if (m.child_frame_id == ALIAS[2 * (i - 1) + k]) {
                    vp_ensure(m.header.frame_id == f.id(i), "aliases-published-at-their-frame");
                    same(m.transform, T[0], "aliases-published-at-their-frame");
                }
        }
        long times_published = 0;
        for (const auto& m : published) {
            times_published += m.child_frame_id == f.id(i);
            for (int k = 0; k < f.aliases; ++k) times_published += m.child_frame_id == ALIAS[2 * (i - 1) + k];
        }
        vp_ieq(times_published, f.aliases + !f.lookup, "published-once");
    }
    vp_ieq(long(published.size()), expected, "only-static-frames-published");
    vp_ieq(lookups, count, "looked-up-once-where-asked");
    using Lookup = eigen_ros::lookup_transform;
    using Service = ros::NodeHandle::Service<eigen_ros::BodyFramesTf, Lookup::Request, Lookup::Response>;
    for (int i = 0; i < c.n; ++i) {
        const int j = c.n - 1 - i;
        Lookup::Request request;
        Lookup::Response response;
        request.source_frame = NAME[i];
        request.target_frame = NAME[j];
        vp_ensure((Service::object->*Service::function)(request, response), "service-answers");
        // a rotation of TF that is not one cannot be written as a quaternion
        if (c.f[i].dynamic || c.f[j].dynamic) same(response.transform, {turned("tf q", 8 * i + j).normalized().toRotationMatrix(), given("tf t", 8 * i + j)}, "service-answers-with-frame-to-frame");
        else same(response.transform, times(inverse(T[i]), T[j]), "service-answers-with-frame-to-frame");
    }
}
// nested frames with all kinds of defaults
CONTRACT(nested) {
    Config c;
    c.n = 4;
    c.f[0].own_id = true;
    c.f[1].parent = 0; c.f[1].translation = c.f[1].rotation = c.f[1].own_id = true; c.f[1].xyz = 7; c.f[1].wxyz = 15; c.f[1].aliases = 2;
    c.f[2].parent = 1; c.f[2].translation = true; c.f[2].xyz = 5;
    c.f[3].parent = 1; c.f[3].rotation = true; c.f[3].wxyz = 15; c.f[3].aliases = 1;
    check(c, false);
}
CONTRACT(defaults) {
    Config c;
    c.n = 4;
    c.extra_false = true;
    c.f[1].parent = 0; c.f[1].rotation = true; c.f[1].wxyz = 8;
    c.f[2].parent = 0; c.f[2].translation = true; c.f[2].xyz = 2;
    c.f[3].parent = 0; c.f[3].rotation = true; c.f[3].wxyz = 7; c.f[3].own_id = true;
    check(c, true);
}
CONTRACT(from_tf) {
    Config c;
    c.n = 5;
    c.f[1].parent = 0; c.f[1].lookup = true; c.f[1].aliases = 1;
    c.f[2].parent = 1; c.f[2].lookup = c.f[2].own_id = true;
    c.f[3].parent = 1; c.f[3].translation = true; c.f[3].xyz = 7;
    c.f[4].parent = 1; c.f[4].dynamic = true; c.f[4].own_id = true;
    check(c, false);
}
CONTRACT(pairs) {
    Config c;
    c.n = 4;
    c.f[1].parent = 0; c.f[1].lookup = true;
    c.f[2].parent = 0; c.f[2].rotation = c.f[2].translation = true; c.f[2].xyz = c.f[2].wxyz = 15;
    c.f[3].parent = 0; c.f[3].dynamic = true;
    check(c, true);
}
CONTRACT(published) {
    Config c;
    c.n = 5;
    c.f[0].own_id = true;
    c.f[1].parent = 0; c.f[1].translation = true; c.f[1].xyz = 7; c.f[1].aliases = 2;
    c.f[2].parent = 0; c.f[2].lookup = true; c.f[2].aliases = 1;
    c.f[3].parent = 1; c.f[3].translation = c.f[3].own_id = true; c.f[3].xyz = 7;
    c.f[4].parent = 1; c.f[4].dynamic = true;
    publish(c);
}
// native executions only: any tree of frames
static Config any_config() {
    Config c;
    c.n = int(vp_int("n", 1, 7));
    c.extra_false = vp_bool("extra");
    for (int i = 0; i < c.n; ++i) {
        Frame& f = c.f[i];
        f.own_id = vp_bool_i("own id", i);
        if (i == 0) continue;
        f.parent = int(vp_int_i("parent", i, 0, i - 1));
        while (c.f[f.parent].dynamic) f.parent = c.f[f.parent].parent;
        f.dynamic = vp_bool_i("dynamic", i) && vp_bool_i("rarely", i);
        f.lookup = vp_bool_i("lookup", i);
        f.translation = vp_bool_i("translation", i);
        f.rotation = vp_bool_i("rotation", i);
        f.xyz = int(vp_int_i("xyz", i, 0, 7));
        f.wxyz = int(vp_int_i("wxyz", i, 0, 15));
        f.aliases = int(vp_int_i("aliases", i, 0, 2));
    }
    return c;
}
CONTRACT(any_tree) {
    if (!vp_native()) return;
    Config c = any_config();
    check(c, true);
}
CONTRACT(any_published) {
    if (!vp_native()) return;
    Config c = any_config();
    publish(c);
}
// what cannot be meant is refused
static bool refused(const XmlRpcValue* v) {
    ros::NodeHandle::body_frames = v;
    ros::NodeHandle::timeout = nullptr;
    try { BodyFrames b; } catch (const std::exception&) { return true; }
    return false;
}
static XmlRpcValue with(const XmlRpcValue& frames, const char* id = nullptr) {
    XmlRpcValue v = XmlRpcValue::structure(), body = XmlRpcValue::structure();
    if (id) body.add("frame_id", id);
    body.add("frames", frames);
    v.add("body", body);
    return v;
}
static Config plain() { Config c; c.n = 3; return c; }
CONTRACT(refusals) {
    Config c = plain();
    config = &c;
    tf2_ros::Buffer::given = tf;
    asked = 0;
    patience = 1.0;
    vp_ensure(refused(nullptr), "missing-configuration-refused");
    const XmlRpcValue number(vp_real("number"));
    vp_ensure(refused(&number), "configuration-that-is-no-struct-refused");
    XmlRpcValue two = document(c);
    two.add("second", node(c, 0));
    vp_ensure(refused(&two), "two-body-frames-refused");
    XmlRpcValue none = XmlRpcValue::structure();
    vp_ensure(refused(&none), "no-body-frame-refused");
    const char* options[] = {"aliases", "lookup_tf", "translation", "rotation", "frames"};
    for (const char* o : options) {
        XmlRpcValue f = XmlRpcValue::structure(), frames = XmlRpcValue::structure();
        f.add("dynamic", true);
        frames.add("f1", f);
        const XmlRpcValue fine = with(frames);
        vp_ensure(!refused(&fine), "dynamic-frame-accepted");
        f.add(o, vp_bool("value"));
        frames = XmlRpcValue::structure();
        frames.add("f1", f);
        const XmlRpcValue bad = with(frames);
        vp_ensure(refused(&bad), "dynamic-frame-with-options-of-static-ones-refused");
    }
}
CONTRACT(duplicates) {
    XmlRpcValue frames, a, b, c, n, list;
    const auto clear = [&] { frames = a = b = c = n = XmlRpcValue::structure(); list = XmlRpcValue::array(); };
    // the same frame in two places
    clear();
    n.add("f1", b); a.add("frames", n); frames.add("f1", a);
    const XmlRpcValue same_name = with(frames);
    vp_ensure(refused(&same_name), "frame-given-twice-refused");
    clear();
    frames.add("body", a);
    const XmlRpcValue body_again = with(frames, "body_id");
    vp_ensure(refused(&body_again), "frame-given-twice-refused");
    // the same id for two frames
    clear();
    a.add("frame_id", "id"); b.add("frame_id", "id"); frames.add("f1", a); frames.add("f2", b);
    const XmlRpcValue same_id = with(frames);
    vp_ensure(refused(&same_id), "id-given-twice-refused");
    clear();
    a.add("dynamic", true); a.add("frame_id", "body_id"); frames.add("f1", a);
    const XmlRpcValue body_id = with(frames, "body_id");
    vp_ensure(refused(&body_id), "id-given-twice-refused");
    // an alias that is the id of another frame or the alias of one
    clear();
    list.push("f2"); a.add("aliases", list); frames.add("f1", a); frames.add("f2", b);
    const XmlRpcValue alias_id = with(frames);
    vp_ensure(refused(&alias_id), "alias-given-twice-refused");
    clear();
    list.push("x"); a.add("aliases", list); b.add("aliases", list); frames.add("f1", a); frames.add("f2", b);
    const XmlRpcValue alias_alias = with(frames);
    vp_ensure(refused(&alias_alias), "alias-given-twice-refused");
    clear();
    a.add("aliases", "x"); frames.add("f1", a);
    const XmlRpcValue text = with(frames);
    vp_ensure(refused(&text), "aliases-that-are-no-list-refused");
    clear();
    list.push(vp_real("number")); a.add("aliases", list); frames.add("f1", a);
    const XmlRpcValue numbers = with(frames);
    vp_ensure(refused(&numbers), "aliases-that-are-no-list-refused");
    // what is unknown cannot be asked for
    clear();
    frames.add("f1", a);
    const XmlRpcValue fine = with(frames);
    ros::NodeHandle::body_frames = &fine;
    const BodyFrames f;
    int thrown = 0;
    try { f.body_to_frame("f2"); } catch (const std::exception&) { ++thrown; }
    try { f.frame_to_body("f2"); } catch (const std::exception&) { ++thrown; }
    try { f.frame_to_frame("f1", "f2"); } catch (const std::exception&) { ++thrown; }
    try { f.frame_to_frame("f2", "f1"); } catch (const std::exception&) { ++thrown; }
    try { f.frame_id("f2"); } catch (const std::exception&) { ++thrown; }
    try { f.frame("f2"); } catch (const std::exception&) { ++thrown; }
    try { f.aliases("f2"); } catch (const std::exception&) { ++thrown; }
    try { f.is_dynamic("f2"); } catch (const std::exception&) { ++thrown; }
    try { f.lookedup_tf("f2"); } catch (const std::exception&) { ++thrown; }
    vp_ieq(thrown, 9, "unknown-frame-refused");
}
