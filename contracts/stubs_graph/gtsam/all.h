// Stand-in for GTSAM: values, factors and an optimiser that record what they are given. Geometry is computed as GTSAM defines it;
// inserting a value that exists, or reading or updating one that does not, is refused as GTSAM refuses it.
#pragma once
#include <boost/vp_boost.hpp>
#include <Eigen/Core>
#include <cassert>
#include <cstdint>
#include <fstream>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#define GTSAM_VERSION_NUMERIC 40200
namespace gtsam {
using Key = std::uint64_t;
using Vector3 = Eigen::Vector3d;
using Point3 = Eigen::Vector3d;
using Velocity3 = Eigen::Vector3d;
using Matrix = Eigen::MatrixXd;
namespace symbol_shorthand {
inline Key B(std::uint64_t i) { return (Key('b') << 56) + i; }
inline Key P(std::uint64_t i) { return (Key('p') << 56) + i; }
inline Key S(std::uint64_t i) { return (Key('s') << 56) + i; }
inline Key V(std::uint64_t i) { return (Key('v') << 56) + i; }
inline Key X(std::uint64_t i) { return (Key('x') << 56) + i; }
}
template <typename T>
struct FastList : std::vector<T> {
    using std::vector<T>::vector;
};
using KeyFormatter = std::function<std::string(Key)>;
static const KeyFormatter DefaultKeyFormatter = [](Key) { return std::string(); };
struct Pose3 {
    Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
    Eigen::Vector3d t = Eigen::Vector3d::Zero();
    Pose3() = default;
    Pose3(const Eigen::Matrix3d& R, const Eigen::Vector3d& t) : R(R), t(t) {}
    Pose3 operator*(const Pose3& o) const { return compose(o); }
    Pose3 compose(const Pose3& o) const {
        Pose3 p;
        for (int i = 0; i < 3; ++i) {
            for (int j = 0; j < 3; ++j) p.R(i, j) = R(i, 0) * o.R(0, j) + R(i, 1) * o.R(1, j) + R(i, 2) * o.R(2, j);
            p.t(i) = R(i, 0) * o.t(0) + R(i, 1) * o.t(1) + R(i, 2) * o.t(2) + t(i);
        }
        return p;
    }
    Point3 transformFrom(const Point3& q) const {
        Point3 p;
        for (int i = 0; i < 3; ++i) p(i) = R(i, 0) * q(0) + R(i, 1) * q(1) + R(i, 2) * q(2) + t(i);
        return p;
    }
    const Point3& translation() const { return t; }
};
namespace imuBias {
struct ConstantBias {
    Eigen::Vector3d a = Eigen::Vector3d::Zero(), g = Eigen::Vector3d::Zero();
    ConstantBias() = default;
    ConstantBias(const Eigen::Vector3d& a, const Eigen::Vector3d& g) : a(a), g(g) {}
    const Vector3& accelerometer() const { return a; }
    const Vector3& gyroscope() const { return g; }
};
}
struct NavState {
    Pose3 p;
    Velocity3 v = Velocity3::Zero();
    NavState() = default;
    NavState(const Pose3& p, const Velocity3& v) : p(p), v(v) {}
    const Pose3& pose() const { return p; }
    const Velocity3& velocity() const { return v; }
    const Point3& position() const { return p.t; }
};
struct StereoPoint2 {
    double l = 0, r = 0, y = 0;
    StereoPoint2() = default;
    StereoPoint2(double l, double r, double y) : l(l), r(r), y(y) {}
    double uL() const { return l; }
    double uR() const { return r; }
    double v() const { return y; }
};
struct Cal3_S2Stereo {
    using shared_ptr = boost::shared_ptr<Cal3_S2Stereo>;
    double f_x = 1, f_y = 1, skew = 0, u_0 = 0, v_0 = 0, b = 1;
    Cal3_S2Stereo() = default;
    Cal3_S2Stereo(double fx, double fy, double s, double u0, double v0, double b) : f_x(fx), f_y(fy), skew(s), u_0(u0), v_0(v0), b(b) {}
    double fx() const { return f_x; }
    double fy() const { return f_y; }
    double px() const { return u_0; }
    double py() const { return v_0; }
    double baseline() const { return b; }
};
struct StereoCamera {
    Pose3 p;
    Cal3_S2Stereo::shared_ptr K;
    StereoCamera() = default;
    StereoCamera(const Pose3& p, const Cal3_S2Stereo::shared_ptr& K) : p(p), K(K) {}
    const Pose3& pose() const { return p; }
    const Cal3_S2Stereo& calibration() const { return *K; }
    double baseline() const { return K->b; }
    Point3 backproject(const StereoPoint2& z) const {
        const double Z = K->b * K->f_x / (z.l - z.r);
        return p.transformFrom(Point3(Z * (z.l - K->u_0) / K->f_x, Z * (z.y - K->v_0) / K->f_y, Z));
    }
};
// a value of any of the types above
struct Value {
    long type = 0;   // 1 number, 2 vector, 3 bias, 4 pose
    double d[12] = {};
    Value() = default;
    Value(double x) : type(1) { d[0] = x; }
    Value(const Eigen::Vector3d& v) : type(2) { for (int i = 0; i < 3; ++i) d[i] = v[i]; }
    Value(const imuBias::ConstantBias& b) : type(3) { for (int i = 0; i < 3; ++i) { d[i] = b.a[i]; d[3 + i] = b.g[i]; } }
    Value(const Pose3& p) : type(4) { for (int i = 0; i < 3; ++i) { d[i] = p.t[i]; for (int j = 0; j < 3; ++j) d[3 + 3 * i + j] = p.R(i, j); } }
    void get(double& x) const { is(1); x = d[0]; }
    void get(Eigen::Vector3d& v) const { is(2); for (int i = 0; i < 3; ++i) v[i] = d[i]; }
    void get(imuBias::ConstantBias& b) const { is(3); for (int i = 0; i < 3; ++i) { b.a[i] = d[i]; b.g[i] = d[3 + i]; } }
    void get(Pose3& p) const { is(4); for (int i = 0; i < 3; ++i) { p.t[i] = d[i]; for (int j = 0; j < 3; ++j) p.R(i, j) = d[3 + 3 * i + j]; } }
    void is(long t) const { if (type != t) throw std::runtime_error("ValuesIncorrectType"); }
    template <typename T>
    T cast() const { T t; get(t); return t; }
};
struct KeyValue {
    const Key key;
    Value value;
    KeyValue(Key k, const Value& v) : key(k), value(v) {}
    KeyValue(const KeyValue&) = default;
};
struct key_of {
    static const Key& key(const KeyValue& e) { return e.key; }
};
class Values : public vp::ordered<Key, KeyValue, key_of> {
public:
    using KeyValuePair = KeyValue;
    using ConstKeyValuePair = const KeyValue;
    bool exists(Key k) const { return contains(k); }
    void insert(Key k, const Value& v) {
        vp::link* l = lower(k);
        if (l != head && static_cast<vp::node<KeyValue>*>(l)->entry.key == k) throw std::runtime_error("ValuesKeyAlreadyExists");
        insert_before(l, new vp::node<KeyValue>(k, v));
    }
    void insert(const Values& o) { for (const auto& e : o) insert(e.key, e.value); }
    void update(Key k, const Value& v) {
        auto i = find(k);
        if (i == end()) throw std::runtime_error("ValuesKeyDoesNotExist");
        i->value = v;
    }
    void update(const Values& o) { for (const auto& e : o) update(e.key, e.value); }
    void insert_or_assign(Key k, const Value& v) { if (exists(k)) update(k, v); else insert(k, v); }
    const Value& at(Key k) const {
        auto i = find(k);
        if (i == end()) throw std::runtime_error("ValuesKeyDoesNotExist");
        return i->value;
    }
    template <typename T>
    T at(Key k) const { return at(k).cast<T>(); }
    FastList<Key> keys() const {
        FastList<Key> l;
        for (const auto& e : *this) l.push_back(e.key);
        return l;
    }
    void erase(Key k) {
        if (!vp::ordered<Key, KeyValue, key_of>::erase(k)) throw std::runtime_error("ValuesKeyDoesNotExist");
    }
};
namespace noiseModel {
struct Base {
    long id = 0;
};
}
using SharedNoiseModel = boost::shared_ptr<noiseModel::Base>;
struct PreintegratedCombinedMeasurements {
    long id = 0;
};
// what a factor is: its kind, the variables it connects in order, its measurement and its noise model
struct Factor {
    long kind = 0;
    Key connected[6] = {};
    int n = 0;
    const Key* begin() const { return connected; }
    const Key* end() const { return connected + n; }
    const Key* find(Key k) const {
        const Key* p = begin();
        while (p != end() && *p != k) ++p;
        return p;
    }
    std::size_t size() const { return n; }
};
struct NonlinearFactor : Factor {
    Value measured;
    SharedNoiseModel noise;
    NonlinearFactor(long k, std::initializer_list<Key> keys, const Value& z, const SharedNoiseModel& m) : measured(z), noise(m) {
        kind = k;
        for (Key key : keys) connected[n++] = key;
    }
};
template <typename T>
struct BetweenFactor : NonlinearFactor {
    BetweenFactor(Key a, Key b, const T& z, const SharedNoiseModel& m = nullptr) : NonlinearFactor(1, {a, b}, Value(z), m) {}
};
template <typename T>
struct PriorFactor : NonlinearFactor {
    PriorFactor(Key a, const T& z, const SharedNoiseModel& m = nullptr) : NonlinearFactor(2, {a}, Value(z), m) {}
};
struct BarometricFactor : NonlinearFactor {
    BarometricFactor(Key pose, Key bias, double z, const SharedNoiseModel& m = nullptr) : NonlinearFactor(3, {pose, bias}, Value(z), m) {}
    double heightOut(double p) const { return 7.0 * p - 3.0; }   // an arbitrary function of the pressure
};
struct CombinedImuFactor : NonlinearFactor {
    CombinedImuFactor(Key pi, Key vi, Key pj, Key vj, Key bi, Key bj, const PreintegratedCombinedMeasurements& z)
        : NonlinearFactor(4, {pi, vi, pj, vj, bi, bj}, Value(double(z.id)), nullptr) {}
};
inline Value stereo_value(const StereoPoint2& z) {
    Value v;
    v.type = 5;
    v.d[0] = z.l;
    v.d[1] = z.r;
    v.d[2] = z.y;
    return v;
}
template <typename P, typename L>
struct GenericStereoFactor : NonlinearFactor {
    Cal3_S2Stereo::shared_ptr K;
    boost::optional<Pose3> sensor;
    GenericStereoFactor(const StereoPoint2& z, const SharedNoiseModel& m, Key pose, Key landmark, const Cal3_S2Stereo::shared_ptr& K,
                        boost::optional<Pose3> sensor = {})
        : NonlinearFactor(5, {pose, landmark}, stereo_value(z), m), K(K), sensor(sensor) {}
};
struct GraphvizFormatting {};
struct NonlinearFactorGraph {
    using sharedFactor = boost::shared_ptr<NonlinearFactor>;
    std::vector<sharedFactor> factors;
    void push_back(const sharedFactor& f) { factors.push_back(f); }
    template <typename F>
    void push_back(const boost::shared_ptr<F>& f) { factors.push_back(sharedFactor(f)); }
    void push_back(const NonlinearFactorGraph& g) { for (const auto& f : g.factors) factors.push_back(f); }
    template <typename F>
    void add(const F& f) { push_back(f); }
    std::size_t size() const { return factors.size(); }
    bool empty() const { return factors.empty(); }
    void reserve(std::size_t) {}
    const sharedFactor& operator[](std::size_t i) const { return factors[i]; }
    const sharedFactor& at(std::size_t i) const { return factors.at(i); }
    auto begin() { return factors.begin(); }
    auto end() { return factors.end(); }
    auto begin() const { return factors.begin(); }
    auto end() const { return factors.end(); }
    void printErrors(const Values&, const std::string& = "", const KeyFormatter& = DefaultKeyFormatter,
                     const std::function<bool(const Factor*, double, std::size_t)>& = nullptr) const {}
    template <typename... A>
    void saveGraph(A&&...) const {}
};
struct ISAM2Params {};
struct ISAM2Result {
    long factors = 0, values = 0;
};
// refuses what iSAM2 refuses: a variable given twice, a factor on a variable never given, marginalising a variable it does not hold
struct ISAM2 {
    std::vector<NonlinearFactorGraph> updates;   // the factors of every update
    Values estimate, held;
    std::vector<Key> marginalised;
    double shift = 0;   // added to the numbers of every value by the optimisation
    ISAM2() = default;
    explicit ISAM2(const ISAM2Params&) {}
    ISAM2Result update(const NonlinearFactorGraph& g, const Values& v) {
        updates.push_back(g);
        estimate.insert(v);
        held.insert(v);
        for (const auto& f : g)
            for (Key k : *f)
                if (!held.exists(k)) throw std::runtime_error("factor on a variable the optimiser does not hold");
        for (auto& e : estimate) e.value.d[0] += shift;
        ISAM2Result r;
        r.factors = long(g.size());
        r.values = long(v.size());
        return r;
    }
    const Values& calculateEstimate() const { return estimate; }
    Matrix marginalCovariance(Key k) const {
        const int n = estimate.at(k).type == 1 ? 1 : estimate.at(k).type == 2 ? 3 : 6;
        Matrix m(n, n);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) m(i, j) = estimate.at(k).d[0] * (1 + i + j) + estimate.at(k).type;
        return m;
    }
    template <typename L>
    void marginalizeLeaves(const L& l) {
        for (Key k : l) {
            held.erase(k);
            estimate.erase(k);
            marginalised.push_back(k);
        }
    }
};
}
