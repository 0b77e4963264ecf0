// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include "ros/time.h"
namespace XmlRpc {
// a value of the parameter server with the access rules of xmlrpcpp: reading a value of another type throws,
// reading a missing member of a struct adds an empty value, which reads as zero, false or the empty text
class XmlRpcValue {
public:
    enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
    struct Member;
    using const_iterator = std::vector<Member>::const_iterator;
    XmlRpcValue() = default;
    XmlRpcValue(bool b) : type(TypeBoolean), flag(b) {}
    XmlRpcValue(double d) : type(TypeDouble), number(d) {}
    XmlRpcValue(const char* s) : type(TypeString), text(s) {}
    static XmlRpcValue structure() { XmlRpcValue v; v.type = TypeStruct; return v; }
    static XmlRpcValue array() { XmlRpcValue v; v.type = TypeArray; return v; }
    Type getType() const { return type; }
    bool valid() const { return type != TypeInvalid; }
    int size() const;
    bool hasMember(const std::string& k) const;
    const_iterator begin() const;
    const_iterator end() const;
    const XmlRpcValue& operator[](const std::string& k) const;
    const XmlRpcValue& operator[](const char* k) const;
    XmlRpcValue& operator[](const std::string& k);
    XmlRpcValue& operator[](const char* k);
    const XmlRpcValue& operator[](int i) const { require(TypeArray); return elements.at(i); }
    XmlRpcValue& operator[](int i) { require(TypeArray); return elements.at(i); }
    void add(const char* k, const XmlRpcValue& v);
    void push(const XmlRpcValue& v) { elements.push_back(v); }
    operator const bool&() const { require(TypeBoolean); return flag; }
    operator const double&() const { require(TypeDouble); return number; }
    operator const std::string&() const { require(TypeString); return text; }
    operator bool&() { become(TypeBoolean); return flag; }
    operator double&() { become(TypeDouble); return number; }
    operator std::string&() { become(TypeString); return text; }
private:
    void require(Type t) const { if (type != t) throw std::runtime_error("type error"); }
    void become(Type t) { if (type == TypeInvalid) type = t; require(t); }
    Type type = TypeInvalid;
    bool flag = false;
    double number = 0;
    std::string text;
    std::vector<XmlRpcValue> elements;
    std::vector<Member> members;
};
struct XmlRpcValue::Member {
    std::string first;
    XmlRpcValue second;
};
inline int XmlRpcValue::size() const {
    if (type == TypeStruct) return int(members.size());
    require(TypeArray);
    return int(elements.size());
}
inline bool XmlRpcValue::hasMember(const std::string& k) const {
    for (const Member& m : members) if (m.first == k) return true;
    return false;
}
inline XmlRpcValue::const_iterator XmlRpcValue::begin() const { require(TypeStruct); return members.begin(); }
inline XmlRpcValue::const_iterator XmlRpcValue::end() const { require(TypeStruct); return members.end(); }
inline const XmlRpcValue& XmlRpcValue::operator[](const std::string& k) const {
    require(TypeStruct);
    for (const Member& m : members) if (m.first == k) return m.second;
    throw std::runtime_error("no such member");
}
inline const XmlRpcValue& XmlRpcValue::operator[](const char* k) const { return (*this)[std::string(k)]; }
inline XmlRpcValue& XmlRpcValue::operator[](const std::string& k) {
    become(TypeStruct);
    for (Member& m : members) if (m.first == k) return m.second;
    members.push_back(Member{k, XmlRpcValue()});
    return members.back().second;
}
inline XmlRpcValue& XmlRpcValue::operator[](const char* k) { return (*this)[std::string(k)]; }
inline void XmlRpcValue::add(const char* k, const XmlRpcValue& v) { members.push_back(Member{std::string(k), v}); }
}
namespace ros {
struct ServiceServer {};
// parameters given by the contract
struct NodeHandle {
    static inline const XmlRpc::XmlRpcValue* body_frames = nullptr;
    static inline const double* timeout = nullptr;
    explicit NodeHandle(const std::string& = "") {}
    // the service offered last, called by the contract
    template <typename T, typename Q, typename A>
    struct Service {
        static inline bool (T::*function)(Q&, A&) = nullptr;
        static inline T* object = nullptr;
    };
    template <typename T, typename Q, typename A>
    ServiceServer advertiseService(const std::string&, bool (T::*function)(Q&, A&), T* object) {
        Service<T, Q, A>::function = function;
        Service<T, Q, A>::object = object;
        return ServiceServer();
    }
    template <typename T>
    T param(const std::string& name, const T& otherwise) const {
        if constexpr (std::is_same<T, double>::value) return name == "lookup_tf_timeout" && timeout ? *timeout : otherwise;
        else if constexpr (std::is_same<T, XmlRpc::XmlRpcValue>::value) return name == "body_frames" && body_frames ? *body_frames : otherwise;
        else return otherwise;
    }
};
}
#define ROS_INFO_STREAM(x) do {} while (0)
#define ROS_WARN_STREAM(x) do {} while (0)
#define ROS_DEBUG_STREAM(x) do {} while (0)
#define ROS_ERROR_STREAM(x) do {} while (0)
