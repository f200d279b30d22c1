// In-process stand-in for roscpp: parameters, topics and services live in process-global maps owned by the harness.
#pragma once
#include <quiet.h>
#include <ros/time.h>
#include <pcl/PCLPointCloud2.h>
#include <pcl/conversions.h>
#include <pcl/point_cloud.h>
#include <sensor_msgs/PointCloud2.h>

#include <any>
#include <array>
#include <boost/bind/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <typeindex>
#include <vector>

using namespace boost::placeholders;

// ------------------------------------------------------------------ XmlRpcValue (noetic's strict typing)
namespace XmlRpc {
class XmlRpcException : public std::exception {
public:
    explicit XmlRpcException(std::string m) : m(std::move(m)) {}
    const char* what() const noexcept override { return m.c_str(); }
    std::string getMessage() const { return m; }
private:
    std::string m;
};
class XmlRpcValue {
public:
    enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
    typedef std::map<std::string, XmlRpcValue> ValueStruct;
    typedef std::vector<XmlRpcValue> ValueArray;
    typedef ValueStruct::iterator iterator;
    typedef ValueStruct::const_iterator const_iterator;
    XmlRpcValue() {}
    XmlRpcValue(bool v) : type(TypeBoolean), b(v) {}
    XmlRpcValue(int v) : type(TypeInt), i(v) {}
    XmlRpcValue(double v) : type(TypeDouble), d(v) {}
    XmlRpcValue(const std::string& v) : type(TypeString), s(v) {}
    XmlRpcValue(const char* v) : type(TypeString), s(v) {}
    Type getType() const { return type; }
    Type const& typeRef() const { return type; }
    bool valid() const { return type != TypeInvalid; }
    int size() const {
        if (type == TypeString) return static_cast<int>(s.size());
        if (type == TypeArray) return static_cast<int>(a.size());
        if (type == TypeStruct) return static_cast<int>(m.size());
        throw XmlRpcException("type error");
    }
    void setSize(int n) { need_or_invalid(TypeArray); a.resize(n); }
    bool hasMember(const std::string& n) const { return type == TypeStruct && m.count(n); }
    XmlRpcValue& operator[](int k) { need_or_invalid(TypeArray); if (static_cast<int>(a.size()) <= k) a.resize(k + 1); return a[k]; }
    const XmlRpcValue& operator[](int k) const { need(TypeArray); return a.at(k); }
    XmlRpcValue& operator[](const std::string& k) { need_or_invalid(TypeStruct); return m[k]; }
    const XmlRpcValue& operator[](const std::string& k) const {
        need(TypeStruct);
        const auto it = m.find(k);
        if (it == m.end()) throw XmlRpcException("type error: no member " + k);
        return it->second;
    }
    XmlRpcValue& operator[](const char* k) { return (*this)[std::string(k)]; }
    const XmlRpcValue& operator[](const char* k) const { return (*this)[std::string(k)]; }
    iterator begin() { need(TypeStruct); return m.begin(); }
    iterator end() { need(TypeStruct); return m.end(); }
    const_iterator begin() const { need(TypeStruct); return m.begin(); }
    const_iterator end() const { need(TypeStruct); return m.end(); }
    operator bool&() { need_or_invalid(TypeBoolean); return b; }
    operator int&() { need_or_invalid(TypeInt); return i; }
    operator double&() { need_or_invalid(TypeDouble); return d; }
    operator std::string&() { need_or_invalid(TypeString); return s; }
    operator const bool&() const { need(TypeBoolean); return b; }
    operator const int&() const { need(TypeInt); return i; }
    operator const double&() const { need(TypeDouble); return d; }
    operator const std::string&() const { need(TypeString); return s; }
private:
    void need(Type t) const { if (type != t) throw XmlRpcException("type error"); }
    void need_or_invalid(Type t) { if (type == TypeInvalid) type = t; need(t); }
    Type type{TypeInvalid};
    bool b{false};
    int i{0};
    double d{0.0};
    std::string s;
    ValueArray a;
    ValueStruct m;
};
}

// ------------------------------------------------------------------ pointer and wire types
namespace shim {
template<typename M> struct is_pcl : std::false_type {};
template<> struct is_pcl<pcl::PCLPointCloud2> : std::true_type {};
template<typename P> struct is_pcl<pcl::PointCloud<P>> : std::true_type {};
template<typename M, bool = is_pcl<M>::value> struct PtrTraits {
    typedef boost::shared_ptr<M> Ptr;
    typedef boost::shared_ptr<M const> ConstPtr;
};
template<typename M> struct PtrTraits<M, true> {
    typedef std::shared_ptr<M> Ptr;
    typedef std::shared_ptr<M const> ConstPtr;
};

// Every message travels as its wire type; all cloud types share one.
template<typename M> struct Wire {
    typedef M type;
    static M to(const M& m) { return m; }
    static M from(const M& m) { return m; }
};
template<typename P> struct Wire<pcl::PointCloud<P>> {
    typedef pcl::PCLPointCloud2 type;
    static type to(const pcl::PointCloud<P>& m) { type t; pcl::toPCLPointCloud2(m, t); return t; }
    static pcl::PointCloud<P> from(const type& t) { pcl::PointCloud<P> m; pcl::fromPCLPointCloud2(t, m); return m; }
};
template<> struct Wire<sensor_msgs::PointCloud2> {
    typedef pcl::PCLPointCloud2 type;
    static type to(const sensor_msgs::PointCloud2& s) {
        type d;
        d.header.seq = s.header.seq;
        d.header.stamp = s.header.stamp.toNSec() / 1000ULL;
        d.header.frame_id = s.header.frame_id;
        d.height = s.height; d.width = s.width;
        for (const auto& f : s.fields) {
            pcl::PCLPointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count;
            d.fields.push_back(g);
        }
        d.is_bigendian = s.is_bigendian; d.point_step = s.point_step; d.row_step = s.row_step; d.data = s.data; d.is_dense = s.is_dense;
        return d;
    }
    static sensor_msgs::PointCloud2 from(const type& s) {
        sensor_msgs::PointCloud2 d;
        d.header.seq = s.header.seq;
        d.header.stamp.fromNSec(s.header.stamp * 1000ULL);
        d.header.frame_id = s.header.frame_id;
        d.height = s.height; d.width = s.width;
        for (const auto& f : s.fields) {
            sensor_msgs::PointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count;
            d.fields.push_back(g);
        }
        d.is_bigendian = s.is_bigendian; d.point_step = s.point_step; d.row_step = s.row_step; d.data = s.data; d.is_dense = s.is_dense;
        return d;
    }
};

struct Record {
    std::string topic;
    std::any wire;
    uint64_t order;
    Token token;       // what happened before it was published
    std::any object;   // the published object itself, which subscribers of the same program and type share
};
struct Sub {
    uint64_t id;
    std::function<void(const std::any&)> fn;
    std::type_index object{typeid(void)};  // type of the objects it can share
};
struct Bus {
    std::map<std::string, std::vector<Sub>> subs;
    std::map<std::string, std::type_index> advertised;
    std::vector<Record> published;
    std::deque<Record> pending;        // published messages awaiting delivery to in-process subscribers
    bool forward{false};               // queue published messages for in-process subscribers
    std::map<std::string, XmlRpc::XmlRpcValue> params;
    std::set<std::string> read;        // parameters asked for
    std::map<std::string, std::function<void(void*, void*, bool&)>> services;
    uint64_t next_id{1}, order{0};
    std::vector<std::any> tf, static_tf;   // geometry_msgs::TransformStamped
    std::function<std::any(const std::string&, const std::string&, const ros::Time&)> lookup;
    void reset() { *this = Bus(); node_ok() = true; on_sleep() = nullptr; on_wait() = nullptr; }
    static std::function<void()>& on_wait() { static std::function<void()> f; return f; }  // runs in waitForShutdown
};
inline Bus& bus() { static Bus b; return b; }

inline std::string resolve(const std::string& ns, const std::string& name) {
    if (!name.empty() && name[0] == '/') return name;
    return (ns == "/" ? "" : ns) + "/" + name;
}

inline void (*&on_publish())() { static void (*f)() = nullptr; return f; }  // called after a message is published

template<typename M>
void publish(const std::string& topic, const M& m, const std::any& object = {}) {
    const Token token = release();
    {
        Quiet quiet;
        Record r{topic, std::any(Wire<M>::to(m)), bus().order++, token, object};
        if (bus().forward) bus().pending.push_back(r);
        r.object.reset();
        bus().published.push_back(std::move(r));
    }
    if (on_publish()) on_publish()();
}

// Deliver a message from the harness directly to every subscriber of the topic.
inline int deliver_wire(const std::string& topic, const std::any& w) {
    const auto it = bus().subs.find(topic);
    if (it == bus().subs.end()) return 0;
    const std::vector<Sub> subs = it->second;
    for (const auto& s : subs) s.fn(w);
    return static_cast<int>(subs.size());
}
template<typename M>
int inject(const std::string& topic, const M& m) { return deliver_wire(topic, std::any(Wire<M>::to(m))); }

// Deliver one pending in-process message; false when there is none.
inline bool pump_one() {
    if (bus().pending.empty()) return false;
    Record r = bus().pending.front();
    bus().pending.pop_front();
    deliver_wire(r.topic, r.wire);
    return true;
}

// All messages published so far on a topic.
template<typename M>
std::vector<M> captured(const std::string& topic) {
    std::vector<M> out;
    for (const auto& r : bus().published) {
        if (r.topic == topic) out.push_back(Wire<M>::from(std::any_cast<const typename Wire<M>::type&>(r.wire)));
    }
    return out;
}
inline std::size_t count(const std::string& topic) {
    std::size_t n = 0;
    for (const auto& r : bus().published) n += r.topic == topic;
    return n;
}
template<typename Req, typename Res>
bool call(const std::string& name, Req& req, Res& res) {
    bool ok = false;
    bus().services.at(name)(&req, &res, ok);
    return ok;
}

struct SubHandle {
    std::string topic;
    uint64_t id{0};
    ~SubHandle() {
        auto it = bus().subs.find(topic);
        if (it == bus().subs.end()) return;
        auto& v = it->second;
        for (std::size_t k = 0; k < v.size(); ++k) if (v[k].id == id) { v.erase(v.begin() + k); break; }
    }
};
inline std::shared_ptr<SubHandle> add_sub(const std::string& topic, std::function<void(const std::any&)> fn, std::type_index object = typeid(void)) {
    auto h = std::make_shared<SubHandle>();
    h->topic = topic;
    h->id = bus().next_id++;
    bus().subs[topic].push_back({h->id, std::move(fn), object});
    return h;
}

// ---- parameters
inline bool to(const XmlRpc::XmlRpcValue& v, bool& o) { if (v.getType() != v.TypeBoolean) return false; o = static_cast<const bool&>(v); return true; }
inline bool to(const XmlRpc::XmlRpcValue& v, int& o) {
    if (v.getType() == v.TypeDouble) { o = static_cast<int>(std::lround(static_cast<const double&>(v))); return true; }
    if (v.getType() != v.TypeInt) return false;
    o = static_cast<const int&>(v);
    return true;
}
inline bool to(const XmlRpc::XmlRpcValue& v, double& o) {
    if (v.getType() == v.TypeInt) { o = static_cast<const int&>(v); return true; }
    if (v.getType() != v.TypeDouble) return false;
    o = static_cast<const double&>(v);
    return true;
}
inline bool to(const XmlRpc::XmlRpcValue& v, float& o) { double d; if (!to(v, d)) return false; o = static_cast<float>(d); return true; }
inline bool to(const XmlRpc::XmlRpcValue& v, std::string& o) { if (v.getType() != v.TypeString) return false; o = static_cast<const std::string&>(v); return true; }
inline bool to(const XmlRpc::XmlRpcValue& v, XmlRpc::XmlRpcValue& o) { o = v; return true; }
template<typename T>
bool to(const XmlRpc::XmlRpcValue& v, std::vector<T>& o) {
    if (v.getType() != v.TypeArray) return false;
    std::vector<T> r;
    for (int i = 0; i < v.size(); ++i) { T t; if (!to(v[i], t)) return false; r.push_back(t); }
    o = r;
    return true;
}
inline void set_param(const std::string& name, const XmlRpc::XmlRpcValue& v) { bus().params[name] = v; }
}

// boost::make_shared of PCL types has to make PCL's own (std) pointers with the PCL installed here.
namespace shim {
template<typename T> struct std_made : std::false_type {};
}
#define SHIM_STD_MADE(TEMPLATE, ...)                                                              \
    namespace boost { namespace detail { TEMPLATE struct sp_if_not_array<__VA_ARGS__> {}; } }     \
    namespace shim { TEMPLATE struct std_made<__VA_ARGS__> : std::true_type {}; }
namespace pcl { namespace search { template<typename P, class T> class KdTree; } class Correspondence_; }
SHIM_STD_MADE(template<>, pcl::PCLPointCloud2)
SHIM_STD_MADE(template<typename P>, pcl::PointCloud<P>)
#include <pcl/correspondence.h>
SHIM_STD_MADE(template<>, pcl::Correspondences)
#include <pcl/search/kdtree.h>
namespace boost { namespace detail { template<typename P> struct sp_if_not_array<pcl::search::KdTree<P>> {}; } }
namespace shim { template<typename P> struct std_made<pcl::search::KdTree<P>> : std::true_type {}; }
namespace boost {
template<typename T, typename... A>
std::enable_if_t<shim::std_made<T>::value, std::shared_ptr<T>> make_shared(A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
}

// ------------------------------------------------------------------ roscpp API
namespace ros {
inline bool ok() { return shim::node_ok(); }
inline void shutdown() { shim::node_ok() = false; }
inline void spin() {}
inline void spinOnce() {}
inline void waitForShutdown() { if (shim::Bus::on_wait()) { auto f = shim::Bus::on_wait(); f(); } }
template<typename... A> void init(A&&...) {}
struct AsyncSpinner { explicit AsyncSpinner(uint32_t) {} void start() {} void stop() {} };

class Publisher {
public:
    Publisher() {}
    explicit Publisher(std::string t, std::type_index ty) : topic(std::move(t)), type(ty) {}
    template<typename M> void publish(const boost::shared_ptr<M>& m) const { do_publish<std::remove_const_t<M>>(*m, shared(m)); }
    template<typename M> void publish(const std::shared_ptr<M>& m) const { do_publish<std::remove_const_t<M>>(*m, shared(m)); }
    template<typename M> void publish(const M& m) const { do_publish<M>(m); }
    const std::string& getTopic() const { return topic; }
    uint32_t getNumSubscribers() const { return 1; }
private:
    template<template<typename> class P, typename M> static std::any shared(const P<M>& m) { return std::any(P<M const>(m)); }
    template<typename M> void do_publish(const M& m, const std::any& object = {}) const {
        if (topic.empty()) throw std::logic_error("Call to publish() on an invalid Publisher");
        if (std::type_index(typeid(typename shim::Wire<M>::type)) != type)
            throw std::logic_error("Trying to publish message of the wrong type on " + topic);
        shim::publish<M>(topic, m, object);
    }
    std::string topic;
    std::type_index type{typeid(void)};
};
class Subscriber {
public:
    std::shared_ptr<shim::SubHandle> handle;
    void shutdown() { handle.reset(); }
    std::string getTopic() const { return handle ? handle->topic : ""; }
};
class ServiceServer {};
struct TransportHints { TransportHints& tcpNoDelay(bool = true) { return *this; } };

class NodeHandle {
public:
    NodeHandle(const std::string& n = "") {
        if (n.empty()) ns = "/";
        else if (n[0] == '~') ns = "/node" + (n.size() > 1 ? "/" + n.substr(1) : "");
        else ns = n[0] == '/' ? n : "/" + n;
    }
    NodeHandle(const NodeHandle& p, const std::string& n) { ns = shim::resolve(p.ns, n); }
    std::string resolveName(const std::string& n) const { return shim::resolve(ns, n); }
    const std::string& getNamespace() const { return ns; }
    template<typename M> Publisher advertise(const std::string& t, uint32_t, bool = false) {
        const std::string topic = shim::resolve(ns, t);
        const std::type_index ty(typeid(typename shim::Wire<M>::type));
        shim::bus().advertised.insert_or_assign(topic, ty);
        return Publisher(topic, ty);
    }
    template<typename M, typename T>
    Subscriber subscribe(const std::string& t, uint32_t, void (T::*fp)(const typename shim::PtrTraits<M>::ConstPtr&), T* obj,
            const TransportHints& = TransportHints()) {
        return sub<M>(t, [fp, obj](const typename shim::PtrTraits<M>::ConstPtr& m) { (obj->*fp)(m); });
    }
    template<typename M, typename T>
    Subscriber subscribe(const std::string& t, uint32_t, void (T::*fp)(const typename shim::PtrTraits<M>::ConstPtr&) const, T* obj,
            const TransportHints& = TransportHints()) {
        return sub<M>(t, [fp, obj](const typename shim::PtrTraits<M>::ConstPtr& m) { (obj->*fp)(m); });
    }
    template<typename M>
    Subscriber subscribe(const std::string& t, uint32_t, std::function<void(const typename shim::PtrTraits<M>::ConstPtr&)> f) { return sub<M>(t, f); }
    template<typename T, typename Req, typename Res>
    ServiceServer advertiseService(const std::string& t, bool (T::*fp)(Req&, Res&), T* obj) {
        shim::bus().services[shim::resolve(ns, t)] = [fp, obj](void* q, void* s, bool& ok) { ok = (obj->*fp)(*static_cast<Req*>(q), *static_cast<Res*>(s)); };
        return {};
    }
    bool hasParam(const std::string& n) const { shim::Quiet quiet; shim::bus().read.insert(shim::resolve(ns, n)); return shim::bus().params.count(shim::resolve(ns, n)) > 0 || prefixed(n); }
    template<typename T> bool getParam(const std::string& n, T& v) const {
        shim::Quiet quiet;
        shim::bus().read.insert(shim::resolve(ns, n));
        const auto it = shim::bus().params.find(shim::resolve(ns, n));
        return it != shim::bus().params.end() && shim::to(it->second, v);
    }
    template<typename T> bool param(const std::string& n, T& v, const T& def) const {
        if (getParam(n, v)) return true;
        v = def;
        return false;
    }
    template<typename T> T param(const std::string& n, const T& def) const { T v; param<T>(n, v, def); return v; }
    template<typename T> void setParam(const std::string& n, const T& v) const { shim::set_param(shim::resolve(ns, n), XmlRpc::XmlRpcValue(v)); }
private:
    bool prefixed(const std::string& n) const {
        const std::string p = shim::resolve(ns, n) + "/";
        const auto it = shim::bus().params.lower_bound(p);
        return it != shim::bus().params.end() && it->first.compare(0, p.size(), p) == 0;
    }
    template<typename M> Subscriber sub(const std::string& t, std::function<void(const typename shim::PtrTraits<M>::ConstPtr&)> f) {
        Subscriber s;
        s.handle = shim::add_sub(shim::resolve(ns, t), [f](const std::any& w) {
            typename shim::PtrTraits<M>::ConstPtr p;
            {
                shim::Quiet quiet;
                const auto* same = std::any_cast<typename shim::PtrTraits<M>::ConstPtr>(&w);
                if (same) p = *same;
                else p.reset(new M(shim::Wire<M>::from(std::any_cast<const typename shim::Wire<M>::type&>(w))));
            }
            f(p);
        }, typeid(typename shim::PtrTraits<M>::ConstPtr));
        return s;
    }
    std::string ns;
};

namespace topic {
// The most recent message published on the topic, or null ("timed out").
template<typename M>
boost::shared_ptr<M const> waitForMessage(const std::string& t, NodeHandle& nh, Duration = Duration()) {
    const std::string topic = nh.resolveName(t);
    const auto& p = shim::bus().published;
    for (auto it = p.rbegin(); it != p.rend(); ++it) {
        if (it->topic == topic) return boost::shared_ptr<M const>(new M(shim::Wire<M>::from(std::any_cast<const typename shim::Wire<M>::type&>(it->wire))));
    }
    return {};
}
}
}

#define SHIM_LOG_ON(x) do { std::ostringstream shim_os; shim_os << x; (void)shim_os; } while (0)
#define SHIM_LOG_OFF(x) do { if (false) { std::ostringstream shim_os; shim_os << x; } } while (0)
#define ROS_DEBUG_STREAM(x) SHIM_LOG_OFF(x)
#define ROS_INFO_STREAM(x) SHIM_LOG_ON(x)
#define ROS_WARN_STREAM(x) SHIM_LOG_ON(x)
#define ROS_ERROR_STREAM(x) SHIM_LOG_ON(x)
#define ROS_FATAL_STREAM(x) SHIM_LOG_ON(x)
#define ROS_INFO_STREAM_COND(c, x) do { if (c) SHIM_LOG_ON(x); } while (0)
#define ROS_WARN_STREAM_COND(c, x) do { if (c) SHIM_LOG_ON(x); } while (0)
#define ROS_INFO_STREAM_ONCE(x) SHIM_LOG_ON(x)
#define ROS_WARN_STREAM_ONCE(x) SHIM_LOG_ON(x)
#define ROS_INFO_STREAM_THROTTLE(t, x) SHIM_LOG_ON(x)
#define ROS_WARN_STREAM_THROTTLE(t, x) SHIM_LOG_ON(x)
#define ROS_DEBUG(...) do { } while (0)
#define ROS_INFO(...) do { } while (0)
#define ROS_WARN(...) do { } while (0)
#define ROS_ERROR(...) do { } while (0)
#define ROS_INFO_COND(c, ...) do { (void)(c); } while (0)
#define ROS_WARN_COND(c, ...) do { (void)(c); } while (0)
#define ROS_ERROR_COND(c, ...) do { (void)(c); } while (0)
#define ROS_INFO_ONCE(...) do { } while (0)
#define ROS_WARN_ONCE(...) do { } while (0)
