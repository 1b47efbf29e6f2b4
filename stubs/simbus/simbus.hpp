// An in-memory stand-in for a D-Bus daemon, the object mapper and libsystemd's
// bus object, so that every source of phosphor-pid-control runs in one process
// under a harness that sees each call and can inject signals and faults.
#pragma once
#include <array>
#include <cstdint>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

namespace sdbusplus
{
namespace exception
{
class exception : public std::exception
{
  public:
    virtual const char* name() const noexcept = 0;
    virtual const char* description() const noexcept = 0;
    virtual int get_errno() const noexcept = 0;
};
class SdBusError final : public exception
{
  public:
    SdBusError(int e, std::string n, std::string d = "") :
        err(e), nm(std::move(n)), desc(std::move(d)), full(nm + ": " + desc)
    {}
    SdBusError(int e, const char* prefix) :
        err(e), nm("org.freedesktop.DBus.Error.Failed"), desc(prefix),
        full(nm + ": " + desc)
    {}
    const char* name() const noexcept override { return nm.c_str(); }
    const char* description() const noexcept override { return desc.c_str(); }
    const char* what() const noexcept override { return full.c_str(); }
    int get_errno() const noexcept override { return err; }

  private:
    int err;
    std::string nm, desc, full;
};
} // namespace exception
using exception_t = exception::exception;
} // namespace sdbusplus

namespace sdbusplus::message
{
struct object_path
{
    std::string str;
    object_path() = default;
    object_path(const std::string& s) : str(s) {}
    object_path(const char* s) : str(s) {}
    operator const std::string&() const& { return str; }
    std::string filename() const
    {
        auto p = str.rfind('/');
        return p == std::string::npos ? std::string() : str.substr(p + 1);
    }
    object_path parent_path() const
    {
        auto p = str.rfind('/');
        if (p == std::string::npos || p == 0) return object_path("/");
        return object_path(str.substr(0, p));
    }
    friend bool operator==(const object_path& a, const object_path& b)
    {
        return a.str == b.str;
    }
    friend bool operator<(const object_path& a, const object_path& b)
    {
        return a.str < b.str;
    }
};
} // namespace sdbusplus::message
namespace sdbusplus
{
using object_path = message::object_path;
}
namespace std
{
template <>
struct hash<sdbusplus::message::object_path>
{
    size_t operator()(const sdbusplus::message::object_path& p) const
    {
        return hash<string>()(p.str);
    }
};
} // namespace std

namespace simbus
{

struct Val
{
    // b y n q i u x t d s o a v r e(dict entry)
    char t = 0;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;        // s, o
    std::string esig;     // element signature of an array
    std::vector<Val> kids;

    std::string sig() const
    {
        switch (t)
        {
            case 'a':
                return "a" + esig;
            case 'r':
            {
                std::string o = "(";
                for (auto& k : kids) o += k.sig();
                return o + ")";
            }
            case 'e':
                return "{" + kids[0].sig() + kids[1].sig() + "}";
            default:
                return std::string(1, t);
        }
    }
    double num() const // any numeric as double
    {
        switch (t)
        {
            case 'd': return d;
            case 'y': case 'q': case 'u': case 't': return double(u);
            case 'v': return kids[0].num();
            default: return double(i);
        }
    }
    std::string str() const;
};

template <typename T> struct Conv; // sig(), to(), from()

template <typename T> std::string sigOf() { return Conv<std::decay_t<T>>::sig(); }
template <typename T> Val toVal(const T& x) { return Conv<std::decay_t<T>>::to(x); }
[[noreturn]] inline void badType(const std::string& want, const std::string& got)
{
    throw sdbusplus::exception::SdBusError(
        6, "System.Error.ENXIO", "sd_bus_message_read: want " + want + " got " + got);
}
template <typename T> void fromVal(const Val& v, T& out)
{
    Conv<T>::from(v, out);
}

#define SIM_INT(T, C, F)                                                      \
    template <> struct Conv<T>                                                \
    {                                                                         \
        static std::string sig() { return C; }                                \
        static Val to(T x) { Val v; v.t = C[0]; v.F = x; return v; }           \
        static void from(const Val& v, T& o)                                  \
        {                                                                     \
            if (v.t != C[0]) badType(C, v.sig());                             \
            o = static_cast<T>(v.F);                                          \
        }                                                                     \
    };
SIM_INT(bool, "b", i)
SIM_INT(uint8_t, "y", u)
SIM_INT(int16_t, "n", i)
SIM_INT(uint16_t, "q", u)
SIM_INT(int32_t, "i", i)
SIM_INT(uint32_t, "u", u)
SIM_INT(int64_t, "x", i)
SIM_INT(uint64_t, "t", u)
SIM_INT(double, "d", d)
#undef SIM_INT
template <> struct Conv<std::string>
{
    static std::string sig() { return "s"; }
    static Val to(const std::string& x) { Val v; v.t = 's'; v.s = x; return v; }
    static void from(const Val& v, std::string& o)
    {
        if (v.t != 's' && v.t != 'o') badType("s", v.sig());
        o = v.s;
    }
};
template <> struct Conv<const char*>
{
    static std::string sig() { return "s"; }
    static Val to(const char* x) { Val v; v.t = 's'; v.s = x; return v; }
    static void from(const Val& v, const char*& o) { o = v.s.c_str(); }
};
template <> struct Conv<char*> : Conv<const char*> {};
template <> struct Conv<std::string_view>
{
    static std::string sig() { return "s"; }
    static Val to(std::string_view x) { Val v; v.t = 's'; v.s = x; return v; }
};
template <> struct Conv<sdbusplus::message::object_path>
{
    static std::string sig() { return "o"; }
    static Val to(const sdbusplus::message::object_path& x)
    {
        Val v; v.t = 'o'; v.s = x.str; return v;
    }
    static void from(const Val& v, sdbusplus::message::object_path& o)
    {
        if (v.t != 'o' && v.t != 's') badType("o", v.sig());
        o.str = v.s;
    }
};
template <> struct Conv<Val> // already a value: passed through
{
    static std::string sig() { return "v"; }
    static Val to(const Val& x) { return x; }
    static void from(const Val& v, Val& o) { o = v; }
};

template <typename C, typename E> struct ConvSeq
{
    static std::string sig() { return "a" + sigOf<E>(); }
    static Val to(const C& x)
    {
        Val v; v.t = 'a'; v.esig = sigOf<E>();
        for (const auto& e : x) v.kids.push_back(toVal<E>(e));
        return v;
    }
    static void from(const Val& v, C& o)
    {
        if (v.t != 'a') badType(sig(), v.sig());
        if (v.esig != sigOf<E>()) badType(sig(), v.sig());
        for (auto& k : v.kids) { E e{}; fromVal(k, e); o.insert(o.end(), std::move(e)); }
    }
};
template <typename E, typename A> struct Conv<std::vector<E, A>> : ConvSeq<std::vector<E, A>, E> {};
template <typename E> struct Conv<std::set<E>> : ConvSeq<std::set<E>, E> {};
template <typename E, size_t N> struct Conv<std::array<E, N>>
{
    static std::string sig() { return "a" + sigOf<E>(); }
    static Val to(const std::array<E, N>& x)
    {
        Val v; v.t = 'a'; v.esig = sigOf<E>();
        for (const auto& e : x) v.kids.push_back(toVal<E>(e));
        return v;
    }
};
template <typename M> concept MapLike = requires {
    typename M::key_type; typename M::mapped_type;
};
template <MapLike M> struct Conv<M>
{
    using K = typename M::key_type;
    using V = typename M::mapped_type;
    static std::string esig() { return "{" + sigOf<K>() + sigOf<V>() + "}"; }
    static std::string sig() { return "a" + esig(); }
    static Val to(const M& x)
    {
        Val v; v.t = 'a'; v.esig = esig();
        for (const auto& [k, e] : x)
        {
            Val d; d.t = 'e'; d.kids = {toVal<K>(k), toVal<V>(e)};
            v.kids.push_back(std::move(d));
        }
        return v;
    }
    static void from(const Val& v, M& o)
    {
        if (v.t != 'a' || v.esig != esig()) badType(sig(), v.sig());
        for (auto& k : v.kids)
        {
            K kk{}; V vv{};
            fromVal(k.kids[0], kk);
            fromVal(k.kids[1], vv);
            o.emplace(std::move(kk), std::move(vv));
        }
    }
};
template <typename... A> struct Conv<std::tuple<A...>>
{
    static std::string sig() { return "(" + (sigOf<A>() + ... + std::string()) + ")"; }
    static Val to(const std::tuple<A...>& x)
    {
        Val v; v.t = 'r';
        std::apply([&](const auto&... e) { (v.kids.push_back(toVal(e)), ...); }, x);
        return v;
    }
    static void from(const Val& v, std::tuple<A...>& o)
    {
        if (v.sig() != sig()) badType(sig(), v.sig());
        size_t i = 0;
        std::apply([&](auto&... e) { (fromVal(v.kids[i++], e), ...); }, o);
    }
};
template <typename A, typename B> struct Conv<std::pair<A, B>>
{
    static std::string sig() { return "(" + sigOf<A>() + sigOf<B>() + ")"; }
    static Val to(const std::pair<A, B>& x)
    {
        Val v; v.t = 'r'; v.kids = {toVal(x.first), toVal(x.second)}; return v;
    }
    static void from(const Val& v, std::pair<A, B>& o)
    {
        if (v.sig() != sig()) badType(sig(), v.sig());
        fromVal(v.kids[0], o.first); fromVal(v.kids[1], o.second);
    }
};
template <typename... A> struct Conv<std::variant<A...>>
{
    static std::string sig() { return "v"; }
    static Val to(const std::variant<A...>& x)
    {
        Val v; v.t = 'v';
        std::visit([&](const auto& e) { v.kids = {toVal(e)}; }, x);
        return v;
    }
    template <typename T> static bool tryOne(const Val& c, std::variant<A...>& o)
    {
        if (c.sig() != sigOf<T>()) return false;
        T t{};
        fromVal(c, t);
        o = std::move(t);
        return true;
    }
    static void from(const Val& v, std::variant<A...>& o)
    {
        if (v.t != 'v') badType("v", v.sig());
        // sdbusplus skips a variant none of whose alternatives match
        (void)(tryOne<A>(v.kids[0], o) || ...);
    }
};
inline Val mkVariant(Val c)
{
    Val v; v.t = 'v'; v.kids = {std::move(c)}; return v;
}
template <typename T> Val var(const T& x) { return mkVariant(toVal(x)); }

using Props = std::map<std::string, Val>;            // property -> plain value
using Ifaces = std::map<std::string, Props>;         // interface -> properties
using Objects = std::map<std::string, Ifaces>;       // path -> interfaces

struct Msg : std::enable_shared_from_this<Msg>
{
    std::string sender, dest, path, iface, member;
    bool signal = false;
    bool handled = false; // a handler returned not 0
    std::vector<Val> body;
    size_t cursor = 0;
};
using MsgP = std::shared_ptr<Msg>;

struct ServerIface // one interface of an object the program under test exports
{
    virtual ~ServerIface() = default;
    virtual std::string simInterface() const = 0;
    virtual bool simGet(const std::string& prop, Val& out) const = 0;
    virtual void simSet(const std::string& prop, const Val& v) = 0; // throws
    virtual std::vector<std::string> simProps() const = 0;
};

struct Bus
{
    std::string unique;
    std::set<std::string> names;
    std::map<std::string, std::map<std::string, ServerIface*>> objects;
    std::multiset<std::string> managers;
};

struct Match
{
    std::weak_ptr<Bus> bus;
    std::map<std::string, std::string> rule;
    std::string text;
    std::function<void(Msg&)> cb;
    bool dead = false;
    bool accepts(const Msg& m) const;
};

struct SetRec
{
    std::string service, path, iface, prop;
    Val value; // inside the variant
    bool ok = true;
};

struct Sim
{
    static Sim& get();
    void reset();

    // ---- the outside world, owned by the harness
    std::map<std::string, Objects> services; // bus name -> objects
    // fault hook: return a non-empty D-Bus error name to fail this call
    std::function<std::string(const Msg&)> fault;
    // called when a property of an outside object is set
    std::function<void(const SetRec&)> onSet;
    // optional recording of all calls
    std::function<void(const Msg&)> onCall;
    // signal emitted by the program (PropertiesChanged)
    std::function<void(const std::string& path, const std::string& iface,
                       const std::string& prop)> onOwnChange;
    bool mapperIncludesOwn = true;
    uint64_t nCalls = 0, nSignalsDelivered = 0, nSets = 0;

    // ---- harness actions
    void setProp(const std::string& svc, const std::string& path,
                 const std::string& iface, const std::string& prop, Val v,
                 bool signal);
    // returns number of handlers run
    int emitChanged(const std::string& sender, const std::string& path,
                    const std::string& iface,
                    const std::map<std::string, Val>& changed);
    int emitAdded(const std::string& sender, const std::string& path,
                  const Ifaces& ifaces);
    int emitRemoved(const std::string& sender, const std::string& path,
                    const std::vector<std::string>& ifaces);
    // read/write a property of an object exported by the program
    bool ownGet(const std::string& path, const std::string& iface,
                const std::string& prop, Val& out);
    bool ownSet(const std::string& path, const std::string& iface,
                const std::string& prop, const Val& v, std::string* err = nullptr);
    std::vector<std::pair<std::string, std::string>> ownObjects(); // path,iface
    size_t matchCount(const std::string& containing = "");

    // ---- used by the fake sdbusplus
    MsgP call(Bus& bus, Msg& m); // throws SdBusError
    std::list<std::shared_ptr<Match>> matches;
    std::list<std::weak_ptr<Bus>> buses;
    std::shared_ptr<Bus> newBus();
    std::shared_ptr<Match> addMatch(const std::shared_ptr<Bus>&,
                                    const std::string& rule,
                                    std::function<void(Msg&)>);
    void dropMatch(const std::shared_ptr<Match>&);

  private:
    int deliver(Msg& m);
    int nextUnique = 1;
    Ifaces ownIfaces(Bus& b, const std::string& path);
};

} // namespace simbus
