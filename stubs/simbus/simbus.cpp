#include "simbus/simbus.hpp"

#include <cerrno>
#include <cstdio>

namespace simbus
{
using sdbusplus::exception::SdBusError;

std::string Val::str() const
{
    char b[64];
    switch (t)
    {
        case 'b': return i ? "true" : "false";
        case 'n': case 'i': case 'x': return std::to_string(i);
        case 'y': case 'q': case 'u': case 't': return std::to_string(u);
        case 'd': snprintf(b, sizeof b, "%.17g", d); return b;
        case 's': case 'o': return s;
        case 'v': return "v:" + kids[0].str();
        default:
        {
            std::string o = "[";
            for (auto& k : kids) o += k.str() + ",";
            return o + "]";
        }
    }
}

Sim& Sim::get()
{
    static Sim* s = new Sim; // never destroyed: outlives all statics
    return *s;
}
void Sim::reset()
{
    services.clear();
    fault = nullptr;
    onSet = nullptr;
    onCall = nullptr;
    onOwnChange = nullptr;
    mapperIncludesOwn = true;
    nCalls = nSignalsDelivered = nSets = 0;
}

std::shared_ptr<Bus> Sim::newBus()
{
    auto b = std::make_shared<Bus>();
    b->unique = ":1." + std::to_string(nextUnique++);
    buses.remove_if([](auto& w) { return w.expired(); });
    buses.push_back(b);
    return b;
}

static std::map<std::string, std::string> parseRule(const std::string& r)
{
    std::map<std::string, std::string> out;
    size_t i = 0;
    while (i < r.size())
    {
        while (i < r.size() && (r[i] == ',' || r[i] == ' ')) i++;
        size_t eq = r.find('=', i);
        if (eq == std::string::npos) break;
        std::string k = r.substr(i, eq - i);
        i = eq + 1;
        std::string v;
        bool q = false;
        for (; i < r.size(); i++)
        {
            if (r[i] == '\'') { q = !q; continue; }
            if (r[i] == ',' && !q) break;
            v += r[i];
        }
        out[k] = v;
    }
    return out;
}

std::shared_ptr<Match> Sim::addMatch(const std::shared_ptr<Bus>& b,
                                     const std::string& rule,
                                     std::function<void(Msg&)> cb)
{
    auto m = std::make_shared<Match>();
    m->bus = b;
    m->rule = parseRule(rule);
    m->text = rule;
    m->cb = std::move(cb);
    matches.push_back(m);
    return m;
}
void Sim::dropMatch(const std::shared_ptr<Match>& m)
{
    m->dead = true;
    matches.remove(m);
}
size_t Sim::matchCount(const std::string& c)
{
    size_t n = 0;
    for (auto& m : matches)
        if (c.empty() || m->text.find(c) != std::string::npos) n++;
    return n;
}

bool Match::accepts(const Msg& m) const
{
    for (auto& [k, v] : rule)
    {
        const Val* a0 = m.body.empty() ? nullptr : &m.body[0];
        bool isStr = a0 && (a0->t == 's' || a0->t == 'o');
        if (k == "type") { if ((v == "signal") != m.signal) return false; }
        else if (k == "member") { if (v != m.member) return false; }
        else if (k == "interface") { if (v != m.iface) return false; }
        else if (k == "path") { if (v != m.path) return false; }
        else if (k == "sender") { if (v != m.sender) return false; }
        else if (k == "path_namespace")
        {
            if (!(m.path == v || (m.path.starts_with(v) &&
                                  (v.ends_with("/") || m.path[v.size()] == '/'))))
                return false;
        }
        else if (k == "arg0") { if (!isStr || a0->t != 's' || a0->s != v) return false; }
        else if (k == "arg0namespace")
        {
            if (!isStr || a0->t != 's') return false;
            if (!(a0->s == v || (a0->s.starts_with(v) && a0->s[v.size()] == '.')))
                return false;
        }
        else if (k == "arg0path")
        {
            if (!isStr) return false;
            const std::string& s = a0->s;
            bool ok = s == v || (!v.empty() && v.back() == '/' && s.starts_with(v)) ||
                      (!s.empty() && s.back() == '/' && v.starts_with(s));
            if (!ok) return false;
        }
        else
        {
            fprintf(stderr, "simbus: unsupported match key %s\n", k.c_str());
            return false;
        }
    }
    return true;
}

int Sim::deliver(Msg& m)
{
    int n = 0;
    std::vector<std::shared_ptr<Match>> snap(matches.begin(), matches.end());
    std::set<std::shared_ptr<Bus>> done;
    for (auto& x : snap)
    {
        if (x->dead || x->bus.expired() || !x->accepts(m)) continue;
        if (done.count(x->bus.lock())) continue;
        auto c = std::make_shared<Msg>(m);
        c->cursor = 0;
        x->cb(*c);
        n++;
        nSignalsDelivered++;
        if (c->handled) done.insert(x->bus.lock());
    }
    return n;
}

int Sim::emitChanged(const std::string& sender, const std::string& path,
                     const std::string& iface,
                     const std::map<std::string, Val>& changed)
{
    auto m = std::make_shared<Msg>();
    m->signal = true;
    m->sender = sender;
    m->path = path;
    m->iface = "org.freedesktop.DBus.Properties";
    m->member = "PropertiesChanged";
    std::map<std::string, std::variant<bool>> dummy;
    Val dict; dict.t = 'a'; dict.esig = "{sv}";
    for (auto& [k, v] : changed)
    {
        Val e; e.t = 'e'; e.kids = {toVal(k), mkVariant(v)};
        dict.kids.push_back(e);
    }
    m->body = {toVal(iface), dict, toVal(std::vector<std::string>{})};
    return deliver(*m);
}
static Val ifacesVal(const Ifaces& ifaces)
{
    Val top; top.t = 'a'; top.esig = "{sa{sv}}";
    for (auto& [i, props] : ifaces)
    {
        Val dict; dict.t = 'a'; dict.esig = "{sv}";
        for (auto& [k, v] : props)
        {
            Val e; e.t = 'e'; e.kids = {toVal(k), mkVariant(v)};
            dict.kids.push_back(e);
        }
        Val e; e.t = 'e'; e.kids = {toVal(i), dict};
        top.kids.push_back(e);
    }
    return top;
}
int Sim::emitAdded(const std::string& sender, const std::string& path,
                   const Ifaces& ifaces)
{
    auto m = std::make_shared<Msg>();
    m->signal = true;
    m->sender = sender;
    m->path = "/";
    m->iface = "org.freedesktop.DBus.ObjectManager";
    m->member = "InterfacesAdded";
    m->body = {toVal(sdbusplus::message::object_path(path)), ifacesVal(ifaces)};
    return deliver(*m);
}
int Sim::emitRemoved(const std::string& sender, const std::string& path,
                     const std::vector<std::string>& ifaces)
{
    auto m = std::make_shared<Msg>();
    m->signal = true;
    m->sender = sender;
    m->path = "/";
    m->iface = "org.freedesktop.DBus.ObjectManager";
    m->member = "InterfacesRemoved";
    m->body = {toVal(sdbusplus::message::object_path(path)), toVal(ifaces)};
    return deliver(*m);
}
void Sim::setProp(const std::string& svc, const std::string& path,
                  const std::string& iface, const std::string& prop, Val v,
                  bool signal)
{
    services[svc][path][iface][prop] = v;
    if (signal) emitChanged(svc, path, iface, {{prop, v}});
}

Ifaces Sim::ownIfaces(Bus& b, const std::string& path)
{
    Ifaces out;
    auto it = b.objects.find(path);
    if (it == b.objects.end()) return out;
    for (auto& [i, p] : it->second)
    {
        auto& props = out[i];
        for (auto& n : p->simProps())
        {
            Val v;
            if (p->simGet(n, v)) props[n] = v;
        }
    }
    return out;
}
bool Sim::ownGet(const std::string& path, const std::string& iface,
                 const std::string& prop, Val& out)
{
    for (auto& w : buses)
        if (auto b = w.lock())
        {
            auto o = b->objects.find(path);
            if (o == b->objects.end()) continue;
            auto i = o->second.find(iface);
            if (i == o->second.end()) continue;
            return i->second->simGet(prop, out);
        }
    return false;
}
bool Sim::ownSet(const std::string& path, const std::string& iface,
                 const std::string& prop, const Val& v, std::string* err)
{
    for (auto& w : buses)
        if (auto b = w.lock())
        {
            auto o = b->objects.find(path);
            if (o == b->objects.end()) continue;
            auto i = o->second.find(iface);
            if (i == o->second.end()) continue;
            try
            {
                i->second->simSet(prop, v);
            }
            catch (const SdBusError& e)
            {
                if (err) *err = e.what();
                return false;
            }
            return true;
        }
    return false;
}
std::vector<std::pair<std::string, std::string>> Sim::ownObjects()
{
    std::vector<std::pair<std::string, std::string>> out;
    for (auto& w : buses)
        if (auto b = w.lock())
            for (auto& [p, is] : b->objects)
                for (auto& [i, x] : is) out.emplace_back(p, i);
    return out;
}

[[noreturn]] static void unknownObject(const Msg& m)
{
    throw SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownObject",
                     "Unknown object '" + m.path + "'.");
}

MsgP Sim::call(Bus& /*bus*/, Msg& m)
{
    nCalls++;
    if (onCall) onCall(m);
    if (fault)
    {
        std::string e = fault(m);
        if (!e.empty()) throw SdBusError(ETIMEDOUT, e, "injected");
    }
    auto reply = std::make_shared<Msg>();
    reply->sender = m.dest;
    auto arg = [&](size_t i) -> const Val& {
        if (i >= m.body.size()) badType("argument", "end of message");
        return m.body[i];
    };

    std::vector<std::pair<std::string, std::shared_ptr<Bus>>> own;
    for (auto& w : buses)
        if (auto b = w.lock())
        {
            for (auto& n : b->names) own.emplace_back(n, b);
            if (b->unique == m.dest) own.emplace_back(b->unique, b);
        }

    if (m.dest == "xyz.openbmc_project.ObjectMapper")
    {
        using SvcMap = std::map<std::string, std::vector<std::string>>;
        std::map<std::string, SvcMap> all; // path -> svc -> ifaces
        for (auto& [svc, objs] : services)
            for (auto& [p, ifs] : objs)
                for (auto& [i, props] : ifs) all[p][svc].push_back(i);
        if (mapperIncludesOwn)
            for (auto& [n, b] : own)
                for (auto& [p, ifs] : b->objects)
                    for (auto& [i, x] : ifs) all[p][n].push_back(i);
        auto filter = [](const SvcMap& s, const std::vector<std::string>& want) {
            if (want.empty()) return s;
            SvcMap o;
            for (auto& [svc, ifs] : s)
                for (auto& i : ifs)
                {
                    bool hit = false;
                    for (auto& w : want) hit |= w == i;
                    if (hit) { o[svc] = ifs; break; }
                }
            return o;
        };
        std::string path;
        std::vector<std::string> want;
        fromVal(arg(0), path);
        if (m.member == "GetObject")
        {
            fromVal(arg(1), want);
            auto it = all.find(path);
            SvcMap r;
            if (it != all.end()) r = filter(it->second, want);
            if (r.empty())
                throw SdBusError(
                    EIO, "xyz.openbmc_project.Common.Error.ResourceNotFound", path);
            reply->body = {toVal(r)};
            return reply;
        }
        if (m.member == "GetSubTree")
        {
            int32_t depth = 0;
            fromVal(arg(1), depth);
            fromVal(arg(2), want);
            std::map<std::string, SvcMap> r;
            for (auto& [p, s] : all)
            {
                if (path != "/" && !(p.starts_with(path + "/"))) continue;
                auto f = filter(s, want);
                if (!f.empty()) r[p] = f;
            }
            reply->body = {toVal(r)};
            return reply;
        }
        throw SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownMethod", m.member);
    }

    // objects exported by the program under test
    for (auto& [n, b] : own)
    {
        if (n != m.dest) continue;
        auto o = b->objects.find(m.path);
        if (o == b->objects.end()) unknownObject(m);
        if (m.iface != "org.freedesktop.DBus.Properties") unknownObject(m);
        std::string iface;
        fromVal(arg(0), iface);
        auto i = o->second.find(iface);
        if (i == o->second.end())
            throw SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownInterface", iface);
        if (m.member == "GetAll")
        {
            Val dict; dict.t = 'a'; dict.esig = "{sv}";
            for (auto& p : i->second->simProps())
            {
                Val v;
                i->second->simGet(p, v);
                Val e; e.t = 'e'; e.kids = {toVal(p), mkVariant(v)};
                dict.kids.push_back(e);
            }
            reply->body = {dict};
            return reply;
        }
        std::string prop;
        fromVal(arg(1), prop);
        if (m.member == "Get")
        {
            Val v;
            if (!i->second->simGet(prop, v))
                throw SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", prop);
            reply->body = {mkVariant(v)};
            return reply;
        }
        if (m.member == "Set")
        {
            if (arg(2).t != 'v') badType("v", arg(2).sig());
            i->second->simSet(prop, arg(2).kids[0]);
            return reply;
        }
        unknownObject(m);
    }

    auto s = services.find(m.dest);
    if (s == services.end())
        throw SdBusError(EHOSTUNREACH, "org.freedesktop.DBus.Error.ServiceUnknown", m.dest);

    if (m.iface == "org.freedesktop.DBus.ObjectManager" &&
        m.member == "GetManagedObjects")
    {
        auto root = s->second.find(m.path);
        if (root == s->second.end() ||
            !root->second.contains("org.freedesktop.DBus.ObjectManager"))
            unknownObject(m);
        Val top; top.t = 'a'; top.esig = "{oa{sa{sv}}}";
        for (auto& [p, ifs] : s->second)
        {
            if (p == m.path) continue;
            if (m.path != "/" && !p.starts_with(m.path + "/")) continue;
            Val e; e.t = 'e';
            e.kids = {toVal(sdbusplus::message::object_path(p)), ifacesVal(ifs)};
            top.kids.push_back(e);
        }
        reply->body = {top};
        return reply;
    }
    auto o = s->second.find(m.path);
    if (o == s->second.end()) unknownObject(m);
    if (m.iface == "org.freedesktop.DBus.Properties")
    {
        std::string iface;
        fromVal(arg(0), iface);
        auto i = o->second.find(iface);
        if (i == o->second.end())
            throw SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownInterface", iface);
        if (m.member == "GetAll")
        {
            Val dict; dict.t = 'a'; dict.esig = "{sv}";
            for (auto& [p, v] : i->second)
            {
                Val e; e.t = 'e'; e.kids = {toVal(p), mkVariant(v)};
                dict.kids.push_back(e);
            }
            reply->body = {dict};
            return reply;
        }
        std::string prop;
        fromVal(arg(1), prop);
        if (m.member == "Get")
        {
            auto p = i->second.find(prop);
            if (p == i->second.end())
                throw SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", prop);
            reply->body = {mkVariant(p->second)};
            return reply;
        }
        if (m.member == "Set")
        {
            if (arg(2).t != 'v') badType("v", arg(2).sig());
            auto p = i->second.find(prop);
            if (p == i->second.end())
                throw SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", prop);
            if (p->second.sig() != arg(2).kids[0].sig())
                throw SdBusError(ENXIO, "org.freedesktop.DBus.Error.InvalidArgs", prop);
            p->second = arg(2).kids[0];
            nSets++;
            if (onSet) onSet({m.dest, m.path, iface, prop, p->second, true});
            return reply;
        }
    }
    unknownObject(m);
}

} // namespace simbus
