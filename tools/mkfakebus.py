#!/usr/bin/env python3
"""tools/seedlib/fakebus.sh: writes a tree of runnable sdbusplus & co. stand-ins into $1 (for the
demonstrations of planted bugs only; the checks never use it)."""
import os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + '/stubs'
CORE = r'''#pragma once
#include <systemd/sd-bus.h>
#include <any>
#include <cstdint>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <typeinfo>
#include <utility>
#include <variant>
#include <vector>
#include <boost/asio/io_context.hpp>
namespace sdbusplus
{
struct exception_t : public std::exception
{
    std::string text = "fake.Error";
    const char* name() const noexcept { return text.c_str(); }
    const char* description() const noexcept { return text.c_str(); }
    const char* what() const noexcept override { return text.c_str(); }
    int get_errno() const noexcept { return 5; }
};
namespace exception
{
using exception = sdbusplus::exception_t;
struct SdBusError : public exception_t
{
    SdBusError(int, const char* t) { text = t; }
};
} // namespace exception
namespace message
{
class object_path
{
  public:
    std::string str;
    object_path() = default;
    object_path(const std::string& s) : str(s) {}
    object_path(const char* s) : str(s) {}
    operator const std::string&() const { return str; }
    std::string filename() const
    {
        auto p = str.rfind('/');
        return p == std::string::npos ? "" : str.substr(p + 1);
    }
    object_path parent_path() const
    {
        auto p = str.rfind('/');
        return p == 0 || p == std::string::npos ? object_path("/") : object_path(str.substr(0, p));
    }
    bool operator==(const object_path& o) const { return str == o.str; }
    bool operator<(const object_path& o) const { return str < o.str; }
};
struct data
{
    std::string dest, path, iface, member, sender;
    std::vector<std::any> args;
    size_t pos = 0;
};
template <typename T>
struct wire
{
    using type = std::decay_t<T>;
};
template <size_t N>
struct wire<const char (&)[N]>
{
    using type = std::string;
};
template <>
struct wire<const char*&>
{
    using type = std::string;
};
template <>
struct wire<const char* const&>
{
    using type = std::string;
};
template <>
struct wire<const char*>
{
    using type = std::string;
};
inline std::map<sd_bus_message*, std::shared_ptr<data>>& raw()
{
    static std::map<sd_bus_message*, std::shared_ptr<data>> m;
    return m;
}
class message
{
  public:
    std::shared_ptr<data> d = std::make_shared<data>();
    message() = default;
    explicit message(sd_bus_message* m) { d = raw().at(m); }
    template <typename... A>
    void append(A&&... args)
    {
        (d->args.push_back(std::any(typename wire<A>::type(args))), ...);
    }
    template <typename... A>
    void read(A&&... args)
    {
        (one(args), ...);
    }
    template <typename T>
    void one(T& t)
    {
        if (d->pos >= d->args.size())
            throw exception::SdBusError(5, "fake.NoMoreArguments");
        T* p = std::any_cast<T>(&d->args[d->pos]);
        if (!p)
            throw exception::SdBusError(5, "fake.TypeMismatch");
        t = *p;
        d->pos++;
    }
    template <typename T>
    T unpack()
    {
        T t;
        one(t);
        return t;
    }
    template <typename A, typename B, typename... R>
    std::tuple<A, B, R...> unpack()
    {
        std::tuple<A, B, R...> t;
        std::apply([this](auto&... x) { (one(x), ...); }, t);
        return t;
    }
    const char* get_sender() const { return d->sender.c_str(); }
    const char* get_path() const { return d->path.c_str(); }
    const char* get_member() const { return d->member.c_str(); }
    const char* get_interface() const { return d->iface.c_str(); }
    const char* get_destination() const { return d->dest.c_str(); }
    bool is_method_error() const { return false; }
};
} // namespace message
using message_t = message::message;
using object_path = message::object_path;
// the fake peer: answers every call made on any bus
struct FakePeer
{
    std::function<message_t(message_t&)> call;
    std::vector<message_t> calls;
};
inline FakePeer& fakePeer()
{
    static FakePeer p;
    return p;
}
namespace bus
{
class bus
{
  public:
    bus() = default;
    virtual ~bus() = default;
    bus(bus&&) = default;
    bus& operator=(bus&&) = default;
    explicit bus(sd_bus*) {}
    message_t new_method_call(const char* s, const char* p, const char* i, const char* m)
    {
        message_t x;
        x.d->dest = s;
        x.d->path = p;
        x.d->iface = i;
        x.d->member = m;
        return x;
    }
    message_t call(message_t& m)
    {
        fakePeer().calls.push_back(m);
        if (!fakePeer().call)
            throw exception::SdBusError(5, "fake.NoPeer");
        return fakePeer().call(m);
    }
    message_t call(message_t& m, uint64_t) { return call(m); }
    void call_noreply(message_t& m) { call(m); }
    void request_name(const char*) {}
    void process_discard() {}
};
inline bus new_bus() { return bus(); }
inline bus new_default() { return bus(); }
inline bus new_default_system() { return bus(); }
inline bus new_system() { return bus(); }
} // namespace bus
using bus_t = bus::bus;
namespace bus
{
namespace match
{
class match
{
  public:
    using callback_t = std::function<void(message_t&)>;
    struct rec
    {
        std::string rule;
        sd_bus_message_handler_t h = nullptr;
        void* ctx = nullptr;
        callback_t cb;
    };
    static std::vector<rec>& all()
    {
        static std::vector<rec> a;
        return a;
    }
    match(bus_t&, const std::string& rule, sd_bus_message_handler_t h, void* ctx = nullptr)
    {
        all().push_back({rule, h, ctx, {}});
    }
    match(bus_t&, const std::string& rule, callback_t cb)
    {
        all().push_back({rule, nullptr, nullptr, cb});
    }
    match(match&&) = default;
    match& operator=(match&&) = default;
};
namespace rules
{
inline std::string propertiesChanged(const std::string& p, const std::string& i)
{
    return "pc," + p + "," + i;
}
inline std::string propertiesChangedNamespace(const std::string& p, const std::string& i)
{
    return "pcn," + p + "," + i;
}
inline std::string interfacesAdded() { return "added"; }
inline std::string interfacesRemoved() { return "removed"; }
} // namespace rules
} // namespace match
} // namespace bus
using match = bus::match::match;
using match_t = bus::match::match;
namespace match_rules
{
using namespace bus::match::rules;
}
namespace asio
{
class connection : public sdbusplus::bus_t
{
  public:
    explicit connection(boost::asio::io_context&) {}
    connection(boost::asio::io_context&, sd_bus*) {}
    connection(boost::asio::io_context&, sdbusplus::bus_t&&) {}
};
} // namespace asio
namespace server
{
namespace manager
{
class manager
{
  public:
    manager(bus_t&, const char*) {}
};
} // namespace manager
using manager_t = manager::manager;
namespace object
{
template <class... Args>
class object : public Args...
{
  public:
    enum class action
    {
        emit_object_added,
        emit_interface_added,
        emit_no_signals,
        defer_emit,
    };
    object(bus_t&, const char*, action = action::emit_object_added) {}
    object(const object&) = delete;
    object& operator=(const object&) = delete;
    void emit_added() {}
    void emit_object_added() {}
    virtual ~object() = default;
};
} // namespace object
template <class... Args>
using object_t = object::object<Args...>;
} // namespace server
} // namespace sdbusplus
template <>
struct std::hash<sdbusplus::message::object_path>
{
    size_t operator()(const sdbusplus::message::object_path& p) const
    {
        return std::hash<std::string>()(p.str);
    }
};
'''


def conv(t):
    t = re.sub(r'virtual ~(\w+)\(\);', r'virtual ~\1() = default;', t)
    t = re.sub(r'virtual (\S+) (\w+)\(\) const;', r'\1 \2_{};\n    virtual \1 \2() const { return \2_; }', t)
    t = re.sub(r'virtual (\S+) (\w+)\((\S+) value\);', r'virtual \1 \2(\3 value) { return \2_ = value; }', t)
    t = re.sub(r'virtual (\S+) (\w+)\((\S+) value, bool skipSignal\);', r'virtual \1 \2(\3 value, bool) { return \2_ = value; }', t)
    return t


out = ['#!/bin/sh', '# fakebus.sh DIR: writes runnable stand-ins for sdbusplus and friends under DIR', 'set -e']
for d, ds, fs in sorted(os.walk(S)):
    for f in sorted(fs):
        rel = os.path.relpath(os.path.join(d, f), S)
        if rel.startswith('cfg1'):
            continue
        t = open(os.path.join(d, f)).read()
        if f == 'stub_core.hpp':
            t = CORE
        elif rel.endswith('log.hpp'):
            t = t.replace('entry_t entry(const char* fmt, A&&... a);', 'entry_t entry(const char*, A&&...) { return {}; }')
            t = t.replace('void log(M&& msg, E&&... e);', 'void log(M&&, E&&...) {}')
        else:
            t = conv(t)
        rel = re.sub('^cfg0/', '', rel)
        if rel == 'config.h':
            t = t.replace('#pragma once\n', '#pragma once\n')
        out.append('mkdir -p "$1/%s"' % os.path.dirname(rel))
        out.append("cat > \"$1/%s\" <<'EOF_FAKE'\n%s\nEOF_FAKE" % (rel, t.rstrip('\n')))
open(V + '/tools/seedlib/fakebus.sh', 'w').write('\n'.join(out) + '\n')
