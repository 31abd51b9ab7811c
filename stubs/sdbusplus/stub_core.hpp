#pragma once
// Declaration-only stand-ins for sdbusplus, used to parse (never to run) the
// D-Bus half of the repository, whose real headers are not installed here.
#include <systemd/sd-bus.h>
#include <cstdint>
#include <exception>
#include <functional>
#include <string>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include <boost/asio/io_context.hpp>

namespace sdbusplus
{
struct exception_t : public std::exception
{
    const char* name() const noexcept;
    const char* description() const noexcept;
    const char* what() const noexcept override;
    int get_errno() const noexcept;
};
namespace exception
{
using exception = sdbusplus::exception_t;
struct SdBusError : public exception_t
{
    SdBusError(int, const char*);
};
} // namespace exception

struct SdBusDuration;
namespace message
{
class object_path
{
  public:
    std::string str;
    object_path();
    object_path(const object_path&);
    object_path(object_path&&);
    object_path& operator=(const object_path&);
    object_path& operator=(object_path&&);
    object_path(const std::string& s);
    object_path(const char* s);
    operator const std::string&() const;
    std::string filename() const;
    object_path parent_path() const;
    bool operator==(const object_path&) const;
    bool operator<(const object_path&) const;
};
class message
{
  public:
    message();
    explicit message(sd_bus_message* m);
    message(const message&);
    message(message&&);
    ~message();
    message& operator=(const message&);
    message& operator=(message&&);
    template <typename... A>
    void append(A&&... args);
    template <typename... A>
    void read(A&&... args);
    template <typename T>
    T unpack();
    template <typename A, typename B, typename... R>
    std::tuple<A, B, R...> unpack();
    const char* get_sender() const;
    const char* get_path() const;
    const char* get_member() const;
    const char* get_interface() const;
    const char* get_destination() const;
    const char* get_signature() const;
    const sd_bus_error* get_error() const;
    bool is_method_error() const;
    bool is_signal(const char*, const char*) const;
    message new_method_return();
    void method_return();
    int get_errno() const;
};
} // namespace message
using message_t = message::message;
using object_path = message::object_path;

namespace bus
{
class bus
{
  public:
    bus(bus&&);
    bus& operator=(bus&&);
    virtual ~bus();
    explicit bus(sd_bus*);
    message_t new_method_call(const char*, const char*, const char*,
                              const char*);
    message_t new_signal(const char*, const char*, const char*);
    message_t call(message_t& m);
    message_t call(message_t& m, uint64_t timeout);
    void call_noreply(message_t& m);
    void call_noreply(message_t& m, uint64_t timeout);
    void request_name(const char*);
    void attach_event(void*, int);
    void process_discard();
    void wait();
    std::string get_unique_name();
};
bus new_bus();
bus new_default();
bus new_default_system();
bus new_system();
bus new_user();
} // namespace bus
using bus_t = bus::bus;

namespace bus
{
namespace match
{
class match
{
  public:
    using callback_t = std::function<void(message_t&)>;
    match(bus_t& b, const char* rule, sd_bus_message_handler_t h,
          void* ctx = nullptr);
    match(bus_t& b, const std::string& rule, sd_bus_message_handler_t h,
          void* ctx = nullptr);
    match(bus_t& b, const char* rule, callback_t cb);
    match(bus_t& b, const std::string& rule, callback_t cb);
    match(match&&);
    match& operator=(match&&);
    match(const match&) = delete;
    ~match();
};
namespace rules
{
std::string propertiesChanged(const std::string&, const std::string&);
std::string propertiesChangedNamespace(const std::string&, const std::string&);
std::string interfacesAdded();
std::string interfacesRemoved();
} // namespace rules
} // namespace match
} // namespace bus
using match = bus::match::match;
using match_t = bus::match::match;
namespace match_rules
{
using namespace bus::match::rules;
}

namespace asio
{
class connection : public sdbusplus::bus_t
{
  public:
    explicit connection(boost::asio::io_context& io);
    connection(boost::asio::io_context& io, sd_bus* b);
    connection(boost::asio::io_context& io, sdbusplus::bus_t&& b);
};
} // namespace asio

namespace server
{
namespace manager
{
class manager
{
  public:
    manager(bus_t& b, const char* path);
    ~manager();
};
} // namespace manager
using manager_t = manager::manager;
namespace object
{
template <class... Args>
class object : public Args...
{
  public:
    enum class action
    {
        emit_object_added,
        emit_interface_added,
        emit_no_signals,
        defer_emit,
    };
    object(bus_t& bus, const char* path,
           action act = action::emit_object_added);
    object(const object&) = delete;
    object& operator=(const object&) = delete;
    object(object&&);
    void emit_added();
    void emit_object_added();
    virtual ~object();
};
} // namespace object
template <class... Args>
using object_t = object::object<Args...>;
} // namespace server
} // namespace sdbusplus

template <>
struct std::hash<sdbusplus::message::object_path>
{
    size_t operator()(const sdbusplus::message::object_path&) const;
};
