#!/bin/sh
# fakebus.sh DIR: writes runnable stand-ins for sdbusplus and friends under DIR
set -e
mkdir -p "$1/"
cat > "$1/config.h" <<'EOF_FAKE'
#pragma once
#define STRICT_FAILSAFE_PWM 0
#define OFFLINE_FAILSAFE_PWM 0
#define UNC_FAILSAFE 0
#define HANDLE_MISSING_OBJECT_PATHS 0
EOF_FAKE
mkdir -p "$1/ipmid"
cat > "$1/ipmid/api-types.hpp" <<'EOF_FAKE'
#pragma once
#include <cstdint>
namespace ipmi
{
using Cc = uint8_t;
constexpr Cc ccSuccess = 0x00;
constexpr Cc ccBusy = 0xC0;
constexpr Cc ccInvalidCommand = 0xC1;
constexpr Cc ccReqDataLenInvalid = 0xC7;
constexpr Cc ccInvalidFieldRequest = 0xCC;
constexpr Cc ccUnspecifiedError = 0xFF;
} // namespace ipmi
EOF_FAKE
mkdir -p "$1/ipmid"
cat > "$1/ipmid/iana.hpp" <<'EOF_FAKE'
#pragma once
#include <ipmid/oemopenbmc.hpp>
EOF_FAKE
mkdir -p "$1/ipmid"
cat > "$1/ipmid/oemopenbmc.hpp" <<'EOF_FAKE'
#pragma once
namespace oem
{
using Number = unsigned int;
constexpr Number obmcOemNumber = 49871;
constexpr Number googOemNumber = 11129;
enum Cmd
{
    gpioCmd = 1,
    i2cCmd = 2,
    flashCmd = 3,
    fanManualCmd = 4,
    ethStatsCmd = 48,
    blobTransferCmd = 128,
};
} // namespace oem
EOF_FAKE
mkdir -p "$1/ipmid"
cat > "$1/ipmid/oemrouter.hpp" <<'EOF_FAKE'
#pragma once
#include <ipmid/oemopenbmc.hpp>
#include <cstddef>
#include <cstdint>
#include <functional>
namespace oem
{
using Handler = std::function<uint8_t(uint8_t, const uint8_t*, uint8_t*, size_t*)>;
class Router
{
  public:
    virtual ~Router() {}
    virtual void activate() = 0;
    virtual void registerHandler(Number oen, uint8_t cmd, Handler handler) = 0;
};
Router* mutableRouter();
} // namespace oem
EOF_FAKE
mkdir -p "$1/phosphor-logging"
cat > "$1/phosphor-logging/log.hpp" <<'EOF_FAKE'
#pragma once
#include <string>
namespace phosphor
{
namespace logging
{
enum class level
{
    EMERG, ALERT, CRIT, ERR, WARNING, NOTICE, INFO, DEBUG
};
struct entry_t
{
};
template <typename... A>
entry_t entry(const char*, A&&...) { return {}; }
template <level L, typename M, typename... E>
void log(M&&, E&&...) {}
} // namespace logging
} // namespace phosphor
EOF_FAKE
mkdir -p "$1/sdbusplus"
cat > "$1/sdbusplus/bus.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
EOF_FAKE
mkdir -p "$1/sdbusplus"
cat > "$1/sdbusplus/exception.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
EOF_FAKE
mkdir -p "$1/sdbusplus"
cat > "$1/sdbusplus/message.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
EOF_FAKE
mkdir -p "$1/sdbusplus"
cat > "$1/sdbusplus/server.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
EOF_FAKE
mkdir -p "$1/sdbusplus"
cat > "$1/sdbusplus/stub_core.hpp" <<'EOF_FAKE'
#pragma once
#include <systemd/sd-bus.h>
#include <any>
#include <cstdint>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <typeinfo>
#include <utility>
#include <variant>
#include <vector>
#include <boost/asio/io_context.hpp>
namespace sdbusplus
{
struct exception_t : public std::exception
{
    std::string text = "fake.Error";
    const char* name() const noexcept { return text.c_str(); }
    const char* description() const noexcept { return text.c_str(); }
    const char* what() const noexcept override { return text.c_str(); }
    int get_errno() const noexcept { return 5; }
};
namespace exception
{
using exception = sdbusplus::exception_t;
struct SdBusError : public exception_t
{
    SdBusError(int, const char* t) { text = t; }
};
} // namespace exception
namespace message
{
class object_path
{
  public:
    std::string str;
    object_path() = default;
    object_path(const std::string& s) : str(s) {}
    object_path(const char* s) : str(s) {}
    operator const std::string&() const { return str; }
    std::string filename() const
    {
        auto p = str.rfind('/');
        return p == std::string::npos ? "" : str.substr(p + 1);
    }
    object_path parent_path() const
    {
        auto p = str.rfind('/');
        return p == 0 || p == std::string::npos ? object_path("/") : object_path(str.substr(0, p));
    }
    bool operator==(const object_path& o) const { return str == o.str; }
    bool operator<(const object_path& o) const { return str < o.str; }
};
struct data
{
    std::string dest, path, iface, member, sender;
    std::vector<std::any> args;
    size_t pos = 0;
};
template <typename T>
struct wire
{
    using type = std::decay_t<T>;
};
template <size_t N>
struct wire<const char (&)[N]>
{
    using type = std::string;
};
template <>
struct wire<const char*&>
{
    using type = std::string;
};
template <>
struct wire<const char* const&>
{
    using type = std::string;
};
template <>
struct wire<const char*>
{
    using type = std::string;
};
inline std::map<sd_bus_message*, std::shared_ptr<data>>& raw()
{
    static std::map<sd_bus_message*, std::shared_ptr<data>> m;
    return m;
}
class message
{
  public:
    std::shared_ptr<data> d = std::make_shared<data>();
    message() = default;
    explicit message(sd_bus_message* m) { d = raw().at(m); }
    template <typename... A>
    void append(A&&... args)
    {
        (d->args.push_back(std::any(typename wire<A>::type(args))), ...);
    }
    template <typename... A>
    void read(A&&... args)
    {
        (one(args), ...);
    }
    template <typename T>
    void one(T& t)
    {
        if (d->pos >= d->args.size())
            throw exception::SdBusError(5, "fake.NoMoreArguments");
        T* p = std::any_cast<T>(&d->args[d->pos]);
        if (!p)
            throw exception::SdBusError(5, "fake.TypeMismatch");
        t = *p;
        d->pos++;
    }
    template <typename T>
    T unpack()
    {
        T t;
        one(t);
        return t;
    }
    template <typename A, typename B, typename... R>
    std::tuple<A, B, R...> unpack()
    {
        std::tuple<A, B, R...> t;
        std::apply([this](auto&... x) { (one(x), ...); }, t);
        return t;
    }
    const char* get_sender() const { return d->sender.c_str(); }
    const char* get_path() const { return d->path.c_str(); }
    const char* get_member() const { return d->member.c_str(); }
    const char* get_interface() const { return d->iface.c_str(); }
    const char* get_destination() const { return d->dest.c_str(); }
    bool is_method_error() const { return false; }
};
} // namespace message
using message_t = message::message;
using object_path = message::object_path;
// the fake peer: answers every call made on any bus
struct FakePeer
{
    std::function<message_t(message_t&)> call;
    std::vector<message_t> calls;
};
inline FakePeer& fakePeer()
{
    static FakePeer p;
    return p;
}
namespace bus
{
class bus
{
  public:
    bus() = default;
    virtual ~bus() = default;
    bus(bus&&) = default;
    bus& operator=(bus&&) = default;
    explicit bus(sd_bus*) {}
    message_t new_method_call(const char* s, const char* p, const char* i, const char* m)
    {
        message_t x;
        x.d->dest = s;
        x.d->path = p;
        x.d->iface = i;
        x.d->member = m;
        return x;
    }
    message_t call(message_t& m)
    {
        fakePeer().calls.push_back(m);
        if (!fakePeer().call)
            throw exception::SdBusError(5, "fake.NoPeer");
        return fakePeer().call(m);
    }
    message_t call(message_t& m, uint64_t) { return call(m); }
    void call_noreply(message_t& m) { call(m); }
    void request_name(const char*) {}
    void process_discard() {}
};
inline bus new_bus() { return bus(); }
inline bus new_default() { return bus(); }
inline bus new_default_system() { return bus(); }
inline bus new_system() { return bus(); }
} // namespace bus
using bus_t = bus::bus;
namespace bus
{
namespace match
{
class match
{
  public:
    using callback_t = std::function<void(message_t&)>;
    struct rec
    {
        std::string rule;
        sd_bus_message_handler_t h = nullptr;
        void* ctx = nullptr;
        callback_t cb;
    };
    static std::vector<rec>& all()
    {
        static std::vector<rec> a;
        return a;
    }
    match(bus_t&, const std::string& rule, sd_bus_message_handler_t h, void* ctx = nullptr)
    {
        all().push_back({rule, h, ctx, {}});
    }
    match(bus_t&, const std::string& rule, callback_t cb)
    {
        all().push_back({rule, nullptr, nullptr, cb});
    }
    match(match&&) = default;
    match& operator=(match&&) = default;
};
namespace rules
{
inline std::string propertiesChanged(const std::string& p, const std::string& i)
{
    return "pc," + p + "," + i;
}
inline std::string propertiesChangedNamespace(const std::string& p, const std::string& i)
{
    return "pcn," + p + "," + i;
}
inline std::string interfacesAdded() { return "added"; }
inline std::string interfacesRemoved() { return "removed"; }
} // namespace rules
} // namespace match
} // namespace bus
using match = bus::match::match;
using match_t = bus::match::match;
namespace match_rules
{
using namespace bus::match::rules;
}
namespace asio
{
class connection : public sdbusplus::bus_t
{
  public:
    explicit connection(boost::asio::io_context&) {}
    connection(boost::asio::io_context&, sd_bus*) {}
    connection(boost::asio::io_context&, sdbusplus::bus_t&&) {}
};
} // namespace asio
namespace server
{
namespace manager
{
class manager
{
  public:
    manager(bus_t&, const char*) {}
};
} // namespace manager
using manager_t = manager::manager;
namespace object
{
template <class... Args>
class object : public Args...
{
  public:
    enum class action
    {
        emit_object_added,
        emit_interface_added,
        emit_no_signals,
        defer_emit,
    };
    object(bus_t&, const char*, action = action::emit_object_added) {}
    object(const object&) = delete;
    object& operator=(const object&) = delete;
    void emit_added() {}
    void emit_object_added() {}
    virtual ~object() = default;
};
} // namespace object
template <class... Args>
using object_t = object::object<Args...>;
} // namespace server
} // namespace sdbusplus
template <>
struct std::hash<sdbusplus::message::object_path>
{
    size_t operator()(const sdbusplus::message::object_path& p) const
    {
        return std::hash<std::string>()(p.str);
    }
};
EOF_FAKE
mkdir -p "$1/sdbusplus/asio"
cat > "$1/sdbusplus/asio/connection.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
EOF_FAKE
mkdir -p "$1/sdbusplus/bus"
cat > "$1/sdbusplus/bus/match.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
EOF_FAKE
mkdir -p "$1/sdbusplus/message"
cat > "$1/sdbusplus/message/native_types.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
EOF_FAKE
mkdir -p "$1/sdbusplus/server"
cat > "$1/sdbusplus/server/manager.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
EOF_FAKE
mkdir -p "$1/sdbusplus/server"
cat > "$1/sdbusplus/server/object.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Association"
cat > "$1/xyz/openbmc_project/Association/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project
{
class Association
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Association";
    struct property_names
    {
        static constexpr auto endpoints = "endpoints";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Association/Definitions"
cat > "$1/xyz/openbmc_project/Association/Definitions/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::association
{
class Definitions
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Association.Definitions";
    struct property_names
    {
        static constexpr auto associations = "Associations";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Control/FanPwm"
cat > "$1/xyz/openbmc_project/Control/FanPwm/client.hpp" <<'EOF_FAKE'
#pragma once
#include <xyz/openbmc_project/Control/FanPwm/common.hpp>
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Control/FanPwm"
cat > "$1/xyz/openbmc_project/Control/FanPwm/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::control
{
class FanPwm
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Control.FanPwm";
    struct property_names
    {
        static constexpr auto target = "Target";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Control/FanRedundancy"
cat > "$1/xyz/openbmc_project/Control/FanRedundancy/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::control
{
class FanRedundancy
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Control.FanRedundancy";
    struct property_names
    {
        static constexpr auto status = "Status";
        static constexpr auto allowed_failures = "AllowedFailures";
        static constexpr auto collection = "Collection";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Control/Mode"
cat > "$1/xyz/openbmc_project/Control/Mode/client.hpp" <<'EOF_FAKE'
#pragma once
#include <xyz/openbmc_project/Control/Mode/common.hpp>
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Control/Mode"
cat > "$1/xyz/openbmc_project/Control/Mode/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::control
{
class Mode
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Control.Mode";
    struct property_names
    {
        static constexpr auto manual = "Manual";
        static constexpr auto fail_safe = "FailSafe";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Control/Mode"
cat > "$1/xyz/openbmc_project/Control/Mode/server.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Control/Mode/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Control::server
{
class Mode : public sdbusplus::common::xyz::openbmc_project::control::Mode
{
  public:
    virtual ~Mode() = default;
    bool manual_{};
    virtual bool manual() const { return manual_; }
    virtual bool manual(bool value) { return manual_ = value; }
    virtual bool manual(bool value, bool) { return manual_ = value; }
    bool failSafe_{};
    virtual bool failSafe() const { return failSafe_; }
    virtual bool failSafe(bool value) { return failSafe_ = value; }
    virtual bool failSafe(bool value, bool) { return failSafe_ = value; }
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Control/ThermalMode"
cat > "$1/xyz/openbmc_project/Control/ThermalMode/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::control
{
class ThermalMode
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Control.ThermalMode";
    struct property_names
    {
        static constexpr auto supported = "Supported";
        static constexpr auto current = "Current";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Debug/Pid/ThermalPower"
cat > "$1/xyz/openbmc_project/Debug/Pid/ThermalPower/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::debug::pid
{
class ThermalPower
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Debug.Pid.ThermalPower";
    struct property_names
    {
        static constexpr auto leader = "Leader";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Debug/Pid/ThermalPower"
cat > "$1/xyz/openbmc_project/Debug/Pid/ThermalPower/server.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Debug/Pid/ThermalPower/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class ThermalPower : public sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower
{
  public:
    virtual ~ThermalPower() = default;
    double setpoint_{};
    virtual double setpoint() const { return setpoint_; }
    virtual double setpoint(double value) { return setpoint_ = value; }
    virtual double setpoint(double value, bool) { return setpoint_ = value; }
    std::string classType_{};
    virtual std::string classType() const { return classType_; }
    virtual std::string classType(std::string value) { return classType_ = value; }
    virtual std::string classType(std::string value, bool) { return classType_ = value; }
    double output_{};
    virtual double output() const { return output_; }
    virtual double output(double value) { return output_ = value; }
    virtual double output(double value, bool) { return output_ = value; }
    std::string leader_{};
    virtual std::string leader() const { return leader_; }
    virtual std::string leader(std::string value) { return leader_ = value; }
    virtual std::string leader(std::string value, bool) { return leader_ = value; }
    double input_{};
    virtual double input() const { return input_; }
    virtual double input(double value) { return input_ = value; }
    virtual double input(double value, bool) { return input_ = value; }
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Debug/Pid/Zone"
cat > "$1/xyz/openbmc_project/Debug/Pid/Zone/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::debug::pid
{
class Zone
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Debug.Pid.Zone";
    struct property_names
    {
        static constexpr auto leader = "Leader";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Debug/Pid/Zone"
cat > "$1/xyz/openbmc_project/Debug/Pid/Zone/server.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Debug/Pid/Zone/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class Zone : public sdbusplus::common::xyz::openbmc_project::debug::pid::Zone
{
  public:
    virtual ~Zone() = default;
    std::string leader_{};
    virtual std::string leader() const { return leader_; }
    virtual std::string leader(std::string value) { return leader_ = value; }
    virtual std::string leader(std::string value, bool) { return leader_ = value; }
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Object/Enable"
cat > "$1/xyz/openbmc_project/Object/Enable/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::object
{
class Enable
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Object.Enable";
    struct property_names
    {
        static constexpr auto enabled = "Enabled";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Object/Enable"
cat > "$1/xyz/openbmc_project/Object/Enable/server.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Object/Enable/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Object::server
{
class Enable : public sdbusplus::common::xyz::openbmc_project::object::Enable
{
  public:
    virtual ~Enable() = default;
    bool enabled_{};
    virtual bool enabled() const { return enabled_; }
    virtual bool enabled(bool value) { return enabled_ = value; }
    virtual bool enabled(bool value, bool) { return enabled_ = value; }
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/ObjectMapper"
cat > "$1/xyz/openbmc_project/ObjectMapper/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project
{
class ObjectMapper
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.ObjectMapper";
    struct method_names
    {
        static constexpr auto get_object = "GetObject";
        static constexpr auto get_sub_tree = "GetSubTree";
        static constexpr auto get_sub_tree_paths = "GetSubTreePaths";
        static constexpr auto get_ancestors = "GetAncestors";
    };
    static constexpr auto default_service = "xyz.openbmc_project.ObjectMapper";
    static constexpr auto instance_path = "/xyz/openbmc_project/object_mapper";
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Sensor/Threshold/Critical"
cat > "$1/xyz/openbmc_project/Sensor/Threshold/Critical/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::sensor::threshold
{
class Critical
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Threshold.Critical";
    struct property_names
    {
        static constexpr auto critical_high = "CriticalHigh";
        static constexpr auto critical_low = "CriticalLow";
        static constexpr auto critical_alarm_high = "CriticalAlarmHigh";
        static constexpr auto critical_alarm_low = "CriticalAlarmLow";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Sensor/Threshold/Warning"
cat > "$1/xyz/openbmc_project/Sensor/Threshold/Warning/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::sensor::threshold
{
class Warning
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Threshold.Warning";
    struct property_names
    {
        static constexpr auto warning_high = "WarningHigh";
        static constexpr auto warning_low = "WarningLow";
        static constexpr auto warning_alarm_high = "WarningAlarmHigh";
        static constexpr auto warning_alarm_low = "WarningAlarmLow";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Sensor/Value"
cat > "$1/xyz/openbmc_project/Sensor/Value/client.hpp" <<'EOF_FAKE'
#pragma once
#include <xyz/openbmc_project/Sensor/Value/common.hpp>
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Sensor/Value"
cat > "$1/xyz/openbmc_project/Sensor/Value/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::sensor
{
class Value
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Value";
    struct property_names
    {
        static constexpr auto value = "Value";
        static constexpr auto max_value = "MaxValue";
        static constexpr auto min_value = "MinValue";
        static constexpr auto unit = "Unit";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/Sensor/Value"
cat > "$1/xyz/openbmc_project/Sensor/Value/server.hpp" <<'EOF_FAKE'
#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Sensor/Value/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Sensor::server
{
class Value : public sdbusplus::common::xyz::openbmc_project::sensor::Value
{
  public:
    virtual ~Value() = default;
    enum class Unit
    {
        DegreesC, RPMS, Volts, Meters, Amperes, Watts, Joules, Percent,
    };
    double value_{};
    virtual double value() const { return value_; }
    virtual double value(double value) { return value_ = value; }
    virtual double value(double value, bool) { return value_ = value; }
    double maxValue_{};
    virtual double maxValue() const { return maxValue_; }
    virtual double maxValue(double value) { return maxValue_ = value; }
    virtual double maxValue(double value, bool) { return maxValue_ = value; }
    double minValue_{};
    virtual double minValue() const { return minValue_; }
    virtual double minValue(double value) { return minValue_ = value; }
    virtual double minValue(double value, bool) { return minValue_ = value; }
    Unit unit_{};
    virtual Unit unit() const { return unit_; }
    virtual Unit unit(Unit value) { return unit_ = value; }
    virtual Unit unit(Unit value, bool) { return unit_ = value; }
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/State/Decorator/Availability"
cat > "$1/xyz/openbmc_project/State/Decorator/Availability/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::state::decorator
{
class Availability
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.State.Decorator.Availability";
    struct property_names
    {
        static constexpr auto available = "Available";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/State/Decorator/OperationalStatus"
cat > "$1/xyz/openbmc_project/State/Decorator/OperationalStatus/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::state::decorator
{
class OperationalStatus
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.State.Decorator.OperationalStatus";
    struct property_names
    {
        static constexpr auto functional = "Functional";
    };
};
}
EOF_FAKE
mkdir -p "$1/xyz/openbmc_project/State/Host"
cat > "$1/xyz/openbmc_project/State/Host/common.hpp" <<'EOF_FAKE'
#pragma once
namespace sdbusplus::common::xyz::openbmc_project::state
{
class Host
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.State.Host";
    struct property_names
    {
        static constexpr auto current_host_state = "CurrentHostState";
        static constexpr auto requested_host_transition = "RequestedHostTransition";
        static constexpr auto restart_cause = "RestartCause";
    };
};
}
EOF_FAKE
