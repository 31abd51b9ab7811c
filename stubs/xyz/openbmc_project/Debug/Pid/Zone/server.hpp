#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Debug/Pid/Zone/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class Zone : public sdbusplus::common::xyz::openbmc_project::debug::pid::Zone
{
  public:
    virtual ~Zone();
    virtual std::string leader() const;
    virtual std::string leader(std::string value);
    virtual std::string leader(std::string value, bool skipSignal);
};
}
