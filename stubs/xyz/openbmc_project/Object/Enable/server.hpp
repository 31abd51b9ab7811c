#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Object/Enable/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Object::server
{
class Enable : public sdbusplus::common::xyz::openbmc_project::object::Enable
{
  public:
    virtual ~Enable();
    virtual bool enabled() const;
    virtual bool enabled(bool value);
    virtual bool enabled(bool value, bool skipSignal);
};
}
