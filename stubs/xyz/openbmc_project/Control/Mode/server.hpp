#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Control/Mode/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Control::server
{
class Mode : public sdbusplus::common::xyz::openbmc_project::control::Mode
{
  public:
    virtual ~Mode();
    virtual bool manual() const;
    virtual bool manual(bool value);
    virtual bool manual(bool value, bool skipSignal);
    virtual bool failSafe() const;
    virtual bool failSafe(bool value);
    virtual bool failSafe(bool value, bool skipSignal);
};
}
