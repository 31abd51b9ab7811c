#pragma once
#include <ipmid/oemopenbmc.hpp>
#include <cstddef>
#include <cstdint>
#include <functional>
namespace oem
{
using Handler = std::function<uint8_t(uint8_t, const uint8_t*, uint8_t*, size_t*)>;
class Router
{
  public:
    virtual ~Router() {}
    virtual void activate() = 0;
    virtual void registerHandler(Number oen, uint8_t cmd, Handler handler) = 0;
};
Router* mutableRouter();
} // namespace oem
