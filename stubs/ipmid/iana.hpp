#pragma once
#include <ipmid/oemopenbmc.hpp>
