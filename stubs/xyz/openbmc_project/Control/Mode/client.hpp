#pragma once
#include <xyz/openbmc_project/Control/Mode/common.hpp>
