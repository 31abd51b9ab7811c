#pragma once
namespace oem
{
using Number = unsigned int;
constexpr Number obmcOemNumber = 49871;
constexpr Number googOemNumber = 11129;
enum Cmd
{
    gpioCmd = 1,
    i2cCmd = 2,
    flashCmd = 3,
    fanManualCmd = 4,
    ethStatsCmd = 48,
    blobTransferCmd = 128,
};
} // namespace oem
