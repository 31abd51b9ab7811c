#pragma once
namespace sdbusplus::common::xyz::openbmc_project::sensor::threshold
{
class Warning
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Threshold.Warning";
    struct property_names
    {
        static constexpr auto warning_high = "WarningHigh";
        static constexpr auto warning_low = "WarningLow";
        static constexpr auto warning_alarm_high = "WarningAlarmHigh";
        static constexpr auto warning_alarm_low = "WarningAlarmLow";
    };
};
}
