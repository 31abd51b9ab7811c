From 7d9a58c6b4fb45491395cf612bbeb8758b8dc35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 01/14] fix: do not remember a fan write that failed

When the D-Bus Set call failed, the writers still recorded the value as
written. The next pass then skipped the same value as redundant, so the fan
kept running at its old duty until the duty changed.
---
 dbus/dbuswrite.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dbus/dbuswrite.cpp b/dbus/dbuswrite.cpp
index 8a87116..3390c4b 100644
--- a/dbus/dbuswrite.cpp
+++ b/dbus/dbuswrite.cpp
@@ -96,6 +96,14 @@ void DbusWritePercent::write(double value, bool force, int64_t* written)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
+
+        // Nothing was written: keep the last value that was, so that the same
+        // value is not skipped as redundant next time.
+        if (written)
+        {
+            *written = oldValue;
+        }
+        return;
     }
 
     oldValue = static_cast<int64_t>(ovalue);
@@ -158,6 +166,14 @@ void DbusWrite::write(double value, bool force, int64_t* written)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
+
+        // Nothing was written: keep the last value that was, so that the same
+        // value is not skipped as redundant next time.
+        if (written)
+        {
+            *written = oldValue;
+        }
+        return;
     }
 
     oldValue = static_cast<int64_t>(value);
-- 
2.43.0


From 8a32b78d2e503eb5ce1afafae119ddecbaf2e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 02/14] fix: honour ignoreFailIfHostOff for host sensors

The setting was dropped when building a sensor with an external read path, so
its failures were reported even while the host was off.
---
 sensors/builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 640c0ca..7316cd3 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -167,7 +167,7 @@ SensorManager buildSensors(
                  */
                 auto sensor = HostSensor::createTemp(
                     name, info->timeout, hostSensorBus, info->readPath.c_str(),
-                    deferSignals);
+                    deferSignals, info->ignoreFailIfHostOff);
                 mgmr.addSensor(info->type, name, std::move(sensor));
             }
             else
-- 
2.43.0


From 68df868a65858d170758ee2ba511f4c99082dd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 03/14] fix: reject fans with an external read path

External sensors have no reader of their own, so such a fan was built with a
null reader and crashed the daemon on its first read.
---
 sensors/builder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 7316cd3..b66b7b4 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -91,6 +91,11 @@ SensorManager buildSensors(
                 break;
             case IOInterfaceType::EXTERNAL:
                 // These are a special case for read-only.
+                if (info->type == "fan")
+                {
+                    throw SensorBuildException(
+                        "External readPath is not supported for fan: " + name);
+                }
                 break;
             case IOInterfaceType::SYSFS:
                 ri = std::make_unique<SysFsRead>(info->readPath);
-- 
2.43.0


From 3c1241800800aad9d20c237493531856c2ecddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 04/14] fix: refuse a fan controller without inputs

createFanPid returns no controller for a fan without inputs; buildZones
installed the null pointer and the zone dereferenced it every cycle.
---
 pid/builder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pid/builder.cpp b/pid/builder.cpp
index 6de7bcc..52be1d3 100644
--- a/pid/builder.cpp
+++ b/pid/builder.cpp
@@ -4,6 +4,7 @@
 #include "pid/builder.hpp"
 
 #include "conf.hpp"
+#include "errors/exception.hpp"
 #include "manager.hpp"
 #include "pid/controller.hpp"
 #include "pid/fancontroller.hpp"
@@ -92,6 +93,11 @@ std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(
 
                 auto pid = FanController::createFanPid(
                     zone.get(), name, splitNames(inputs), info.pidInfo);
+                if (!pid)
+                {
+                    throw ControllerBuildException(
+                        "Fan controller missing inputs");
+                }
                 zone->addFanPID(std::move(pid));
                 zone->addPidFailSafePercent(splitNames(inputs),
                                             info.failSafePercent);
-- 
2.43.0


From a2c0cfe503f01d873dafd8e0bcc4e88a04dad29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 05/14] fix: keep the fraction of configured failsafe
 percentages

The JSON and D-Bus loaders stored the value in an int before copying it
to the double it configures.
---
 dbus/dbusconfiguration.cpp | 4 ++--
 pid/buildjson.cpp          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index e7b0ddc..b3bc09c 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -345,7 +345,7 @@ void populatePidInfo(
                                    getPIDAttribute(base, "SetPoint"));
     }
 
-    int failsafepercent = 0;
+    double failsafepercent = 0;
     auto findFailSafe = base.find("FailSafePercent");
     if (findFailSafe != base.end())
     {
@@ -672,7 +672,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
             details.minThermalOutput = std::visit(VariantToDoubleVisitor(),
                                                   zone.at("MinThermalOutput"));
 
-            int failsafepercent = 0;
+            double failsafepercent = 0;
             auto findFailSafe = zone.find("FailSafePercent");
             if (findFailSafe != zone.end())
             {
diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 8925e2e..cab4a25 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -84,7 +84,7 @@ void from_json(const json& j, conf::ControllerInfo& c)
     }
 
     auto failSafePercent = j.find("FailSafePercent");
-    auto failSafePercentValue = 0;
+    auto failSafePercentValue = 0.0;
     if (failSafePercent != j.end())
     {
         failSafePercent->get_to(failSafePercentValue);
-- 
2.43.0


From e6c9d3ebf1f476cdb5fd06c4f6e8eb52d86e930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 06/14] fix: report missing mandatory keys of the JSON
 configuration

operator[] on a const json object with a key that is not there is
undefined behaviour; use at(), which throws.
---
 pid/buildjson.cpp     | 9 ++++-----
 sensors/buildjson.cpp | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index cab4a25..0a9ee3e 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -202,10 +202,9 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
         conf::PIDConf thisZone;
         conf::ZoneConfig thisZoneConfig;
 
-        /* TODO: using at() throws a specific exception we can catch */
-        id = zone["id"];
-        thisZoneConfig.minThermalOutput = zone["minThermalOutput"];
-        thisZoneConfig.failsafePercent = zone["failsafePercent"];
+        id = zone.at("id");
+        thisZoneConfig.minThermalOutput = zone.at("minThermalOutput");
+        thisZoneConfig.failsafePercent = zone.at("failsafePercent");
 
         getCycleTimeSetting(zone, id, "cycleIntervalTimeMS",
                             thisZoneConfig.cycleTime.cycleIntervalTimeMS);
@@ -223,7 +222,7 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
         auto pids = zone["pids"];
         for (const auto& pid : pids)
         {
-            auto name = pid["name"];
+            auto name = pid.at("name");
             auto item = pid.get<conf::ControllerInfo>();
 
             if (thisZone.find(name) != thisZone.end())
diff --git a/sensors/buildjson.cpp b/sensors/buildjson.cpp
index 23bb201..1fd0b41 100644
--- a/sensors/buildjson.cpp
+++ b/sensors/buildjson.cpp
@@ -111,7 +111,7 @@ std::map<std::string, conf::SensorConfig> buildSensorsFromJson(const json& data)
      */
     for (const auto& sensor : sensors)
     {
-        config[sensor["name"]] = sensor.get<conf::SensorConfig>();
+        config[sensor.at("name")] = sensor.get<conf::SensorConfig>();
     }
 
     return config;
-- 
2.43.0


From cb4a2a129029b9910f03d347802ceb685a0d13a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 07/14] fix: wait for every zone before dropping the control
 loops

---
 main.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/main.cpp b/main.cpp
index c924123..a6eb153 100644
--- a/main.cpp
+++ b/main.cpp
@@ -115,9 +115,12 @@ void stopControlLoops()
     state::isCanceling = true;
     state::timers.clear();
 
-    if (state::zones.size() > 0 && state::zones.begin()->second.use_count() > 1)
+    for (const auto& [id, zone] : state::zones)
     {
-        throw std::runtime_error("wait for count back to 1");
+        if (zone.use_count() > 1)
+        {
+            throw std::runtime_error("wait for count back to 1");
+        }
     }
 
     state::zones.clear();
-- 
2.43.0


From 75ab481098c82bd4021488a691b94bb23787d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 08/14] fix: do not report garbage when a sysfs file cannot be
 opened

---
 sysfs/sysfsread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sysfs/sysfsread.cpp b/sysfs/sysfsread.cpp
index a0e0779..8c7e1d1 100644
--- a/sysfs/sysfsread.cpp
+++ b/sysfs/sysfsread.cpp
@@ -15,7 +15,7 @@ namespace pid_control
 
 ReadReturn SysFsRead::read(void)
 {
-    int64_t value;
+    int64_t value = 0;
     std::ifstream ifs;
 
     ifs.open(_path);
-- 
2.43.0


From 41a35f0fb68aae81c55db44789e8c7cbd5787b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 09/14] fix: initialise the value parsed from a setpoint file

---
 pid/zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index bfcbe3b..a12f099 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -294,7 +294,7 @@ static bool fileParseRpm(const std::string& fileName, double& rpmValue)
         ifs.open(fileName);
         if (ifs)
         {
-            int value;
+            int value = 0;
             ifs >> value;
 
             if (value <= 0)
-- 
2.43.0


From 229eb90f5211b6a024403119fa7375735f513ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 10/14] fix: initialise the reported duty when leaving the fans
 at failsafe

---
 pid/fancontroller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/fancontroller.cpp b/pid/fancontroller.cpp
index 288d724..190954a 100644
--- a/pid/fancontroller.cpp
+++ b/pid/fancontroller.cpp
@@ -240,7 +240,7 @@ FanController::~FanController()
     {
         auto sensor = _owner->getSensor(it);
         auto redundantWrite = _owner->getRedundantWrite();
-        int64_t rawWritten;
+        int64_t rawWritten = -1;
         sensor->write(percent, redundantWrite, &rawWritten);
 
         // The outputCache will be used later,
-- 
2.43.0


From 760a52197a672bec7a480ecab7af6fe91a3614a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 11/14] fix: address zones above 127 by their own path over
 IPMI

---
 ipmi/dbus_mode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmi/dbus_mode.cpp b/ipmi/dbus_mode.cpp
index 52666c0..eed6651 100644
--- a/ipmi/dbus_mode.cpp
+++ b/ipmi/dbus_mode.cpp
@@ -28,7 +28,7 @@ using Value = std::variant<bool>;
 using PropertyMap = std::map<Property, Value>;
 
 /* The following was copied directly from my manual thread handler. */
-static std::string getControlPath(int8_t zone)
+static std::string getControlPath(uint8_t zone)
 {
     return std::string(objectPath) + std::to_string(zone);
 }
-- 
2.43.0


From b2e0372b60458a15eb85313f1ae34e7689d9e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 12/14] fix: write the host sensor value with its D-Bus type in
 setsensor

The Value property of xyz.openbmc_project.Sensor.Value is a double; a
variant holding an int64_t is rejected by the sensor object.
---
 setsensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/setsensor.cpp b/setsensor.cpp
index 884e52b..f21eda2 100644
--- a/setsensor.cpp
+++ b/setsensor.cpp
@@ -21,13 +21,13 @@ using ControlMode = sdbusplus::common::xyz::openbmc_project::control::Mode;
 static constexpr auto sobjectPath =
     "/xyz/openbmc_project/extsensors/margin/sluggish0";
 static constexpr auto sbusName = "xyz.openbmc_project.Hwmon.external";
-using sValue = std::variant<int64_t>;
+using sValue = std::variant<double>;
 
 static constexpr auto propertiesintf = "org.freedesktop.DBus.Properties";
 
 static void SetHostSensor(void)
 {
-    int64_t value = 300;
+    double value = 300;
     sValue v{value};
 
     std::string busname{sbusName};
-- 
2.43.0


From 5c1b1afb3b943254531e17b9b03682d60dc0c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 13/14] fix: read the remaining fan redundancies when one
 cannot be read

At start-up one object whose properties cannot be read ended the search,
so failures of all redundancies listed after it went unnoticed.
---
 dbus/dbuspassiveredundancy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dbus/dbuspassiveredundancy.cpp b/dbus/dbuspassiveredundancy.cpp
index bc88728..a43aa6e 100644
--- a/dbus/dbuspassiveredundancy.cpp
+++ b/dbus/dbuspassiveredundancy.cpp
@@ -166,7 +166,7 @@ void DbusPassiveRedundancy::populateFailures(void)
             catch (const sdbusplus::exception_t&)
             {
                 std::cerr << "Populate Failures Mapper Error\n";
-                return;
+                continue;
             }
             std::string status = std::get<std::string>(
                 getAll[ControlFanRedundancy::property_names::status]);
-- 
2.43.0


From 15429ec11bfba9c9ca5290563a0320d43e16becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:26 +0000
Subject: [PATCH 14/14] fix: destroy the old sensors before building the new
 ones

A reload replaced the sensor manager only after buildSensors() had built
the new sensors, while the old ones still owned their D-Bus object paths:
registering the same path again fails with -EEXIST, so the reload of a
configuration with an external sensor failed on every retry.
---
 main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.cpp b/main.cpp
index a6eb153..24af913 100644
--- a/main.cpp
+++ b/main.cpp
@@ -163,6 +163,11 @@ void restartControlLoops()
         }
     }
 
+    /*
+     * The previous sensors own the D-Bus objects which the new ones register
+     * at the same paths, so they have to go away first.
+     */
+    state::mgmr.reset();
     state::mgmr = buildSensors(sensorConfig, passiveBus, hostBus);
     state::zones =
         buildZones(zoneConfig, zoneDetailsConfig, *state::mgmr, modeControlBus);
-- 
2.43.0

