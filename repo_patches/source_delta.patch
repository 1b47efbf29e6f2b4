From e45cb4c76e010358f638785142070387a1d21c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 01/43] fix: name the right leader when set-points are
 accumulated

The join of the controller names ran after the ceiling had been applied, so
"Ceiling" was searched for among the controllers and replaced by an empty
name, and it matched any controller whose name merely contains the profile's,
disabled ones included.
---
 pid/zone.cpp | 44 +++++++++++++++++---------------------------
 pid/zone.hpp |  2 ++
 2 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index bfcbe3b..7c05dd6 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -146,6 +146,9 @@ void DbusPidZone::addSetPoint(double setPoint, const std::string& name)
          */
         profileName = name.substr(name.find('_') + 1);
         setPoints[profileName] += setPoint;
+
+        auto& requesters = _setPointRequesters[profileName];
+        requesters += requesters.empty() ? name : " + " + name;
     }
     else
     {
@@ -179,6 +182,7 @@ void DbusPidZone::clearRPMCeilings(void)
 void DbusPidZone::clearSetPoints(void)
 {
     setPoints.clear();
+    _setPointRequesters.clear();
     _maximumSetPoint = 0;
     _maximumSetPointName.clear();
 }
@@ -337,6 +341,19 @@ void DbusPidZone::determineMaxSetPointRequest(void)
     std::vector<double>::iterator result;
     double minThermalThreshold = getMinThermalSetPoint();
 
+    /*
+     * Combine the maximum SetPoint Name if the controllers have same profile
+     * name. e.g., PID_BB_INLET_TEMP_C + Stepwise_BB_INLET_TEMP_C.
+     */
+    if (getAccSetPoint())
+    {
+        auto requesters = _setPointRequesters.find(_maximumSetPointName);
+        if (requesters != _setPointRequesters.end())
+        {
+            _maximumSetPointName = requesters->second;
+        }
+    }
+
     if (rpmCeilings.size() > 0)
     {
         result = std::min_element(rpmCeilings.begin(), rpmCeilings.end());
@@ -350,33 +367,6 @@ void DbusPidZone::determineMaxSetPointRequest(void)
         }
     }
 
-    /*
-     * Combine the maximum SetPoint Name if the controllers have same profile
-     * name. e.g., PID_BB_INLET_TEMP_C + Stepwise_BB_INLET_TEMP_C.
-     */
-    if (getAccSetPoint())
-    {
-        auto profileName = _maximumSetPointName;
-        _maximumSetPointName = "";
-
-        for (auto& p : _thermals)
-        {
-            auto controllerID = p->getID();
-            auto found = controllerID.find(profileName);
-            if (found != std::string::npos)
-            {
-                if (_maximumSetPointName.empty())
-                {
-                    _maximumSetPointName = controllerID;
-                }
-                else
-                {
-                    _maximumSetPointName += " + " + controllerID;
-                }
-            }
-        }
-    }
-
     /*
      * If the maximum RPM setpoint output is below the minimum RPM
      * setpoint, set it to the minimum.
diff --git a/pid/zone.hpp b/pid/zone.hpp
index d81cd53..35642bc 100644
--- a/pid/zone.hpp
+++ b/pid/zone.hpp
@@ -243,6 +243,8 @@ class DbusPidZone : public ZoneInterface, public ModeObject
     std::set<std::string> _missingAcceptable;
 
     std::map<std::string, double> setPoints;
+    // When accumulating: profile name -> the controllers it is the sum of.
+    std::map<std::string, std::string> _setPointRequesters;
     std::vector<double> rpmCeilings;
     std::vector<std::string> _fanInputs;
     std::vector<std::string> _thermalInputs;
-- 
2.43.0


From 66ab7246b810a3f6d103602258076419082e3fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 02/43] fix: reject empty and out-of-range tuning set-point
 files

Extracting from an empty file leaves the (uninitialized) value untouched, and
a number that does not fit stores INT_MAX; both were taken as a set-point.
---
 pid/zone.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index 7c05dd6..b22155a 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -298,10 +298,10 @@ static bool fileParseRpm(const std::string& fileName, double& rpmValue)
         ifs.open(fileName);
         if (ifs)
         {
-            int value;
+            int value = 0;
             ifs >> value;
 
-            if (value <= 0)
+            if (ifs.fail() || value <= 0)
             {
                 errText = "File content could not be parsed to a number";
             }
-- 
2.43.0


From c05e2413dc8c40666d52fb8c0e77be53f32c2bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 03/43] fix: publish the input a thermal controller really used

The debug object kept an input of an earlier run when no reading was valid or
when they summed up to zero.
---
 pid/thermalcontroller.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pid/thermalcontroller.cpp b/pid/thermalcontroller.cpp
index 3083761..8b7878e 100644
--- a/pid/thermalcontroller.cpp
+++ b/pid/thermalcontroller.cpp
@@ -146,7 +146,6 @@ double ThermalController::inputProc(void)
         if (oldValue != value)
         {
             leaderName = in.name;
-            _owner->updateThermalPowerDebugInterface(_id, leaderName, value, 0);
         }
 
         acceptable = true;
@@ -161,6 +160,8 @@ double ThermalController::inputProc(void)
         value = setptProc();
     }
 
+    _owner->updateThermalPowerDebugInterface(_id, leaderName, value, 0);
+
     if (debugEnabled)
     {
         std::cerr << getID() << " choose the temperature value: " << value
-- 
2.43.0


From 065e8f816559a0d518b699e535c44530c0644959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 04/43] fix: ignore the ceiling of a disabled stepwise
 controller

Enabled=false excluded a controller's set-point requests but not its ceiling.
---
 pid/stepwisecontroller.cpp | 5 ++++-
 pid/zone.hpp               | 2 +-
 pid/zone_interface.hpp     | 9 +++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pid/stepwisecontroller.cpp b/pid/stepwisecontroller.cpp
index e3022b6..5c89a21 100644
--- a/pid/stepwisecontroller.cpp
+++ b/pid/stepwisecontroller.cpp
@@ -104,7 +104,10 @@ void StepwiseController::outputProc(double value)
 {
     if (getStepwiseInfo().isCeiling)
     {
-        _owner->addRPMCeiling(value);
+        if (_owner->isPidProcessEnabled(_id))
+        {
+            _owner->addRPMCeiling(value);
+        }
     }
     else
     {
diff --git a/pid/zone.hpp b/pid/zone.hpp
index 35642bc..4472de5 100644
--- a/pid/zone.hpp
+++ b/pid/zone.hpp
@@ -131,7 +131,7 @@ class DbusPidZone : public ZoneInterface, public ModeObject
     void addPidControlProcess(const std::string& name, const std::string& type,
                               double setpoint, sdbusplus::bus_t& bus,
                               const std::string& objPath, bool defer);
-    bool isPidProcessEnabled(const std::string& name);
+    bool isPidProcessEnabled(const std::string& name) override;
 
     void addPidFailSafePercent(const std::vector<std::string>& inputs,
                                double percent);
diff --git a/pid/zone_interface.hpp b/pid/zone_interface.hpp
index 861dde7..a14a885 100644
--- a/pid/zone_interface.hpp
+++ b/pid/zone_interface.hpp
@@ -131,6 +131,15 @@ class ZoneInterface
     virtual void updateThermalPowerDebugInterface(
         std::string pidName, std::string leader, double input,
         double output) = 0;
+
+    /** Returns false while the named thermal controller is disabled, so that
+     * its requests must have no effect.
+     */
+    virtual bool isPidProcessEnabled(const std::string& name)
+    {
+        (void)name;
+        return true;
+    }
 };
 
 } // namespace pid_control
-- 
2.43.0


From 7a04f5de885e1d708a3bf2a069e3ecdb32b89f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 05/43] fix: mark a failed sysfs read as not a reading

---
 sysfs/sysfsread.cpp | 12 ++++++++----
 sysfs/sysfsread.hpp |  3 +++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/sysfs/sysfsread.cpp b/sysfs/sysfsread.cpp
index a0e0779..6e20cc1 100644
--- a/sysfs/sysfsread.cpp
+++ b/sysfs/sysfsread.cpp
@@ -9,6 +9,7 @@
 #include <cstdint>
 #include <fstream>
 #include <iostream>
+#include <limits>
 
 namespace pid_control
 {
@@ -19,13 +20,16 @@ ReadReturn SysFsRead::read(void)
     std::ifstream ifs;
 
     ifs.open(_path);
-    ifs >> value;
+    if (!(ifs >> value))
+    {
+        // no reading: keep the time of the last good one
+        return {std::numeric_limits<double>::quiet_NaN(), _updated};
+    }
     ifs.close();
 
-    ReadReturn r = {static_cast<double>(value),
-                    std::chrono::high_resolution_clock::now()};
+    _updated = std::chrono::high_resolution_clock::now();
 
-    return r;
+    return {static_cast<double>(value), _updated};
 }
 
 } // namespace pid_control
diff --git a/sysfs/sysfsread.hpp b/sysfs/sysfsread.hpp
index 32ce18e..87bf724 100644
--- a/sysfs/sysfsread.hpp
+++ b/sysfs/sysfsread.hpp
@@ -3,6 +3,7 @@
 #include "interfaces.hpp"
 #include "util.hpp"
 
+#include <chrono>
 #include <string>
 
 namespace pid_control
@@ -23,6 +24,8 @@ class SysFsRead : public ReadInterface
 
   private:
     const std::string _path;
+    /* when the last good reading was taken */
+    std::chrono::high_resolution_clock::time_point _updated;
 };
 
 } // namespace pid_control
-- 
2.43.0


From 7613aefcbdc86cf346cf4a1d92b4c00e5448321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 06/43] fix: write a fan again after a failed D-Bus write

---
 dbus/dbuswrite.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dbus/dbuswrite.cpp b/dbus/dbuswrite.cpp
index 8a87116..317a262 100644
--- a/dbus/dbuswrite.cpp
+++ b/dbus/dbuswrite.cpp
@@ -96,6 +96,12 @@ void DbusWritePercent::write(double value, bool force, int64_t* written)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
+        // not in effect: report the old value and try again next time
+        if (written)
+        {
+            *written = oldValue;
+        }
+        return;
     }
 
     oldValue = static_cast<int64_t>(ovalue);
@@ -158,6 +164,12 @@ void DbusWrite::write(double value, bool force, int64_t* written)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
+        // not in effect: report the old value and try again next time
+        if (written)
+        {
+            *written = oldValue;
+        }
+        return;
     }
 
     oldValue = static_cast<int64_t>(value);
-- 
2.43.0


From 0acc7bb0700e308044b320deb19522f9ebd6cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 07/43] fix: pass ignoreFailIfHostOff to external sensors

---
 sensors/builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 640c0ca..7316cd3 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -167,7 +167,7 @@ SensorManager buildSensors(
                  */
                 auto sensor = HostSensor::createTemp(
                     name, info->timeout, hostSensorBus, info->readPath.c_str(),
-                    deferSignals);
+                    deferSignals, info->ignoreFailIfHostOff);
                 mgmr.addSensor(info->type, name, std::move(sensor));
             }
             else
-- 
2.43.0


From 3fc85c851dc01775b57e11aaa0495a6f9df15303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 08/43] fix: address zones above 127 over IPMI

---
 ipmi/dbus_mode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmi/dbus_mode.cpp b/ipmi/dbus_mode.cpp
index 52666c0..eed6651 100644
--- a/ipmi/dbus_mode.cpp
+++ b/ipmi/dbus_mode.cpp
@@ -28,7 +28,7 @@ using Value = std::variant<bool>;
 using PropertyMap = std::map<Property, Value>;
 
 /* The following was copied directly from my manual thread handler. */
-static std::string getControlPath(int8_t zone)
+static std::string getControlPath(uint8_t zone)
 {
     return std::string(objectPath) + std::to_string(zone);
 }
-- 
2.43.0


From c1f73e7cca18737b909d9295c29c1dcf89956519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 09/43] fix: use the default for a negative cycle time

---
 pid/buildjson.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 8925e2e..a902fd9 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -167,11 +167,11 @@ inline void getCycleTimeSetting(const auto& zone, const int id,
     auto findAttributeName = zone.find(attributeName);
     if (findAttributeName != zone.end())
     {
-        uint64_t tmpAttributeValue = 0;
+        int64_t tmpAttributeValue = 0;
         findAttributeName->get_to(tmpAttributeValue);
         if (tmpAttributeValue >= 1)
         {
-            value = tmpAttributeValue;
+            value = static_cast<uint64_t>(tmpAttributeValue);
         }
         else
         {
-- 
2.43.0


From d8e3226b97ccfcc2552b965f375a4963f320669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 10/43] fix: put core logs in the default folder, not in the
 root

---
 main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.cpp b/main.cpp
index c924123..b912333 100644
--- a/main.cpp
+++ b/main.cpp
@@ -395,6 +395,10 @@ int main(int argc, char* argv[])
     }
     if (coreLoggingEnabled)
     {
+        if (loggingPath.empty())
+        {
+            loggingPath = defLoggingPath;
+        }
         std::cerr << "Core logging enabled\n";
     }
 
-- 
2.43.0


From 9d1b8f9662dff8a139a9ce2f9a90540cf49cfd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 11/43] fix: release the old sensors before building new ones

---
 main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.cpp b/main.cpp
index b912333..ee42fca 100644
--- a/main.cpp
+++ b/main.cpp
@@ -121,6 +121,7 @@ void stopControlLoops()
     }
 
     state::zones.clear();
+    state::mgmr.reset(); // frees the bus paths of external sensors
     state::isCanceling = false;
 }
 
-- 
2.43.0


From 5187f187fb44adfbd2f0f1f4769126185391a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 12/43] fix: initialise the raw value of the offline fan write

---
 pid/fancontroller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/fancontroller.cpp b/pid/fancontroller.cpp
index 288d724..190954a 100644
--- a/pid/fancontroller.cpp
+++ b/pid/fancontroller.cpp
@@ -240,7 +240,7 @@ FanController::~FanController()
     {
         auto sensor = _owner->getSensor(it);
         auto redundantWrite = _owner->getRedundantWrite();
-        int64_t rawWritten;
+        int64_t rawWritten = -1;
         sensor->write(percent, redundantWrite, &rawWritten);
 
         // The outputCache will be used later,
-- 
2.43.0


From 781788a823125193eb63fd3c7526f8ba8c5ae43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 13/43] fix: keep the stepwise inputs after a missing one

---
 dbus/dbusconfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index e7b0ddc..071d50d 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -1095,7 +1095,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                     {
                         if constexpr (!HANDLE_MISSING_OBJECT_PATHS)
                         {
-                            break;
+                            continue;
                         }
                         if (std::find(missingAcceptableSensorNames.begin(),
                                       missingAcceptableSensorNames.end(),
@@ -1178,7 +1178,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                     {
                         if constexpr (!HANDLE_MISSING_OBJECT_PATHS)
                         {
-                            break;
+                            continue;
                         }
                         // When a sensor in the MissingIsAcceptable list is NOT
                         // on DBus and it still reaches here, which contradicts
-- 
2.43.0


From 57ef76e25da4fd4a20c7dbb583b1243383b9c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 14/43] fix: lock the reading of an external sensor in
 getFailed

---
 sensors/host.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sensors/host.cpp b/sensors/host.cpp
index c32dc52..41b6548 100644
--- a/sensors/host.cpp
+++ b/sensors/host.cpp
@@ -75,9 +75,13 @@ void HostSensor::write([[maybe_unused]] double value)
 
 bool HostSensor::getFailed(void)
 {
-    if (std::isfinite(_value))
     {
-        return false;
+        std::lock_guard<std::mutex> guard(_lock);
+
+        if (std::isfinite(_value))
+        {
+            return false;
+        }
     }
 
     if (getIgnoreFailIfHostOff())
-- 
2.43.0


From 306d59a7a7d8efcdaac483cec5240f87e028f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 15/43] fix: read the host state once its changes are
 subscribed to

---
 hoststatemonitor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hoststatemonitor.hpp b/hoststatemonitor.hpp
index 244f841..fc31557 100644
--- a/hoststatemonitor.hpp
+++ b/hoststatemonitor.hpp
@@ -82,6 +82,8 @@ inline void HostStateMonitor::startMonitoring()
             [this](sdbusplus::message_t& message) {
                 handleStateChange(message);
             });
+        // a change since the last look went unseen
+        getInitialState();
     }
 }
 
-- 
2.43.0


From 22c14a0df5fec45c6a39aedc3cd4ec003f870b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 16/43] fix: keep fractions of FailSafePercent from D-Bus

---
 dbus/dbusconfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index 071d50d..a8ce353 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -345,7 +345,7 @@ void populatePidInfo(
                                    getPIDAttribute(base, "SetPoint"));
     }
 
-    int failsafepercent = 0;
+    double failsafepercent = 0;
     auto findFailSafe = base.find("FailSafePercent");
     if (findFailSafe != base.end())
     {
@@ -672,7 +672,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
             details.minThermalOutput = std::visit(VariantToDoubleVisitor(),
                                                   zone.at("MinThermalOutput"));
 
-            int failsafepercent = 0;
+            double failsafepercent = 0;
             auto findFailSafe = zone.find("FailSafePercent");
             if (findFailSafe != zone.end())
             {
-- 
2.43.0


From c67963cf51495b7f207541b4d2ddf0a9dc9cb7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 17/43] fix: keep a threshold alarm until that alarm is cleared

---
 dbus/dbushelper.cpp           | 29 +++++++++++++++++++----------
 dbus/dbushelper.hpp           |  4 ++++
 dbus/dbushelper_interface.hpp | 11 +++++++++++
 dbus/dbuspassive.cpp          | 35 ++++++++++++++++++++++++-----------
 dbus/dbuspassive.hpp          |  4 ++++
 5 files changed, 62 insertions(+), 21 deletions(-)

diff --git a/dbus/dbushelper.cpp b/dbus/dbushelper.cpp
index 53f19bb..66dac5d 100644
--- a/dbus/dbushelper.cpp
+++ b/dbus/dbushelper.cpp
@@ -148,6 +148,13 @@ void DbusHelper::getProperties(const std::string& service,
 bool DbusHelper::thresholdsAsserted(const std::string& service,
                                     const std::string& path)
 {
+    return !assertedAlarms(service, path).empty();
+}
+
+std::set<std::string> DbusHelper::assertedAlarms(const std::string& service,
+                                                 const std::string& path)
+{
+    std::set<std::string> asserted;
     auto critical = _bus.new_method_call(service.c_str(), path.c_str(),
                                          propertiesintf, "GetAll");
     critical.append(SensorThresholdCritical::interface);
@@ -163,7 +170,7 @@ bool DbusHelper::thresholdsAsserted(const std::string& service,
         // do nothing, sensors don't have to expose critical thresholds
         if constexpr (!UNC_FAILSAFE)
         {
-            return false;
+            return asserted;
         }
     }
 
@@ -172,19 +179,20 @@ bool DbusHelper::thresholdsAsserted(const std::string& service,
     auto findCriticalHigh = criticalMap.find(
         SensorThresholdCritical::property_names::critical_alarm_high);
 
-    bool asserted = false;
-    if (findCriticalLow != criticalMap.end())
+    if (findCriticalLow != criticalMap.end() &&
+        std::get<bool>(findCriticalLow->second))
     {
-        asserted = std::get<bool>(findCriticalLow->second);
+        asserted.insert(findCriticalLow->first);
     }
 
     // as we are catching properties changed, a sensor could theoretically jump
     // from one threshold to the other in one event, so check both thresholds
-    if (!asserted && findCriticalHigh != criticalMap.end())
+    if (findCriticalHigh != criticalMap.end() &&
+        std::get<bool>(findCriticalHigh->second))
     {
-        asserted = std::get<bool>(findCriticalHigh->second);
+        asserted.insert(findCriticalHigh->first);
     }
-    if (UNC_FAILSAFE && !asserted)
+    if constexpr (UNC_FAILSAFE)
     {
         auto warning = _bus.new_method_call(service.c_str(), path.c_str(),
                                             propertiesintf, "GetAll");
@@ -199,14 +207,15 @@ bool DbusHelper::thresholdsAsserted(const std::string& service,
         catch (const sdbusplus::exception_t&)
         {
             // sensors don't have to expose non-critical thresholds
-            return false;
+            return asserted;
         }
         auto findWarningHigh = warningMap.find(
             SensorThresholdWarning::property_names::warning_alarm_high);
 
-        if (findWarningHigh != warningMap.end())
+        if (findWarningHigh != warningMap.end() &&
+            std::get<bool>(findWarningHigh->second))
         {
-            asserted = std::get<bool>(findWarningHigh->second);
+            asserted.insert(findWarningHigh->first);
         }
     }
     return asserted;
diff --git a/dbus/dbushelper.hpp b/dbus/dbushelper.hpp
index 8fac1a2..0a730d9 100644
--- a/dbus/dbushelper.hpp
+++ b/dbus/dbushelper.hpp
@@ -9,6 +9,7 @@
 #include <xyz/openbmc_project/Sensor/Threshold/Warning/common.hpp>
 #include <xyz/openbmc_project/State/Decorator/Availability/common.hpp>
 
+#include <set>
 #include <string>
 #include <variant>
 
@@ -46,6 +47,9 @@ class DbusHelper : public DbusHelperInterface
     bool thresholdsAsserted(const std::string& service,
                             const std::string& path) override;
 
+    std::set<std::string> assertedAlarms(const std::string& service,
+                                         const std::string& path) override;
+
     template <typename T>
     void getProperty(const std::string& service, const std::string& path,
                      const std::string& interface,
diff --git a/dbus/dbushelper_interface.hpp b/dbus/dbushelper_interface.hpp
index 2ea6230..3d70c4f 100644
--- a/dbus/dbushelper_interface.hpp
+++ b/dbus/dbushelper_interface.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cstdint>
+#include <set>
 #include <string>
 
 namespace pid_control
@@ -50,6 +51,16 @@ class DbusHelperInterface
      */
     virtual bool thresholdsAsserted(const std::string& service,
                                     const std::string& path) = 0;
+
+    /** @brief Get the names of the alarm properties behind
+     * thresholdsAsserted().
+     */
+    virtual std::set<std::string> assertedAlarms(
+        [[maybe_unused]] const std::string& service,
+        [[maybe_unused]] const std::string& path)
+    {
+        return {};
+    }
 };
 
 } // namespace pid_control
diff --git a/dbus/dbuspassive.cpp b/dbus/dbuspassive.cpp
index 016f069..1b63622 100644
--- a/dbus/dbuspassive.cpp
+++ b/dbus/dbuspassive.cpp
@@ -133,6 +133,10 @@ std::unique_ptr<ReadInterface> DbusPassive::createDbusPassive(
     {
         sensor->_helper->getProperties(service, path, &settings);
         failed = sensor->_helper->thresholdsAsserted(service, path);
+        if (failed)
+        {
+            sensor->_alarms = sensor->_helper->assertedAlarms(service, path);
+        }
     }
     catch (const std::exception& e)
     {
@@ -313,6 +317,19 @@ void DbusPassive::setFailed(bool value)
     _failed = value;
 }
 
+void DbusPassive::setAlarm(const std::string& name, bool asserted)
+{
+    if (asserted)
+    {
+        _alarms.insert(name);
+    }
+    else
+    {
+        _alarms.erase(name);
+    }
+    _failed = !_alarms.empty();
+}
+
 void DbusPassive::setFunctional(bool value)
 {
     _functional = value;
@@ -442,19 +459,19 @@ int handleSensorValue(sdbusplus::message_t& msg, DbusPassive* owner)
             return 0;
         }
 
-        bool asserted = false;
         if (criticalAlarmLow != msgData.end())
         {
-            asserted = std::get<bool>(criticalAlarmLow->second);
+            owner->setAlarm(criticalAlarmLow->first,
+                            std::get<bool>(criticalAlarmLow->second));
         }
 
         // checking both as in theory you could de-assert one threshold and
         // assert the other at the same moment
-        if (!asserted && criticalAlarmHigh != msgData.end())
+        if (criticalAlarmHigh != msgData.end())
         {
-            asserted = std::get<bool>(criticalAlarmHigh->second);
+            owner->setAlarm(criticalAlarmHigh->first,
+                            std::get<bool>(criticalAlarmHigh->second));
         }
-        owner->setFailed(asserted);
     }
     else if (UNC_FAILSAFE && msgSensor == SensorThresholdWarning::interface)
     {
@@ -465,12 +482,8 @@ int handleSensorValue(sdbusplus::message_t& msg, DbusPassive* owner)
             return 0;
         }
 
-        bool asserted = false;
-        if (warningAlarmHigh != msgData.end())
-        {
-            asserted = std::get<bool>(warningAlarmHigh->second);
-        }
-        owner->setFailed(asserted);
+        owner->setAlarm(warningAlarmHigh->first,
+                        std::get<bool>(warningAlarmHigh->second));
     }
     else if (msgSensor == StateDecoratorAvailability::interface)
     {
diff --git a/dbus/dbuspassive.hpp b/dbus/dbuspassive.hpp
index 5a3c745..80b6998 100644
--- a/dbus/dbuspassive.hpp
+++ b/dbus/dbuspassive.hpp
@@ -16,6 +16,7 @@
 #include <cstdint>
 #include <memory>
 #include <mutex>
+#include <set>
 #include <string>
 
 namespace pid_control
@@ -58,6 +59,7 @@ class DbusPassive : public ReadInterface
     void setValue(double value);
 
     void setFailed(bool value);
+    void setAlarm(const std::string& name, bool asserted);
     void setFunctional(bool value);
     void setAvailable(bool value);
 
@@ -80,6 +82,8 @@ class DbusPassive : public ReadInterface
     double _max = 0;
     double _min = 0;
     bool _failed = false;
+    /* the threshold alarms standing */
+    std::set<std::string> _alarms;
     bool _functional = true;
     bool _available = true;
     bool _availableOverridden = false;
-- 
2.43.0


From 86ccd09e6669e996fc56cc0f2b2898e9902d9fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 18/43] fix: pair TempToMargin with its own input when another
 is missing

---
 dbus/dbusconfiguration.cpp | 44 ++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index a8ce353..4db64ac 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -176,6 +176,23 @@ std::vector<std::string> getSelectedProfiles(sdbusplus::bus_t& bus)
     return ret;
 }
 
+/* Gives each input the TempToMargin value of its own place in Inputs, where an
+ * input missing from the bus takes up one place.
+ */
+static void setTempToMargin(std::vector<conf::SensorInput>& inputs,
+                            const std::vector<size_t>& places,
+                            const std::vector<double>& tempToMargin)
+{
+    for (size_t i = 0; i < inputs.size() && i < places.size(); ++i)
+    {
+        if (places[i] < tempToMargin.size())
+        {
+            inputs[i].convertMarginZero = tempToMargin[places[i]];
+            inputs[i].convertTempToMargin = true;
+        }
+    }
+}
+
 int eventHandler(sd_bus_message* m, void* context, sd_bus_error*)
 {
     if (context == nullptr || m == nullptr)
@@ -762,8 +779,12 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                  * Mapping can be many-to-one since an element of Inputs can be
                  * a regex
                  */
+                std::vector<size_t> missingPlaces;
+                std::vector<size_t> foundPlaces;
+                size_t nextPlace = 0;
                 for (const std::string& sensorName : inputSensorNames)
                 {
+                    const size_t place = nextPlace;
                     if constexpr (!HANDLE_MISSING_OBJECT_PATHS)
                     {
                         findSensors(sensors, sensorNameToDbusName(sensorName),
@@ -798,6 +819,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                                 auto& config = sensorConfig[inputSensorName];
                                 archivedInputSensorNames.push_back(
                                     inputSensorName);
+                                missingPlaces.push_back(place);
                                 config.type = pidClass;
                                 config.readPath =
                                     getSensorPath(config.type, inputSensorName);
@@ -816,10 +838,14 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                                 std::cout
                                     << "Pid controller: Missing a missing-acceptable sensor from D-Bus "
                                     << sensorName << "\n";
-                                continue;
                             }
                         }
                     }
+                    while (foundPlaces.size() < inputSensorInterfaces.size())
+                    {
+                        foundPlaces.push_back(nextPlace++);
+                    }
+                    nextPlace = std::max(nextPlace, place + 1);
                 }
                 for (const std::string& sensorName : outputSensorNames)
                 {
@@ -1015,8 +1041,11 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                 }
 
                 std::vector<pid_control::conf::SensorInput> sensorInputs =
-                    spliceInputs(archivedInputSensorNames, inputTempToMargin,
+                    spliceInputs(archivedInputSensorNames, {},
                                  missingAcceptableSensorNames);
+                missingPlaces.insert(missingPlaces.end(), foundPlaces.begin(),
+                                     foundPlaces.end());
+                setTempToMargin(sensorInputs, missingPlaces, inputTempToMargin);
 
                 if (offsetType.empty())
                 {
@@ -1086,8 +1115,11 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                 }
 
                 bool sensorFound = false;
+                std::vector<size_t> places;
+                size_t nextPlace = 0;
                 for (const std::string& sensorName : sensorNames)
                 {
+                    const size_t place = nextPlace++;
                     std::vector<std::pair<std::string, std::string>>
                         sensorPathIfacePairs;
                     if (!findSensors(sensors, sensorNameToDbusName(sensorName),
@@ -1113,6 +1145,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                                 sensorNameToDbusName(sensorName);
 
                             inputs.push_back(shortName);
+                            places.push_back(place);
                             auto& config = sensorConfig[shortName];
                             config.type = "temp";
                             config.readPath =
@@ -1139,6 +1172,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                     }
                     else
                     {
+                        nextPlace = place;
                         for (const auto& sensorPathIfacePair :
                              sensorPathIfacePairs)
                         {
@@ -1146,6 +1180,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                                 sensorPathIfacePair.first);
 
                             inputs.push_back(shortName);
+                            places.push_back(nextPlace++);
                             auto& config = sensorConfig[shortName];
                             config.readPath = sensorPathIfacePair.first;
                             config.type = "temp";
@@ -1207,8 +1242,9 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                         std::get<std::vector<double>>(findTempToMargin->second);
                 }
 
-                info.inputs = spliceInputs(inputs, inputTempToMargin,
-                                           missingAcceptableSensors);
+                info.inputs =
+                    spliceInputs(inputs, {}, missingAcceptableSensors);
+                setTempToMargin(info.inputs, places, inputTempToMargin);
 
                 info.type = "stepwise";
                 info.stepwiseInfo.ts = 1.0; // currently unused
-- 
2.43.0


From 2e15eef7db9b1088cb72558d06ee2ca866bec89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 19/43] fix: do not log that a zone leaves failsafe for every
 healthy sensor

---
 dbus/dbuspassive.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dbus/dbuspassive.cpp b/dbus/dbuspassive.cpp
index 1b63622..1a43ca0 100644
--- a/dbus/dbuspassive.cpp
+++ b/dbus/dbuspassive.cpp
@@ -278,8 +278,7 @@ bool DbusPassive::getFailed(void) const
         return true;
     }
 
-    outputFailsafeLogWithSensor(_id, false, _id, "The sensor has recovered.");
-
+    // The zone reports a recovery, it knows whether it leaves failsafe mode.
     return false;
 }
 
-- 
2.43.0


From 8c81c2a532ac5ea0022a4eddc0c4deee6526ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 20/43] fix: do not log failsafe mode for a sensor that may be
 missing

---
 failsafeloggers/builder.cpp | 5 +++++
 pid/zone.cpp                | 5 +++++
 pid/zone.hpp                | 1 +
 pid/zone_interface.hpp      | 7 +++++++
 4 files changed, 18 insertions(+)

diff --git a/failsafeloggers/builder.cpp b/failsafeloggers/builder.cpp
index b632142..6e70e8e 100644
--- a/failsafeloggers/builder.cpp
+++ b/failsafeloggers/builder.cpp
@@ -38,6 +38,11 @@ void buildFailsafeLoggers(
             zoneIdToZone.second->getSensorNames();
         for (const std::string& sensorName : sensorNames)
         {
+            // Its failure does not put the zone in failsafe mode.
+            if (zoneIdToZone.second->isMissingAcceptable(sensorName))
+            {
+                continue;
+            }
             if (std::find(sensorNameToZoneId[sensorName].begin(),
                           sensorNameToZoneId[sensorName].end(), zoneId) ==
                 sensorNameToZoneId[sensorName].end())
diff --git a/pid/zone.cpp b/pid/zone.cpp
index b22155a..2e4664d 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -561,6 +561,11 @@ std::vector<std::string> DbusPidZone::getSensorNames(void)
     return _thermalInputs;
 }
 
+bool DbusPidZone::isMissingAcceptable(const std::string& name) const
+{
+    return _missingAcceptable.contains(name);
+}
+
 bool DbusPidZone::getRedundantWrite(void) const
 {
     return _redundantWrite;
diff --git a/pid/zone.hpp b/pid/zone.hpp
index 4472de5..062a6f7 100644
--- a/pid/zone.hpp
+++ b/pid/zone.hpp
@@ -100,6 +100,7 @@ class DbusPidZone : public ZoneInterface, public ModeObject
 
     Sensor* getSensor(const std::string& name) override;
     std::vector<std::string> getSensorNames(void) override;
+    bool isMissingAcceptable(const std::string& name) const override;
     void determineMaxSetPointRequest(void) override;
     void updateFanTelemetry(void) override;
     void updateSensors(void) override;
diff --git a/pid/zone_interface.hpp b/pid/zone_interface.hpp
index a14a885..f4987df 100644
--- a/pid/zone_interface.hpp
+++ b/pid/zone_interface.hpp
@@ -140,6 +140,13 @@ class ZoneInterface
         (void)name;
         return true;
     }
+
+    /** Returns true for a sensor that never puts the zone in failsafe mode. */
+    virtual bool isMissingAcceptable(const std::string& name) const
+    {
+        (void)name;
+        return false;
+    }
 };
 
 } // namespace pid_control
-- 
2.43.0


From 03d34bb41da0d50f719c1a656b3e518856462131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 21/43] fix: keep a fan failed while any of its redundancy
 groups is failed

A recovered group cleared the fans it shares with a failed one, and a
group that could not be read at start hid the groups after it.
---
 dbus/dbuspassiveredundancy.cpp | 51 +++++++++++++++++++++-------------
 dbus/dbuspassiveredundancy.hpp |  6 ++++
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/dbus/dbuspassiveredundancy.cpp b/dbus/dbuspassiveredundancy.cpp
index bc88728..7d2dbdf 100644
--- a/dbus/dbuspassiveredundancy.cpp
+++ b/dbus/dbuspassiveredundancy.cpp
@@ -94,18 +94,8 @@ DbusPassiveRedundancy::DbusPassiveRedundancy(sdbusplus::bus_t& bus) :
                   return;
               }
 
-              auto data = std::get<std::vector<std::string>>(collection);
-              if (status.rfind("Failed") != std::string::npos)
-              {
-                  failed.insert(data.begin(), data.end());
-              }
-              else
-              {
-                  for (const auto& d : data)
-                  {
-                      failed.erase(d);
-                  }
-              }
+              setGroup(message.get_path(), status,
+                       std::get<std::vector<std::string>>(collection));
           }),
     passiveBus(bus)
 {
@@ -165,23 +155,44 @@ void DbusPassiveRedundancy::populateFailures(void)
             }
             catch (const sdbusplus::exception_t&)
             {
+                // the other groups may still be known
                 std::cerr << "Populate Failures Mapper Error\n";
-                return;
+                continue;
             }
-            std::string status = std::get<std::string>(
-                getAll[ControlFanRedundancy::property_names::status]);
-            if (status.rfind("Failed") == std::string::npos)
+            auto status = std::get_if<std::string>(
+                &getAll[ControlFanRedundancy::property_names::status]);
+            auto collection = std::get_if<std::vector<std::string>>(
+                &getAll[ControlFanRedundancy::property_names::collection]);
+            if (!status || !collection)
             {
                 continue;
             }
-            std::vector<std::string> collection =
-                std::get<std::vector<std::string>>(
-                    getAll[ControlFanRedundancy::property_names::collection]);
-            failed.insert(collection.begin(), collection.end());
+            setGroup(path, *status, *collection);
         }
     }
 }
 
+void DbusPassiveRedundancy::setGroup(const std::string& path,
+                                     const std::string& status,
+                                     const std::vector<std::string>& collection)
+{
+    if (status.rfind("Failed") != std::string::npos)
+    {
+        failedGroups[path] = collection;
+    }
+    else
+    {
+        failedGroups.erase(path);
+    }
+
+    // a fan may belong to several groups
+    failed.clear();
+    for (const auto& [_, members] : failedGroups)
+    {
+        failed.insert(members.begin(), members.end());
+    }
+}
+
 const std::set<std::string>& DbusPassiveRedundancy::getFailed()
 {
     return failed;
diff --git a/dbus/dbuspassiveredundancy.hpp b/dbus/dbuspassiveredundancy.hpp
index c900761..d7f03b8 100644
--- a/dbus/dbuspassiveredundancy.hpp
+++ b/dbus/dbuspassiveredundancy.hpp
@@ -19,8 +19,10 @@
 #include <sdbusplus/bus.hpp>
 #include <sdbusplus/bus/match.hpp>
 
+#include <map>
 #include <set>
 #include <string>
+#include <vector>
 
 namespace pid_control
 {
@@ -40,8 +42,12 @@ class DbusPassiveRedundancy
 
   private:
     void populateFailures(void);
+    void setGroup(const std::string& path, const std::string& status,
+                  const std::vector<std::string>& collection);
 
     sdbusplus::match match;
+    /* the collections of the failed groups, by object path */
+    std::map<std::string, std::vector<std::string>> failedGroups;
     std::set<std::string> failed;
     sdbusplus::bus_t& passiveBus;
 };
-- 
2.43.0


From 64673ee04ed150134b11e7369cb7885936e8ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 22/43] fix: refuse sensors that cannot be set up

An external fan had no reader and crashed the first read, and a sensor of
an unknown type was dropped without a word.
---
 sensors/builder.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 7316cd3..e2e2457 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -91,6 +91,11 @@ SensorManager buildSensors(
                 break;
             case IOInterfaceType::EXTERNAL:
                 // These are a special case for read-only.
+                if (info->type == "fan")
+                {
+                    throw SensorBuildException(
+                        "A fan cannot be an external sensor: " + name);
+                }
                 break;
             case IOInterfaceType::SYSFS:
                 ri = std::make_unique<SysFsRead>(info->readPath);
@@ -179,6 +184,11 @@ SensorManager buildSensors(
                 mgmr.addSensor(info->type, name, std::move(sensor));
             }
         }
+        else
+        {
+            throw SensorBuildException("Unknown type of sensor: " + name +
+                                       " of type: " + info->type);
+        }
     }
 
     return mgmr;
-- 
2.43.0


From f361d66e7e0b962350fbedda29a317d049b2c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 23/43] fix: keep fractions of FailSafePercent from JSON

---
 pid/buildjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index a902fd9..e60948a 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -84,7 +84,7 @@ void from_json(const json& j, conf::ControllerInfo& c)
     }
 
     auto failSafePercent = j.find("FailSafePercent");
-    auto failSafePercentValue = 0;
+    auto failSafePercentValue = 0.0;
     if (failSafePercent != j.end())
     {
         failSafePercent->get_to(failSafePercentValue);
-- 
2.43.0


From 1c1e7e701806db2102b176a22e6033d3bcc2509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 24/43] fix: reject a JSON configuration that lacks a required
 key

---
 pid/buildjson.cpp     | 13 ++++++-------
 sensors/buildjson.cpp |  4 ++--
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index e60948a..657264e 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -195,17 +195,16 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
     std::map<int64_t, conf::ZoneConfig> zoneConfig;
 
     /* TODO: if zones is empty, that's invalid. */
-    auto zones = data["zones"];
+    auto zones = data.at("zones");
     for (const auto& zone : zones)
     {
         int64_t id;
         conf::PIDConf thisZone;
         conf::ZoneConfig thisZoneConfig;
 
-        /* TODO: using at() throws a specific exception we can catch */
-        id = zone["id"];
-        thisZoneConfig.minThermalOutput = zone["minThermalOutput"];
-        thisZoneConfig.failsafePercent = zone["failsafePercent"];
+        id = zone.at("id");
+        thisZoneConfig.minThermalOutput = zone.at("minThermalOutput");
+        thisZoneConfig.failsafePercent = zone.at("failsafePercent");
 
         getCycleTimeSetting(zone, id, "cycleIntervalTimeMS",
                             thisZoneConfig.cycleTime.cycleIntervalTimeMS);
@@ -220,10 +219,10 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
         }
         thisZoneConfig.accumulateSetPoint = accumulateSetPoint;
 
-        auto pids = zone["pids"];
+        auto pids = zone.at("pids");
         for (const auto& pid : pids)
         {
-            auto name = pid["name"];
+            auto name = pid.at("name");
             auto item = pid.get<conf::ControllerInfo>();
 
             if (thisZone.find(name) != thisZone.end())
diff --git a/sensors/buildjson.cpp b/sensors/buildjson.cpp
index 23bb201..770647e 100644
--- a/sensors/buildjson.cpp
+++ b/sensors/buildjson.cpp
@@ -104,14 +104,14 @@ void from_json(const json& j, conf::SensorConfig& s)
 std::map<std::string, conf::SensorConfig> buildSensorsFromJson(const json& data)
 {
     std::map<std::string, conf::SensorConfig> config;
-    auto sensors = data["sensors"];
+    auto sensors = data.at("sensors");
 
     /* TODO: If no sensors, this is invalid, and we should except here or during
      * parsing.
      */
     for (const auto& sensor : sensors)
     {
-        config[sensor["name"]] = sensor.get<conf::SensorConfig>();
+        config[sensor.at("name")] = sensor.get<conf::SensorConfig>();
     }
 
     return config;
-- 
2.43.0


From 1118884b7ea3a9899f0206b4e0099e9d8b556af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 25/43] fix: reject a stepwise table that is not an object

---
 pid/buildjson.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 657264e..06b5afe 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -128,7 +128,7 @@ void from_json(const json& j, conf::ControllerInfo& c)
         auto reading = p.find("reading");
         if (reading != p.end())
         {
-            auto r = p.at("reading");
+            auto r = p.at("reading").get<json::object_t>();
             for (size_t i = 0; i < ec::maxStepwisePoints; i++)
             {
                 auto n = r.find(std::to_string(i));
@@ -142,7 +142,7 @@ void from_json(const json& j, conf::ControllerInfo& c)
         auto output = p.find("output");
         if (output != p.end())
         {
-            auto o = p.at("output");
+            auto o = p.at("output").get<json::object_t>();
             for (size_t i = 0; i < ec::maxStepwisePoints; i++)
             {
                 auto n = o.find(std::to_string(i));
-- 
2.43.0


From f745a6680185baa0873ef3f02ada2ea98cd9d94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 26/43] fix: honour MissingIsAcceptable for fans from D-Bus

---
 dbus/dbusconfiguration.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index 4db64ac..210f29c 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -995,6 +995,13 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                         pwmSensorName = getSensorNameFromPath(pwmPath);
                         std::string fanPwmIndex = fanSensorName + pwmSensorName;
                         archivedInputSensorNames.push_back(fanPwmIndex);
+                        if (std::find(missingAcceptableSensorNames.begin(),
+                                      missingAcceptableSensorNames.end(),
+                                      fanSensorName) !=
+                            missingAcceptableSensorNames.end())
+                        {
+                            missingAcceptableSensorNames.push_back(fanPwmIndex);
+                        }
                         auto& fanConfig = sensorConfig[fanPwmIndex];
                         fanConfig.type = pidClass;
                         fanConfig.readPath = fanPath;
-- 
2.43.0


From 8311e3df3824dd06e618f7a78e04a225ee1199a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 27/43] fix: do not pair a fan with the PWM of another that is
 missing

---
 dbus/dbusconfiguration.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index 210f29c..de56c90 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -847,10 +847,18 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                     }
                     nextPlace = std::max(nextPlace, place + 1);
                 }
+                std::vector<size_t> outputPlaces;
+                nextPlace = 0;
                 for (const std::string& sensorName : outputSensorNames)
                 {
+                    const size_t place = nextPlace;
                     findSensors(sensors, sensorNameToDbusName(sensorName),
                                 outputSensorInterfaces);
+                    while (outputPlaces.size() < outputSensorInterfaces.size())
+                    {
+                        outputPlaces.push_back(nextPlace++);
+                    }
+                    nextPlace = std::max(nextPlace, place + 1);
                 }
                 for (const std::string& sensorName :
                      missingAcceptableSensorNames)
@@ -941,13 +949,13 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                      * everything else indicates a bad configuration.
                      */
                     bool singlePwm = false;
-                    if (outputSensorInterfaces.size() == 1)
+                    if (outputSensorNames.size() == 1 &&
+                        outputSensorInterfaces.size() == 1)
                     {
                         /* one pwm, set write paths for all fan sensors to it */
                         singlePwm = true;
                     }
-                    else if (inputSensorInterfaces.size() ==
-                             outputSensorInterfaces.size())
+                    else if (foundPlaces == outputPlaces)
                     {
                         /* one to one mapping, each fan sensor gets its own pwm
                          * control */
@@ -956,7 +964,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                     else
                     {
                         throw std::runtime_error(std::format(
-                            "fan PID '{}' has invalid number of Outputs: {} != number of Inputs: {}",
+                            "fan PID '{}' has Outputs that do not match its Inputs: found {} Outputs and {} Inputs",
                             pidName, outputSensorInterfaces.size(),
                             inputSensorInterfaces.size()));
                     }
-- 
2.43.0


From 1734521d1c3dceca27d675e175c57144a40ac07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 28/43] fix: do not log failsafe mode for a failure tolerated
 while the host is off

---
 sensors/pluggable.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sensors/pluggable.cpp b/sensors/pluggable.cpp
index bd1e94c..13616e1 100644
--- a/sensors/pluggable.cpp
+++ b/sensors/pluggable.cpp
@@ -29,9 +29,8 @@ void PluggableSensor::write(double value, bool force, int64_t* written)
 
 bool PluggableSensor::getFailed(void)
 {
-    bool isFailed = _reader->getFailed();
-
-    if (isFailed && getIgnoreFailIfHostOff())
+    // Checked first: the reader logs a failure as one of its zones.
+    if (getIgnoreFailIfHostOff())
     {
         auto& hostState = HostStateMonitor::getInstance();
         if (!hostState.isPowerOn())
@@ -40,7 +39,7 @@ bool PluggableSensor::getFailed(void)
         }
     }
 
-    return isFailed;
+    return _reader->getFailed();
 }
 
 std::string PluggableSensor::getFailReason(void)
-- 
2.43.0


From 61ba7afb1245de987c437ae1be02658b8d6ff0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 29/43] fix: limit the failsafe messages by the monotonic clock

---
 failsafeloggers/failsafe_logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/failsafeloggers/failsafe_logger.cpp b/failsafeloggers/failsafe_logger.cpp
index 183868d..fd635d5 100644
--- a/failsafeloggers/failsafe_logger.cpp
+++ b/failsafeloggers/failsafe_logger.cpp
@@ -13,7 +13,7 @@ void FailsafeLogger::outputFailsafeLog(
     const std::string& location, const std::string& reason)
 {
     // Remove outdated log entries.
-    const auto now = std::chrono::high_resolution_clock::now();
+    const auto now = std::chrono::steady_clock::now();
     uint64_t nowMs = std::chrono::duration_cast<std::chrono::milliseconds>(
                          now.time_since_epoch())
                          .count();
-- 
2.43.0


From 443763838484d71932396f074008f66cd40966f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 30/43] fix: do not log leaving failsafe mode for an acceptable
 missing sensor

---
 pid/zone.cpp | 12 +++++++++---
 pid/zone.hpp |  8 +++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index 2e4664d..0761c85 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -99,9 +99,15 @@ void DbusPidZone::markSensorMissing(const std::string& name,
 {
     if (_missingAcceptable.find(name) != _missingAcceptable.end())
     {
-        // Disallow sensors in MissingIsAcceptable list from causing failsafe
-        outputFailsafeLogWithZone(_zoneId, this->getFailSafeMode(), name,
-                                  "The sensor is missing but is acceptable.");
+        // Disallow sensors in MissingIsAcceptable list from causing failsafe.
+        // Outside failsafe mode there is nothing to log: the zone does not
+        // leave it because of this sensor.
+        if (this->getFailSafeMode())
+        {
+            outputFailsafeLogWithZone(
+                _zoneId, true, name,
+                "The sensor is missing but is acceptable.");
+        }
         return;
     }
 
diff --git a/pid/zone.hpp b/pid/zone.hpp
index 062a6f7..2d69024 100644
--- a/pid/zone.hpp
+++ b/pid/zone.hpp
@@ -198,9 +198,11 @@ class DbusPidZone : public ZoneInterface, public ModeObject
                 {
                     std::cerr << sensorInput << " sensor timeout\n";
                 }
-                outputFailsafeLogWithZone(_zoneId, this->getFailSafeMode(),
-                                          sensorInput,
-                                          "The sensor has timed out.");
+                if (this->getFailSafeMode())
+                {
+                    outputFailsafeLogWithZone(_zoneId, true, sensorInput,
+                                              "The sensor has timed out.");
+                }
             }
             else
             {
-- 
2.43.0


From c18909f7c59aa9bcb29d4c592fe3474e76fb6673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 31/43] fix: refuse a fan controller without inputs instead of
 crashing in its zone

---
 pid/builder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pid/builder.cpp b/pid/builder.cpp
index 6de7bcc..52be1d3 100644
--- a/pid/builder.cpp
+++ b/pid/builder.cpp
@@ -4,6 +4,7 @@
 #include "pid/builder.hpp"
 
 #include "conf.hpp"
+#include "errors/exception.hpp"
 #include "manager.hpp"
 #include "pid/controller.hpp"
 #include "pid/fancontroller.hpp"
@@ -92,6 +93,11 @@ std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(
 
                 auto pid = FanController::createFanPid(
                     zone.get(), name, splitNames(inputs), info.pidInfo);
+                if (!pid)
+                {
+                    throw ControllerBuildException(
+                        "Fan controller missing inputs");
+                }
                 zone->addFanPID(std::move(pid));
                 zone->addPidFailSafePercent(splitNames(inputs),
                                             info.failSafePercent);
-- 
2.43.0


From 7abe8f990d4015b614bb278a8715f79a0a2bf995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 32/43] fix: keep the output when overflowing PID terms leave
 no number

---
 pid/ec/pid.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pid/ec/pid.cpp b/pid/ec/pid.cpp
index 278fa22..47dd021 100644
--- a/pid/ec/pid.cpp
+++ b/pid/ec/pid.cpp
@@ -6,6 +6,7 @@
 #include "logging.hpp"
 
 #include <chrono>
+#include <cmath>
 #include <string>
 
 namespace pid_control
@@ -105,6 +106,13 @@ double pid(pid_info_t* pidinfoptr, double input, double setpoint,
 
     output = proportionalTerm + integralTerm + derivativeTerm + feedFwdTerm;
 
+    // Terms that overflowed in opposite directions leave nothing to act on,
+    // keep the output as it is.
+    if (std::isnan(output))
+    {
+        output = pidinfoptr->lastOutput;
+    }
+
     coreContext.output1 = output;
 
     output = clamp(output, pidinfoptr->outLim.min, pidinfoptr->outLim.max);
-- 
2.43.0


From a3dbd084f40641688775ba8e40191519e1200b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 33/43] fix: ignore malformed signals instead of ending the
 daemon

---
 dbus/dbuspassive.cpp           | 12 +++++++++++-
 dbus/dbuspassiveredundancy.cpp |  8 ++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/dbus/dbuspassive.cpp b/dbus/dbuspassive.cpp
index 1a43ca0..e77308d 100644
--- a/dbus/dbuspassive.cpp
+++ b/dbus/dbuspassive.cpp
@@ -524,7 +524,17 @@ int dbusHandleSignal(sd_bus_message* msg, void* usrData,
     auto sdbpMsg = sdbusplus::message_t(msg);
     DbusPassive* obj = static_cast<DbusPassive*>(usrData);
 
-    return handleSensorValue(sdbpMsg, obj);
+    try
+    {
+        return handleSensorValue(sdbpMsg, obj);
+    }
+    catch (const std::exception& e)
+    {
+        std::cerr << "DbusPassive: Ignoring a malformed signal for "
+                  << obj->getID() << ": " << e.what() << "\n";
+    }
+
+    return 0;
 }
 
 } // namespace pid_control
diff --git a/dbus/dbuspassiveredundancy.cpp b/dbus/dbuspassiveredundancy.cpp
index 7d2dbdf..08ec77c 100644
--- a/dbus/dbuspassiveredundancy.cpp
+++ b/dbus/dbuspassiveredundancy.cpp
@@ -73,7 +73,11 @@ DbusPassiveRedundancy::DbusPassiveRedundancy(sdbusplus::bus_t& bus) :
               {
                   return;
               }
-              std::string status = std::get<std::string>(findStatus->second);
+              auto status = std::get_if<std::string>(&findStatus->second);
+              if (!status)
+              {
+                  return;
+              }
 
               auto methodCall = passiveBus.new_method_call(
                   message.get_sender(), message.get_path(),
@@ -94,7 +98,7 @@ DbusPassiveRedundancy::DbusPassiveRedundancy(sdbusplus::bus_t& bus) :
                   return;
               }
 
-              setGroup(message.get_path(), status,
+              setGroup(message.get_path(), *status,
                        std::get<std::vector<std::string>>(collection));
           }),
     passiveBus(bus)
-- 
2.43.0


From 08251a91800b6732fd5b0aac313e33a88e975af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 34/43] fix: refuse a controller whose input is not a known
 sensor when building its zone

---
 pid/builder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pid/builder.cpp b/pid/builder.cpp
index 52be1d3..f90ea42 100644
--- a/pid/builder.cpp
+++ b/pid/builder.cpp
@@ -79,10 +79,12 @@ std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(
             std::vector<pid_control::conf::SensorInput> inputs;
             std::cerr << "PID name: " << name << "\n";
 
-            /*
-             * TODO(venture): Need to check if input is known to the
-             * SensorManager.
-             */
+            for (const auto& i : info.inputs)
+            {
+                // throws if the input is not known to the SensorManager
+                mgr.getSensor(i.name);
+            }
+
             if (info.type == "fan")
             {
                 for (const auto& i : info.inputs)
-- 
2.43.0


From 876c4425a1036d339d160bec467c5ee7ef3c3ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:24 +0000
Subject: [PATCH 35/43] fix: when accumulating, let a negative output lower the
 sum it is part of

---
 pid/zone.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index 0761c85..6447f36 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -173,6 +173,21 @@ void DbusPidZone::addSetPoint(double setPoint, const std::string& name)
         _maximumSetPoint = setPoints[profileName];
         _maximumSetPointName = profileName;
     }
+    else if (_maximumSetPointName == profileName &&
+             setPoints[profileName] < _maximumSetPoint)
+    {
+        // A negative output lowered the sum that was the largest.
+        _maximumSetPoint = 0;
+        _maximumSetPointName.clear();
+        for (const auto& [profile, sum] : setPoints)
+        {
+            if (_maximumSetPoint < sum)
+            {
+                _maximumSetPoint = sum;
+                _maximumSetPointName = profile;
+            }
+        }
+    }
 }
 
 void DbusPidZone::addRPMCeiling(double ceiling)
-- 
2.43.0


From 3561ac6edf0c535f4c2761e0fca82094a29f278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:02 +0000
Subject: [PATCH 36/43] fix: compute the derivative term only when it has a
 coefficient

---
 pid/ec/pid.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pid/ec/pid.cpp b/pid/ec/pid.cpp
index 47dd021..68d5cfb 100644
--- a/pid/ec/pid.cpp
+++ b/pid/ec/pid.cpp
@@ -93,8 +93,11 @@ double pid(pid_info_t* pidinfoptr, double input, double setpoint,
     coreContext.integralTerm2 = integralTerm;
 
     // piD
-    derivativeTerm = pidinfoptr->derivativeCoeff *
-                     ((error - pidinfoptr->lastError) / pidinfoptr->ts);
+    if (0.0f != pidinfoptr->derivativeCoeff)
+    {
+        derivativeTerm = pidinfoptr->derivativeCoeff *
+                         ((error - pidinfoptr->lastError) / pidinfoptr->ts);
+    }
 
     coreContext.derivativeTerm = derivativeTerm;
 
-- 
2.43.0


From 95b25c23909eda5f7d43bd7e33306ccbc99df609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:12 +0000
Subject: [PATCH 37/43] fix: set the external sensor's value as the double it
 is

---
 setsensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/setsensor.cpp b/setsensor.cpp
index 884e52b..f21eda2 100644
--- a/setsensor.cpp
+++ b/setsensor.cpp
@@ -21,13 +21,13 @@ using ControlMode = sdbusplus::common::xyz::openbmc_project::control::Mode;
 static constexpr auto sobjectPath =
     "/xyz/openbmc_project/extsensors/margin/sluggish0";
 static constexpr auto sbusName = "xyz.openbmc_project.Hwmon.external";
-using sValue = std::variant<int64_t>;
+using sValue = std::variant<double>;
 
 static constexpr auto propertiesintf = "org.freedesktop.DBus.Properties";
 
 static void SetHostSensor(void)
 {
-    int64_t value = 300;
+    double value = 300;
     sValue v{value};
 
     std::string busname{sbusName};
-- 
2.43.0


From 8684a4cc4e2368372cd73845d93c02f923422f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:09 +0000
Subject: [PATCH 38/43] fix: refuse a JSON controller of an unknown type

---
 pid/buildjson.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 06b5afe..550b40f 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -5,6 +5,7 @@
 
 #include "conf.hpp"
 #include "ec/stepwise.hpp"
+#include "errors/exception.hpp"
 #include "util.hpp"
 
 #include <nlohmann/json.hpp>
@@ -14,6 +15,7 @@
 #include <iostream>
 #include <limits>
 #include <map>
+#include <set>
 #include <string>
 #include <utility>
 #include <vector>
@@ -35,6 +37,14 @@ void from_json(const json& j, conf::ControllerInfo& c)
     j.at("inputs").get_to(inputNames);
     j.at("setpoint").get_to(c.setpoint);
 
+    static const std::set<std::string> types = {
+        "fan", "margin", "power", "powersum", "stepwise", "temp"};
+    if (!types.contains(c.type))
+    {
+        throw ConfigurationException("Unrecognized type of controller: " +
+                                     c.type);
+    }
+
     std::vector<double> inputTempToMargin;
 
     auto findTempToMargin = j.find("tempToMargin");
-- 
2.43.0


From 7af00542aa17c55d7af03c122bfc218fea074120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:01 +0000
Subject: [PATCH 39/43] fix: force the failsafe write when a fan controller
 ends

In manual mode somebody else may have set a D-Bus fan since the daemon last
wrote it. With offline-failsafe-pwm the write at the end was skipped when the
daemon's own last value happened to be the failsafe speed, and the fan was
left at the foreign one.
---
 pid/fancontroller.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pid/fancontroller.cpp b/pid/fancontroller.cpp
index 190954a..edf98eb 100644
--- a/pid/fancontroller.cpp
+++ b/pid/fancontroller.cpp
@@ -239,9 +239,10 @@ FanController::~FanController()
     for (const auto& it : _inputs)
     {
         auto sensor = _owner->getSensor(it);
-        auto redundantWrite = _owner->getRedundantWrite();
         int64_t rawWritten = -1;
-        sensor->write(percent, redundantWrite, &rawWritten);
+        // Forced: in manual mode the fan may have been set by somebody else
+        // since this controller last wrote it.
+        sensor->write(percent, true, &rawWritten);
 
         // The outputCache will be used later,
         // to store a record of the PWM commanded,
-- 
2.43.0


From d2def327cdfeb77c3546f3fe27a2b4e504dde632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:05 +0000
Subject: [PATCH 40/43] fix: write a D-Bus fan again after a forced write
 failed

A forced write repeats the value that is already in effect by the daemon's own
account. When it failed, the next command with that value was skipped as
redundant, and a fan set by somebody else in manual mode kept that speed.
---
 dbus/dbuswrite.cpp | 14 ++++++++++----
 dbus/dbuswrite.hpp |  2 ++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/dbus/dbuswrite.cpp b/dbus/dbuswrite.cpp
index 317a262..73a3408 100644
--- a/dbus/dbuswrite.cpp
+++ b/dbus/dbuswrite.cpp
@@ -71,7 +71,7 @@ void DbusWritePercent::write(double value, bool force, int64_t* written)
 
     if (oldValue == static_cast<int64_t>(ovalue))
     {
-        if (!force)
+        if (!force && !retry)
         {
             if (written)
             {
@@ -96,7 +96,9 @@ void DbusWritePercent::write(double value, bool force, int64_t* written)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
-        // not in effect: report the old value and try again next time
+        // not in effect: report the old value and try again next time,
+        // even if that asks for the old value, as a forced write does
+        retry = true;
         if (written)
         {
             *written = oldValue;
@@ -105,6 +107,7 @@ void DbusWritePercent::write(double value, bool force, int64_t* written)
     }
 
     oldValue = static_cast<int64_t>(ovalue);
+    retry = false;
     if (written)
     {
         *written = oldValue;
@@ -139,7 +142,7 @@ void DbusWrite::write(double value, bool force, int64_t* written)
 {
     if (oldValue == static_cast<int64_t>(value))
     {
-        if (!force)
+        if (!force && !retry)
         {
             if (written)
             {
@@ -164,7 +167,9 @@ void DbusWrite::write(double value, bool force, int64_t* written)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
-        // not in effect: report the old value and try again next time
+        // not in effect: report the old value and try again next time,
+        // even if that asks for the old value, as a forced write does
+        retry = true;
         if (written)
         {
             *written = oldValue;
@@ -173,6 +178,7 @@ void DbusWrite::write(double value, bool force, int64_t* written)
     }
 
     oldValue = static_cast<int64_t>(value);
+    retry = false;
     if (written)
     {
         *written = oldValue;
diff --git a/dbus/dbuswrite.hpp b/dbus/dbuswrite.hpp
index bf49856..d8da514 100644
--- a/dbus/dbuswrite.hpp
+++ b/dbus/dbuswrite.hpp
@@ -45,6 +45,7 @@ class DbusWritePercent : public WriteInterface
     std::string path;
     std::string connectionName;
     int64_t oldValue = -1;
+    bool retry = false;
 };
 
 class DbusWrite : public WriteInterface
@@ -66,6 +67,7 @@ class DbusWrite : public WriteInterface
     std::string path;
     std::string connectionName;
     int64_t oldValue = -1;
+    bool retry = false;
 };
 
 } // namespace pid_control
-- 
2.43.0


From e89b82bcc43b2e405c5f43d13bc7a239509d90d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:05 +0000
Subject: [PATCH 41/43] fix: refuse a TempToMargin that is not a number when
 building

It was found out in the control loop, where the exception ended the daemon
as soon as the sensor had a reading.
---
 pid/thermalcontroller.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pid/thermalcontroller.cpp b/pid/thermalcontroller.cpp
index 8b7878e..50c863a 100644
--- a/pid/thermalcontroller.cpp
+++ b/pid/thermalcontroller.cpp
@@ -58,6 +58,18 @@ std::unique_ptr<PIDController> ThermalController::createThermalPid(
         throw ControllerBuildException("Thermal controller missing inputs");
     }
 
+    // The control loop has nobody to report this to
+    if (type == ThermalType::margin)
+    {
+        for (const auto& in : inputs)
+        {
+            if (in.convertTempToMargin && !std::isfinite(in.convertMarginZero))
+            {
+                throw ControllerBuildException("Unrecognized TempToMargin");
+            }
+        }
+    }
+
     auto thermal = std::make_unique<ThermalController>(id, inputs, type, owner);
 
     ec::pid_info_t* info = thermal->getPIDInfo();
-- 
2.43.0


From c9093d92ac9627132ea5f4d4141a08364e1901ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:05 +0000
Subject: [PATCH 42/43] fix: bound the cycle times by what the timer can count

Longer ones, infinity included, overflowed the conversion from the bus or the
timer's time point. They are treated like other invalid ones now.
---
 conf.hpp                   | 3 +++
 dbus/dbusconfiguration.cpp | 3 ++-
 pid/buildjson.cpp          | 3 ++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/conf.hpp b/conf.hpp
index 758436e..a89815f 100644
--- a/conf.hpp
+++ b/conf.hpp
@@ -62,6 +62,9 @@ struct ControllerInfo
     double failSafePercent;
 };
 
+/* About 31 years. The timer counts nanoseconds in 64 bits. */
+constexpr int64_t maxCycleTimeMS = 1'000'000'000'000;
+
 struct CycleTime
 {
     /* The time interval every cycle. 0.1 seconds by default */
diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index de56c90..cfc23e8 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -328,7 +328,8 @@ inline void getCycleTimeSetting(
     {
         double tmpAttributeValue =
             std::visit(VariantToDoubleVisitor(), zone.at(attributeName));
-        if (tmpAttributeValue >= 1.0)
+        if (tmpAttributeValue >= 1.0 &&
+            tmpAttributeValue <= conf::maxCycleTimeMS)
         {
             value = static_cast<uint64_t>(tmpAttributeValue);
         }
diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 550b40f..2c59259 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -179,7 +179,8 @@ inline void getCycleTimeSetting(const auto& zone, const int id,
     {
         int64_t tmpAttributeValue = 0;
         findAttributeName->get_to(tmpAttributeValue);
-        if (tmpAttributeValue >= 1)
+        if (tmpAttributeValue >= 1 &&
+            tmpAttributeValue <= conf::maxCycleTimeMS)
         {
             value = static_cast<uint64_t>(tmpAttributeValue);
         }
-- 
2.43.0


From d1848bf9e5fc93e6675230d8904a580170489a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:05 +0000
Subject: [PATCH 43/43] fix: assign an index to a zone whose ZoneIndex is out
 of range

The conversion of a value that is not a number, or too large, is undefined.
---
 dbus/dbusconfiguration.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index cfc23e8..4b375e6 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -45,6 +45,7 @@
 #include <algorithm>
 #include <array>
 #include <chrono>
+#include <cmath>
 #include <cstdint>
 #include <format>
 #include <iostream>
@@ -666,6 +667,12 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                 continue;
             }
 
+            // not a number, or beyond the range of an index
+            if (!(std::abs(*ptrZoneIndex) < 9.0e18))
+            {
+                continue;
+            }
+
             auto desiredIndex = static_cast<int64_t>(*ptrZoneIndex);
             auto grantedIndex = setZoneIndex(name, foundZones, desiredIndex);
             std::cout << "Zone " << name << " is at ZoneIndex " << grantedIndex
-- 
2.43.0

