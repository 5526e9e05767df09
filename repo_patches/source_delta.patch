From 90cf4bb26c097647832ebb382541f75e6ea5f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 01/95] fix: refuse negative numbers that wrap around to a
 small unsigned value

stoul converts "-18446744073709551615" to 1, so stoui8/16/32 accepted it instead of throwing
std::out_of_range as for every other negative number.
---
 .../include/hardware_interface/lexical_casts.hpp              | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/lexical_casts.hpp b/hardware_interface/include/hardware_interface/lexical_casts.hpp
index 9826f19..8479875 100644
--- a/hardware_interface/include/hardware_interface/lexical_casts.hpp
+++ b/hardware_interface/include/hardware_interface/lexical_casts.hpp
@@ -83,7 +83,9 @@ T stoui_generic(const std::string & s)
   {
     throw std::invalid_argument("Invalid characters in string");
   }
-  if (v > std::numeric_limits<T>::max())
+  // stoul accepts negative numbers and wraps them around
+  const bool is_negative = v != 0 && s.find('-') != std::string::npos;
+  if (is_negative || v > std::numeric_limits<T>::max())
   {
     throw std::out_of_range("value not in range of target type");
   }
-- 
2.43.0


From cb9be558d3034cc1f4a6e6dbfd2253f6efb070a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 02/95] fix: refuse two signs in front of a floating point
 number

"+-1.5" was converted to -1.5 because a leading plus was skipped before the minus was parsed.
---
 hardware_interface/src/lexical_casts.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hardware_interface/src/lexical_casts.cpp b/hardware_interface/src/lexical_casts.cpp
index 5afd197..8430d4a 100644
--- a/hardware_interface/src/lexical_casts.cpp
+++ b/hardware_interface/src/lexical_casts.cpp
@@ -44,7 +44,7 @@ std::optional<FloatingPointType> parse_floating_point_with_from_chars(const std:
   if (*begin == '+')
   {
     ++begin;
-    if (begin == end)
+    if (begin == end || *begin == '-')
     {
       return std::nullopt;
     }
-- 
2.43.0


From a0a1f08f5eb5240b97f22cf90e046cc4e90601bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 03/95] fix: parse arrays without std::regex

std::regex recursed for each character and crashed with a stack overflow on long arrays, and
needed exponential time for malformed ones like "[,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,".
---
 .../hardware_interface/lexical_casts.hpp      | 55 +++++++++----------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/lexical_casts.hpp b/hardware_interface/include/hardware_interface/lexical_casts.hpp
index 8479875..7b81051 100644
--- a/hardware_interface/include/hardware_interface/lexical_casts.hpp
+++ b/hardware_interface/include/hardware_interface/lexical_casts.hpp
@@ -15,9 +15,9 @@
 #ifndef HARDWARE_INTERFACE__LEXICAL_CASTS_HPP_
 #define HARDWARE_INTERFACE__LEXICAL_CASTS_HPP_
 
+#include <algorithm>
 #include <cstdint>
 #include <limits>
-#include <regex>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -116,45 +116,40 @@ bool parse_bool(const std::string & bool_string);
 template <typename T>
 std::vector<T> parse_array(const std::string & array_string)
 {
-  // Use regex to check for a flat array: starts with [, ends with ], no nested brackets
-  const std::regex array_regex(R"(^\[\s*([^\[\]]*\s*(,\s*[^\[\]]+\s*)*)?\]$)");
-  if (!std::regex_match(array_string, array_regex))
+  // A flat array starts with '[', ends with ']' and has no other bracket in between.
+  // This is scanned by hand as std::regex recurses for each character (stack overflow on long
+  // strings) and needs exponential time on malformed ones.
+  if (
+    array_string.size() < 2 || array_string.front() != '[' || array_string.back() != ']' ||
+    array_string.find_first_of("[]", 1) != array_string.size() - 1)
   {
     throw std::invalid_argument(
       "String must be a flat array: starts with '[' and ends with ']', no nested arrays");
   }
 
-  // Use regex for the expression that either empty or contains only spaces
-  const std::regex empty_or_spaces_regex(R"(^\[\s*\]$)");
-  if (std::regex_match(array_string, empty_or_spaces_regex))
-  {
-    return {};  // Return empty array if input is "[]"
-  }
-
-  // Use regex to find cases of comma-separated but only whitespaces or no spaces between them like
-  // "[,]" "[a,b,,c]"
-  const std::regex comma_separated_regex(R"(^\[\s*([^,\s]+(\s*,\s*[^,\s]+)*)?\s*\]$)");
-  if (!std::regex_match(array_string, comma_separated_regex))
-  {
-    throw std::invalid_argument(
-      "String must be a flat array with comma-separated values and no spaces between them");
-  }
-
+  const char * const spaces = " \t\n\v\f\r";
+  const std::string content = array_string.substr(1, array_string.size() - 2);
   std::vector<T> result = {};
-  if (array_string == "[]")
+  if (content.find_first_not_of(spaces) == std::string::npos)
   {
-    return result;  // Return empty array if input is "[]"
+    return result;  // Return empty array if input is "[]" or contains only spaces
   }
 
-  // regex for comma separated values and no spaces between them or just content like "[a,b,c]" or
-  // "[a]" or "[a, b, c]"
-  const std::regex value_regex(R"([^\s,\[\]]+)");
-  auto begin = std::sregex_iterator(array_string.begin(), array_string.end(), value_regex);
-  auto end = std::sregex_iterator();
-
-  for (auto it = begin; it != end; ++it)
+  for (size_t start = 0; start <= content.size();)
   {
-    const std::string value_str = it->str();  // Get the first capturing group
+    const size_t stop = std::min(content.find(',', start), content.size());
+    const std::string element = content.substr(start, stop - start);
+    start = stop + 1;
+
+    // Elements have to be non-empty and may be surrounded by spaces, but not contain any
+    const size_t first = element.find_first_not_of(spaces);
+    const size_t last = element.find_last_not_of(spaces);
+    if (first == std::string::npos || element.find_first_of(spaces, first) < last)
+    {
+      throw std::invalid_argument(
+        "String must be a flat array with comma-separated values and no spaces between them");
+    }
+    const std::string value_str = element.substr(first, last - first + 1);
     if constexpr (std::is_same_v<T, std::string>)
     {
       result.push_back(value_str);
-- 
2.43.0


From 1bc73e0a6d724a899f884b4ae6ab0d9858d2fa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 04/95] fix: refuse array elements that are not integers of the
 requested type

parse_array<int> cast the parsed double to int: "[1.5]" was silently truncated to 1 and "[1e10]"
was undefined behaviour.
---
 .../include/hardware_interface/lexical_casts.hpp  | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/lexical_casts.hpp b/hardware_interface/include/hardware_interface/lexical_casts.hpp
index 7b81051..c483d74 100644
--- a/hardware_interface/include/hardware_interface/lexical_casts.hpp
+++ b/hardware_interface/include/hardware_interface/lexical_casts.hpp
@@ -16,6 +16,7 @@
 #define HARDWARE_INTERFACE__LEXICAL_CASTS_HPP_
 
 #include <algorithm>
+#include <cmath>
 #include <cstdint>
 #include <limits>
 #include <sstream>
@@ -162,8 +163,18 @@ std::vector<T> parse_array(const std::string & array_string)
     {
       try
       {
-        const T value = static_cast<T>(hardware_interface::stod(value_str));
-        result.push_back(value);
+        const double number = hardware_interface::stod(value_str);
+        if constexpr (std::is_integral_v<T>)
+        {
+          if (
+            number != std::trunc(number) ||
+            number < static_cast<double>(std::numeric_limits<T>::min()) ||
+            number >= static_cast<double>(std::numeric_limits<T>::max() / 2 + 1) * 2.0)
+          {
+            throw std::out_of_range("value is not an integer in the range of target type");
+          }
+        }
+        result.push_back(static_cast<T>(number));
       }
       catch (const std::exception &)
       {
-- 
2.43.0


From 7c5706db2d7d43655afeb6f293f8ba35a14eb72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 05/95] fix: do not access the last character of an empty tf
 prefix

resolve_tf_prefix("~", "") called back() on an empty string.
---
 controller_interface/include/controller_interface/tf_prefix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_interface/include/controller_interface/tf_prefix.hpp b/controller_interface/include/controller_interface/tf_prefix.hpp
index 3f769b1..8ddd71d 100644
--- a/controller_interface/include/controller_interface/tf_prefix.hpp
+++ b/controller_interface/include/controller_interface/tf_prefix.hpp
@@ -40,7 +40,7 @@ inline std::string resolve_tf_prefix(const std::string & prefix, const std::stri
   }
 
   // ensure trailing '/'
-  if (nprefix.back() != '/')
+  if (nprefix.empty() || nprefix.back() != '/')
   {
     nprefix.push_back('/');
   }
-- 
2.43.0


From 6a734a28273ca3dfc5e3b3becefddea981d779f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 06/95] fix: do not clamp the jerk command of joints without
 jerk limits

---
 joint_limits/src/joint_range_limiter.cpp | 2 +-
 joint_limits/src/joint_soft_limiter.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/joint_limits/src/joint_range_limiter.cpp b/joint_limits/src/joint_range_limiter.cpp
index 5b94914..6d775a6 100644
--- a/joint_limits/src/joint_range_limiter.cpp
+++ b/joint_limits/src/joint_range_limiter.cpp
@@ -166,7 +166,7 @@ bool JointSaturationLimiter<JointControlInterfacesData>::on_enforce(
       std::clamp(desired.acceleration.value(), limits.lower_limit, limits.upper_limit);
   }
 
-  if (desired.has_jerk() && !std::isnan(desired.jerk.value()))
+  if (joint_limits.has_jerk_limits && desired.has_jerk() && !std::isnan(desired.jerk.value()))
   {
     limits_enforced =
       is_limited(desired.jerk.value(), -joint_limits.max_jerk, joint_limits.max_jerk) ||
diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 5fa3d92..4ed45ed 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -268,7 +268,7 @@ bool JointSoftLimiter::on_enforce(
       std::clamp(desired.acceleration.value(), limits.lower_limit, limits.upper_limit);
   }
 
-  if (desired.has_jerk() && !std::isnan(desired.jerk.value()))
+  if (hard_limits.has_jerk_limits && desired.has_jerk() && !std::isnan(desired.jerk.value()))
   {
     limits_enforced =
       is_limited(desired.jerk.value(), -hard_limits.max_jerk, hard_limits.max_jerk) ||
-- 
2.43.0


From 92adc3295f1ea3b2ef41235148734271c5a366de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 07/95] fix: brake in time at the lower position limit as well

---
 joint_limits/src/joint_saturation_limiter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/joint_limits/src/joint_saturation_limiter.cpp b/joint_limits/src/joint_saturation_limiter.cpp
index 53828de..bc43d4e 100644
--- a/joint_limits/src/joint_saturation_limiter.cpp
+++ b/joint_limits/src/joint_saturation_limiter.cpp
@@ -283,7 +283,7 @@ bool JointSaturationLimiter<trajectory_msgs::msg::JointTrajectoryPoint>::on_enfo
       {
         // compute the travel_distance at new desired velocity, with best case duration
         // stopping_duration
-        double motion_after_stopping_duration = desired_vel[index] * stopping_duration;
+        double motion_after_stopping_duration = std::fabs(desired_vel[index] * stopping_duration);
         // re-check what happens if we don't slow down
         if (
           (desired_vel[index] < 0 &&
-- 
2.43.0


From f3b4ca8f6e8e1f7ef83ba5a0bd262db4173d7585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 08/95] fix: unknown (NaN) states do not disable the joint
 limits

---
 joint_limits/src/joint_limits_helpers.cpp | 15 ++++++++++-----
 joint_limits/src/joint_soft_limiter.cpp   |  4 ++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 5f41cfa..255643d 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -109,7 +109,8 @@ PositionLimits compute_position_limits(
   internal::verify_actual_position_within_limits(joint_name, act_pos, limits);
   if (limits.has_velocity_limits)
   {
-    const double act_vel_abs = act_vel.has_value() ? std::fabs(act_vel.value()) : 0.0;
+    const double act_vel_abs =
+      act_vel.has_value() && !std::isnan(act_vel.value()) ? std::fabs(act_vel.value()) : 0.0;
     const double delta_vel = limits.has_acceleration_limits
                                ? act_vel_abs + (limits.max_acceleration * dt)
                                : limits.max_velocity;
@@ -120,9 +121,11 @@ PositionLimits compute_position_limits(
     /// the command and the robot state. Fall back to actual position when no previous command
     /// exists (e.g., first position command after operating in another mode). Skip
     /// velocity-constrained narrowing entirely when neither reference is available.
+    /// A reference that is not known yet (NaN) must not disable the limits.
     const std::optional<double> & pos_ref =
-      prev_command_pos.has_value() ? prev_command_pos : act_pos;
-    if (pos_ref.has_value())
+      prev_command_pos.has_value() && !std::isnan(prev_command_pos.value()) ? prev_command_pos
+                                                                            : act_pos;
+    if (pos_ref.has_value() && !std::isnan(pos_ref.value()))
     {
       const double position_reference = pos_ref.value();
       pos_limits.lower_limit = std::max(
@@ -146,7 +149,7 @@ VelocityLimits compute_velocity_limits(
       -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity());
   }
   VelocityLimits vel_limits(-limits.max_velocity, limits.max_velocity);
-  if (limits.has_position_limits && act_pos.has_value())
+  if (limits.has_position_limits && act_pos.has_value() && !std::isnan(act_pos.value()))
   {
     const double actual_pos = act_pos.value();
     const double max_vel_with_pos_limits = (limits.max_position - actual_pos) / dt;
@@ -186,7 +189,9 @@ VelocityLimits compute_velocity_limits(
       }
     }
   }
-  if (limits.has_acceleration_limits && prev_command_vel.has_value())
+  if (
+    limits.has_acceleration_limits && prev_command_vel.has_value() &&
+    !std::isnan(prev_command_vel.value()))
   {
     const double delta_vel = limits.max_acceleration * dt;
     vel_limits.lower_limit = std::max(prev_command_vel.value() - delta_vel, vel_limits.lower_limit);
diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 4ed45ed..c3345c7 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -212,7 +212,7 @@ bool JointSoftLimiter::on_enforce(
 
     if (
       hard_limits.has_velocity_limits && hard_limits.has_acceleration_limits &&
-      actual.has_velocity())
+      actual.has_velocity() && !std::isnan(actual.velocity.value()))
     {
       soft_min_vel =
         std::max(actual.velocity.value() - hard_limits.max_acceleration * dt_seconds, soft_min_vel);
@@ -238,7 +238,7 @@ bool JointSoftLimiter::on_enforce(
 
     if (
       hard_limits.has_effort_limits && std::isfinite(soft_joint_limits.k_velocity) &&
-      actual.has_velocity())
+      actual.has_velocity() && !std::isnan(actual.velocity.value()))
     {
       soft_min_eff = std::clamp(
         -soft_joint_limits.k_velocity * (actual.velocity.value() - soft_min_vel),
-- 
2.43.0


From 32ba80a185caa72ea730e272c3fbaef0950e21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 09/95] fix: always use a valid range in the soft velocity and
 effort limits

---
 joint_limits/src/joint_soft_limiter.cpp | 27 ++++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index c3345c7..96b2ded 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -214,14 +214,21 @@ bool JointSoftLimiter::on_enforce(
       hard_limits.has_velocity_limits && hard_limits.has_acceleration_limits &&
       actual.has_velocity() && !std::isnan(actual.velocity.value()))
     {
-      soft_min_vel =
-        std::max(actual.velocity.value() - hard_limits.max_acceleration * dt_seconds, soft_min_vel);
-      soft_max_vel =
-        std::min(actual.velocity.value() + hard_limits.max_acceleration * dt_seconds, soft_max_vel);
+      // Move the bounds reachable from the actual velocity into the soft range, the boundary of the
+      // soft range nearest to them is used if they do not overlap.
+      const double soft_low = soft_min_vel;
+      const double soft_high = soft_max_vel;
+      const double delta_vel = hard_limits.max_acceleration * dt_seconds;
+      soft_min_vel = std::clamp(actual.velocity.value() - delta_vel, soft_low, soft_high);
+      soft_max_vel = std::clamp(actual.velocity.value() + delta_vel, soft_low, soft_high);
     }
 
-    soft_min_vel = std::max(soft_min_vel, velocity_limits.lower_limit);
-    soft_max_vel = std::min(soft_max_vel, velocity_limits.upper_limit);
+    // The hard limits have priority if they don't overlap with the soft range, that way
+    // std::clamp always gets a valid [lo, hi] pair (lo <= hi)
+    soft_min_vel =
+      std::clamp(soft_min_vel, velocity_limits.lower_limit, velocity_limits.upper_limit);
+    soft_max_vel =
+      std::clamp(soft_max_vel, velocity_limits.lower_limit, velocity_limits.upper_limit);
 
     limits_enforced =
       is_limited(desired.velocity.value(), soft_min_vel, soft_max_vel) || limits_enforced;
@@ -237,8 +244,8 @@ bool JointSoftLimiter::on_enforce(
     double soft_max_eff = effort_limits.upper_limit;
 
     if (
-      hard_limits.has_effort_limits && std::isfinite(soft_joint_limits.k_velocity) &&
-      actual.has_velocity() && !std::isnan(actual.velocity.value()))
+      hard_limits.has_effort_limits && hard_limits.has_velocity_limits &&
+      std::isfinite(soft_joint_limits.k_velocity) && actual.has_velocity() && !std::isnan(actual.velocity.value()))
     {
       soft_min_eff = std::clamp(
         -soft_joint_limits.k_velocity * (actual.velocity.value() - soft_min_vel),
@@ -248,8 +255,8 @@ bool JointSoftLimiter::on_enforce(
         -soft_joint_limits.k_velocity * (actual.velocity.value() - soft_max_vel),
         -hard_limits.max_effort, hard_limits.max_effort);
 
-      soft_min_eff = std::max(soft_min_eff, effort_limits.lower_limit);
-      soft_max_eff = std::min(soft_max_eff, effort_limits.upper_limit);
+      soft_min_eff = std::clamp(soft_min_eff, effort_limits.lower_limit, effort_limits.upper_limit);
+      soft_max_eff = std::clamp(soft_max_eff, effort_limits.lower_limit, effort_limits.upper_limit);
     }
 
     limits_enforced =
-- 
2.43.0


From 4cf3a1f4d4f2e33d32f4096d44b1fb8ea041f600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 10/95] fix: do not lose changes of joint limit parameters

---
 .../joint_limits/joint_limits_rosparam.hpp    | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
index 6009cb9..3f4d11b 100644
--- a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
+++ b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
@@ -452,37 +452,37 @@ inline bool check_for_limits_update(
     {
       if (param_name == param_base_name + ".min_position")
       {
-        changed = updated_limits.min_position != parameter.get_value<double>();
+        changed |= updated_limits.min_position != parameter.get_value<double>();
         updated_limits.min_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_position")
       {
-        changed = updated_limits.max_position != parameter.get_value<double>();
+        changed |= updated_limits.max_position != parameter.get_value<double>();
         updated_limits.max_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_velocity")
       {
-        changed = updated_limits.max_velocity != parameter.get_value<double>();
+        changed |= updated_limits.max_velocity != parameter.get_value<double>();
         updated_limits.max_velocity = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_acceleration")
       {
-        changed = updated_limits.max_acceleration != parameter.get_value<double>();
+        changed |= updated_limits.max_acceleration != parameter.get_value<double>();
         updated_limits.max_acceleration = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_deceleration")
       {
-        changed = updated_limits.max_deceleration != parameter.get_value<double>();
+        changed |= updated_limits.max_deceleration != parameter.get_value<double>();
         updated_limits.max_deceleration = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_jerk")
       {
-        changed = updated_limits.max_jerk != parameter.get_value<double>();
+        changed |= updated_limits.max_jerk != parameter.get_value<double>();
         updated_limits.max_jerk = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_effort")
       {
-        changed = updated_limits.max_effort != parameter.get_value<double>();
+        changed |= updated_limits.max_effort != parameter.get_value<double>();
         updated_limits.max_effort = parameter.get_value<double>();
       }
     }
@@ -525,6 +525,10 @@ inline bool check_for_limits_update(
             changed = true;
           }
         }
+        else
+        {
+          changed = true;
+        }
       }
       else if (param_name == param_base_name + ".has_velocity_limits")
       {
@@ -818,22 +822,22 @@ inline bool check_for_limits_update(
     {
       if (param_name == param_base_name + ".k_position")
       {
-        changed = updated_limits.k_position != parameter.get_value<double>();
+        changed |= updated_limits.k_position != parameter.get_value<double>();
         updated_limits.k_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".k_velocity")
       {
-        changed = updated_limits.k_velocity != parameter.get_value<double>();
+        changed |= updated_limits.k_velocity != parameter.get_value<double>();
         updated_limits.k_velocity = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".soft_lower_limit")
       {
-        changed = updated_limits.min_position != parameter.get_value<double>();
+        changed |= updated_limits.min_position != parameter.get_value<double>();
         updated_limits.min_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".soft_upper_limit")
       {
-        changed = updated_limits.max_position != parameter.get_value<double>();
+        changed |= updated_limits.max_position != parameter.get_value<double>();
         updated_limits.max_position = parameter.get_value<double>();
       }
     }
-- 
2.43.0


From 5954861b2626518aa974dda369e332805ed0a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 11/95] fix: base joint limit updates on the latest limits

---
 joint_limits/include/joint_limits/joint_limiter_interface.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/joint_limits/include/joint_limits/joint_limiter_interface.hpp b/joint_limits/include/joint_limits/joint_limiter_interface.hpp
index 0d1245e..67ea817 100644
--- a/joint_limits/include/joint_limits/joint_limiter_interface.hpp
+++ b/joint_limits/include/joint_limits/joint_limiter_interface.hpp
@@ -100,7 +100,9 @@ public:
         rcl_interfaces::msg::SetParametersResult set_parameters_result;
         set_parameters_result.successful = true;
 
-        std::vector<joint_limits::JointLimits> updated_joint_limits = joint_limits_;
+        // Start from the latest limits, they might not have been taken over by `enforce` yet
+        std::vector<joint_limits::JointLimits> updated_joint_limits =
+          *updated_limits_.readFromNonRT();
         bool changed = false;
 
         for (size_t i = 0; i < number_of_joints_; ++i)
-- 
2.43.0


From 71ebaf7f331d34b8b4e405448cf95acb43411fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 12/95] fix: refuse a position limit update that makes the
 limits in use contradictory

---
 .../joint_limits/joint_limits_rosparam.hpp        | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
index 3f4d11b..ba85d73 100644
--- a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
+++ b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
@@ -442,6 +442,7 @@ inline bool check_for_limits_update(
   JointLimits & updated_limits)
 {
   const std::string param_base_name = fmt::format(FMT_COMPILE("joint_limits.{}"), joint_name);
+  const JointLimits previous_limits = updated_limits;
   bool changed = false;
 
   // update first numerical values to make later checks for "has" limits members
@@ -635,6 +636,20 @@ inline bool check_for_limits_update(
     }
   }
 
+  // Limits that are in use must not become contradictory
+  if (
+    updated_limits.has_position_limits && previous_limits.has_position_limits &&
+    updated_limits.min_position >= updated_limits.max_position)
+  {
+    RCLCPP_WARN(
+      logging_itf->get_logger(),
+      "PARAMETER NOT UPDATED: Position limits of joint '%s' are not changed, because not "
+      "'min_position' < 'max_position'",
+      joint_name.c_str());
+    updated_limits.min_position = previous_limits.min_position;
+    updated_limits.max_position = previous_limits.max_position;
+  }
+
   return changed;
 }
 
-- 
2.43.0


From 695207a1d5c0cc152a110c3d51477f12bf17d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 13/95] fix: position limits that are switched off do not
 restrict the command

---
 joint_limits/src/joint_limits_helpers.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 255643d..b40a6b8 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -105,7 +105,12 @@ PositionLimits compute_position_limits(
   const std::optional<double> & act_vel, const std::optional<double> & act_pos,
   const std::optional<double> & prev_command_pos, double dt)
 {
-  PositionLimits pos_limits(limits.min_position, limits.max_position);
+  PositionLimits pos_limits(
+    -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity());
+  if (limits.has_position_limits)
+  {
+    pos_limits = PositionLimits(limits.min_position, limits.max_position);
+  }
   internal::verify_actual_position_within_limits(joint_name, act_pos, limits);
   if (limits.has_velocity_limits)
   {
-- 
2.43.0


From 43144d6038e76c34c0f24425d946f5456715243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 14/95] fix: never exceed the velocity limit when returning
 into the position limits

---
 joint_limits/src/joint_limits_helpers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index b40a6b8..e9e64c0 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -159,8 +159,10 @@ VelocityLimits compute_velocity_limits(
     const double actual_pos = act_pos.value();
     const double max_vel_with_pos_limits = (limits.max_position - actual_pos) / dt;
     const double min_vel_with_pos_limits = (limits.min_position - actual_pos) / dt;
-    vel_limits.lower_limit = std::max(min_vel_with_pos_limits, vel_limits.lower_limit);
-    vel_limits.upper_limit = std::min(max_vel_with_pos_limits, vel_limits.upper_limit);
+    vel_limits.lower_limit =
+      std::clamp(min_vel_with_pos_limits, -limits.max_velocity, limits.max_velocity);
+    vel_limits.upper_limit =
+      std::clamp(max_vel_with_pos_limits, -limits.max_velocity, limits.max_velocity);
 
     if (actual_pos > limits.max_position || actual_pos < limits.min_position)
     {
-- 
2.43.0


From 6471f2c2fedb65eaf8d9bdac389df01716f0c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 15/95] fix: a zero velocity command is not replaced by a
 motion towards zero

---
 joint_limits/src/joint_saturation_limiter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/joint_limits/src/joint_saturation_limiter.cpp b/joint_limits/src/joint_saturation_limiter.cpp
index bc43d4e..080bb2b 100644
--- a/joint_limits/src/joint_saturation_limiter.cpp
+++ b/joint_limits/src/joint_saturation_limiter.cpp
@@ -120,7 +120,9 @@ bool JointSaturationLimiter<trajectory_msgs::msg::JointTrajectoryPoint>::on_enfo
     if (joint_limits_[index].has_velocity_limits)
     {
       // if desired velocity is not defined calculate it from positions
-      if (std::fabs(desired_vel[index]) <= VALUE_CONSIDERED_ZERO || std::isnan(desired_vel[index]))
+      if (
+        has_desired_position && (std::fabs(desired_vel[index]) <= VALUE_CONSIDERED_ZERO ||
+                                 std::isnan(desired_vel[index])))
       {
         desired_vel[index] =
           (desired_pos[index] - current_joint_states.positions[index]) / dt_seconds;
-- 
2.43.0


From 81d9a307ea377c80348a6c2e3e77ccb0d06cb1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 16/95] fix: a reference velocity beyond the limit does not
 lift the velocity limit

---
 joint_limits/src/joint_limits_helpers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index e9e64c0..8307af3 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -201,8 +201,12 @@ VelocityLimits compute_velocity_limits(
     !std::isnan(prev_command_vel.value()))
   {
     const double delta_vel = limits.max_acceleration * dt;
-    vel_limits.lower_limit = std::max(prev_command_vel.value() - delta_vel, vel_limits.lower_limit);
-    vel_limits.upper_limit = std::min(prev_command_vel.value() + delta_vel, vel_limits.upper_limit);
+    // The reference may be the measured velocity or a first command that was not limited yet, that
+    // must not allow the command to exceed the velocity limit
+    const double reference_vel =
+      std::clamp(prev_command_vel.value(), -limits.max_velocity, limits.max_velocity);
+    vel_limits.lower_limit = std::max(reference_vel - delta_vel, vel_limits.lower_limit);
+    vel_limits.upper_limit = std::min(reference_vel + delta_vel, vel_limits.upper_limit);
   }
   internal::check_and_swap_limits(vel_limits.lower_limit, vel_limits.upper_limit);
   return vel_limits;
-- 
2.43.0


From 2293aba509a8f9c8671015d07a5cdf05c1e71ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 17/95] fix: soft limits never allow a position beyond the hard
 limits

---
 joint_limits/src/joint_soft_limiter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 96b2ded..2d184df 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -198,6 +198,11 @@ bool JointSoftLimiter::on_enforce(
     {
       pos_low = vel_clamped_pos_low;
       pos_high = vel_clamped_pos_high;
+      if (hard_limits.has_position_limits)
+      {
+        pos_low = std::clamp(pos_low, hard_limits.min_position, hard_limits.max_position);
+        pos_high = std::clamp(pos_high, hard_limits.min_position, hard_limits.max_position);
+      }
     }
 
     limits_enforced = is_limited(desired.position.value(), pos_low, pos_high);
-- 
2.43.0


From 75deefa07fe9a4e50ec3e6af505f90ad90e8445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 18/95] fix: refuse read/write rates that are not integers

---
 hardware_interface/src/component_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hardware_interface/src/component_parser.cpp b/hardware_interface/src/component_parser.cpp
index 0dc752b..163f889 100644
--- a/hardware_interface/src/component_parser.cpp
+++ b/hardware_interface/src/component_parser.cpp
@@ -263,7 +263,7 @@ unsigned int parse_rw_rate_attribute(const tinyxml2::XMLElement * elem)
   const tinyxml2::XMLAttribute * attr = elem->FindAttribute(kReadWriteRateAttribute);
   try
   {
-    const auto rw_rate = attr ? std::stoi(ros2_control::strip(attr->Value())) : 0;
+    const auto rw_rate = attr ? stoi32(ros2_control::strip(attr->Value())) : 0;
     if (rw_rate < 0)
     {
       throw std::runtime_error(
-- 
2.43.0


From 45dd8e34f822eded619a04336b17fca28ec7bd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 19/95] fix: refuse sizes and priorities that are out of range
 with the documented error

---
 hardware_interface/src/component_parser.cpp | 30 +++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/src/component_parser.cpp b/hardware_interface/src/component_parser.cpp
index 163f889..cba09ee 100644
--- a/hardware_interface/src/component_parser.cpp
+++ b/hardware_interface/src/component_parser.cpp
@@ -16,7 +16,7 @@
 #include <tinyxml2.h>
 
 #include <iostream>
-#include <regex>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <unordered_map>
@@ -187,6 +187,23 @@ double get_parameter_value_or(
   return default_value;
 }
 
+/// Check if the text is a non-zero positive integer that can be stored in an int
+/**
+ * \param[in] s text to check.
+ * \return true if the text consists of digits only, does not start with zero and is in range.
+ */
+bool is_non_zero_positive_int(const std::string & s)
+{
+  // more digits than an int can have are never in range, and the others always fit into a long long
+  if (
+    s.empty() || s.size() > static_cast<size_t>(std::numeric_limits<int>::digits10 + 1) ||
+    s.front() == '0' || s.find_first_not_of("0123456789") != std::string::npos)
+  {
+    return false;
+  }
+  return std::stoll(s) <= std::numeric_limits<int>::max();
+}
+
 /// Parse optional size attribute
 /**
  * Parses an XMLElement and returns the value of the size attribute.
@@ -206,12 +223,10 @@ std::size_t parse_size_attribute(const tinyxml2::XMLElement * elem)
   }
 
   std::size_t size;
-  // Regex used to check for non-zero positive int
   std::string s = ros2_control::strip(attr->Value());
-  std::regex int_re("[1-9][0-9]*");
-  if (std::regex_match(s, int_re))
+  if (is_non_zero_positive_int(s))
   {
-    size = static_cast<size_t>(std::stoi(s));
+    size = static_cast<size_t>(stoi32(s));
   }
   else
   {
@@ -324,10 +339,9 @@ int parse_thread_priority_attribute(const tinyxml2::XMLElement * elem)
     return 50;
   }
   std::string s = ros2_control::strip(attr->Value());
-  std::regex int_re("[1-9][0-9]*");
-  if (std::regex_match(s, int_re))
+  if (is_non_zero_positive_int(s))
   {
-    return std::stoi(s);
+    return stoi32(s);
   }
   else
   {
-- 
2.43.0


From c2f7a0a5b7a3bd1cabd925ab7e2a7dc5fd2a6345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 20/95] fix: refuse descriptions without root or model element
 instead of crashing

---
 hardware_interface/src/component_parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/component_parser.cpp b/hardware_interface/src/component_parser.cpp
index cba09ee..3455230 100644
--- a/hardware_interface/src/component_parser.cpp
+++ b/hardware_interface/src/component_parser.cpp
@@ -1009,6 +1009,10 @@ std::vector<HardwareInfo> parse_control_resources_from_urdf(const std::string &
   const tinyxml2::XMLElement * robot_it = doc.RootElement();
   const tinyxml2::XMLElement * ros2_control_it;
 
+  if (!robot_it)
+  {
+    throw std::runtime_error("invalid URDF passed in to robot parser: no root element");
+  }
   if (std::string(kRobotTag) == robot_it->Name())
   {
     ros2_control_it = robot_it->FirstChildElement(kROS2ControlTag);
@@ -1017,7 +1021,7 @@ std::vector<HardwareInfo> parse_control_resources_from_urdf(const std::string &
   {
     // find model tag in sdf tag
     const tinyxml2::XMLElement * model_it = robot_it->FirstChildElement(kModelTag);
-    ros2_control_it = model_it->FirstChildElement(kROS2ControlTag);
+    ros2_control_it = model_it ? model_it->FirstChildElement(kROS2ControlTag) : nullptr;
   }
   else
   {
-- 
2.43.0


From d4b88192793f416e24d6ddc8ca08a9fd2fffc86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 21/95] fix: soft limits outside of the hard limits do not
 reach beyond them

---
 hardware_interface/src/component_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hardware_interface/src/component_parser.cpp b/hardware_interface/src/component_parser.cpp
index 3455230..fcd226d 100644
--- a/hardware_interface/src/component_parser.cpp
+++ b/hardware_interface/src/component_parser.cpp
@@ -1117,6 +1117,9 @@ std::vector<HardwareInfo> parse_control_resources_from_urdf(const std::string &
         {
           soft_limits.min_position = std::max(soft_limits.min_position, limits.min_position);
           soft_limits.max_position = std::min(soft_limits.max_position, limits.max_position);
+          // also when the soft limits are completely outside of the hard limits
+          soft_limits.min_position = std::min(soft_limits.min_position, limits.max_position);
+          soft_limits.max_position = std::max(soft_limits.max_position, limits.min_position);
         }
         hw_info.soft_limits[joint.name] = soft_limits;
       }
-- 
2.43.0


From b595410122e634c671c4b7f488e57f9f2852d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 22/95] fix: limits are in place before the first cycle even if
 an update is under way

---
 joint_limits/include/joint_limits/joint_limiter_interface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/joint_limits/include/joint_limits/joint_limiter_interface.hpp b/joint_limits/include/joint_limits/joint_limiter_interface.hpp
index 67ea817..9240a5d 100644
--- a/joint_limits/include/joint_limits/joint_limiter_interface.hpp
+++ b/joint_limits/include/joint_limits/joint_limiter_interface.hpp
@@ -93,7 +93,7 @@ public:
           node_logging_itf_->get_logger(), "Limits for joint %zu (%s) are:\n%s", i,
           joint_names[i].c_str(), joint_limits_[i].to_string().c_str());
       }
-      updated_limits_.writeFromNonRT(joint_limits_);
+      updated_limits_.initRT(joint_limits_);
 
       auto on_parameter_event_callback = [this](const std::vector<rclcpp::Parameter> & parameters)
       {
@@ -150,7 +150,7 @@ public:
     soft_joint_limits_ = soft_joint_limits;
     node_param_itf_ = param_itf;
     node_logging_itf_ = logging_itf;
-    updated_limits_.writeFromNonRT(joint_limits_);
+    updated_limits_.initRT(joint_limits_);
 
     if ((number_of_joints_ != joint_limits_.size()) && has_logging_interface())
     {
-- 
2.43.0


From dc7ed7fcdd25a27284ad8c7fa16bb4c511bebe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 23/95] fix: refuse four bar linkages without any connected
 pair of interfaces

---
 .../four_bar_linkage_transmission.hpp                      | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp
index fc178a6..1216ba3 100644
--- a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp
+++ b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp
@@ -262,10 +262,9 @@ void FourBarLinkageTransmission::configure(
         get_handles_info()));
   }
 
-  if (
-    joint_position_.size() != actuator_position_.size() &&
-    joint_velocity_.size() != actuator_velocity_.size() &&
-    joint_effort_.size() != actuator_effort_.size())
+  if (!((joint_position_.size() == 2 && actuator_position_.size() == 2) ||
+        (joint_velocity_.size() == 2 && actuator_velocity_.size() == 2) ||
+        (joint_effort_.size() == 2 && actuator_effort_.size() == 2)))
   {
     throw Exception(
       fmt::format(FMT_COMPILE("Pair-wise mismatch on interfaces. \n{}"), get_handles_info()));
-- 
2.43.0


From 9d26041cc6672ea0d1538322fff111b1369d911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 24/95] fix: moved handles point to their own value

---
 .../include/hardware_interface/handle.hpp            | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hardware_interface/include/hardware_interface/handle.hpp b/hardware_interface/include/hardware_interface/handle.hpp
index aef84b1..2cf56dd 100644
--- a/hardware_interface/include/hardware_interface/handle.hpp
+++ b/hardware_interface/include/hardware_interface/handle.hpp
@@ -609,6 +609,10 @@ private:
 
   void swap(Handle & first, Handle & second) noexcept
   {
+    if (&first == &second)
+    {
+      return;
+    }
     std::scoped_lock lock(first.handle_mutex_, second.handle_mutex_);
     std::swap(first.prefix_name_, second.prefix_name_);
     std::swap(first.interface_name_, second.interface_name_);
@@ -616,6 +620,14 @@ private:
     std::swap(first.value_, second.value_);
     std::swap(first.data_type_, second.data_type_);
     std::swap(first.value_ptr_, second.value_ptr_);
+    // a handle with its own storage must point to its own value and not to the one it came from
+    for (auto handle : {&first, &second})
+    {
+      if (!std::holds_alternative<std::monostate>(handle->value_))
+      {
+        handle->value_ptr_ = std::get_if<double>(&handle->value_);
+      }
+    }
   }
 
 protected:
-- 
2.43.0


From 70fe2a0c7990ae91870e54617c9374a1d845f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 25/95] fix: concurrent readers of a bool handle raced on the
 notification flag

---
 hardware_interface/include/hardware_interface/handle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/handle.hpp b/hardware_interface/include/hardware_interface/handle.hpp
index 2cf56dd..f857904 100644
--- a/hardware_interface/include/hardware_interface/handle.hpp
+++ b/hardware_interface/include/hardware_interface/handle.hpp
@@ -647,7 +647,7 @@ private:
   // TODO(christophfroehlich): remove once
   // https://github.com/ros2/rclcpp/issues/2587
   // is fixed
-  mutable bool notified_ = false;
+  mutable std::atomic<bool> notified_{false};
 };
 
 class StateInterface : public Handle
-- 
2.43.0


From 99fdd7d6ef1d9626d8c5e69d6b2fca245a0bb767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 26/95] fix: statistics stayed NaN without a reset and reported
 bogus values without samples

---
 .../types/statistics_types.hpp                   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/types/statistics_types.hpp b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
index 78601ff..14d3d96 100644
--- a/hardware_interface/include/hardware_interface/types/statistics_types.hpp
+++ b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
@@ -148,10 +148,10 @@ public:
   void reset()
   {
     std::lock_guard<DEFAULT_MUTEX> lock(mutex_);
-    statistics_data_.average = 0.0;
-    statistics_data_.min = std::numeric_limits<double>::max();
-    statistics_data_.max = std::numeric_limits<double>::lowest();
-    statistics_data_.standard_deviation = 0.0;
+    statistics_data_.average = std::numeric_limits<double>::quiet_NaN();
+    statistics_data_.min = std::numeric_limits<double>::quiet_NaN();
+    statistics_data_.max = std::numeric_limits<double>::quiet_NaN();
+    statistics_data_.standard_deviation = std::numeric_limits<double>::quiet_NaN();
     statistics_data_.sample_count = 0;
     current_measurement_ = std::numeric_limits<double>::quiet_NaN();
     sum_of_square_diff_from_mean_ = 0;
@@ -176,6 +176,14 @@ public:
     current_measurement_ = item;
     if (std::isfinite(item))
     {
+      if (statistics_data_.sample_count == 0)
+      {
+        // there is nothing yet, the first sample starts the statistics
+        statistics_data_.average = current_measurement_;
+        statistics_data_.min = current_measurement_;
+        statistics_data_.max = current_measurement_;
+        sum_of_square_diff_from_mean_ = 0.0;
+      }
       statistics_data_.sample_count = statistics_data_.sample_count + 1;
       const double previous_average = statistics_data_.average;
       statistics_data_.average =
-- 
2.43.0


From 5007e353a7cc6ec203effd878073d48c77102e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 27/95] fix: GPS status and service that are not representable
 were undefined behaviour

---
 .../include/semantic_components/gps_sensor.hpp            | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/controller_interface/include/semantic_components/gps_sensor.hpp b/controller_interface/include/semantic_components/gps_sensor.hpp
index 52e8889..8250064 100644
--- a/controller_interface/include/semantic_components/gps_sensor.hpp
+++ b/controller_interface/include/semantic_components/gps_sensor.hpp
@@ -64,7 +64,9 @@ public:
   int8_t get_status() const
   {
     const auto data = state_interfaces_[0].get().get_optional();
-    if (data.has_value())
+    if (
+      data.has_value() && data.value() > std::numeric_limits<int8_t>::min() - 1.0 &&
+      data.value() < std::numeric_limits<int8_t>::max() + 1.0)
     {
       return static_cast<int8_t>(data.value());
     }
@@ -79,7 +81,9 @@ public:
   uint16_t get_service() const
   {
     const auto data = state_interfaces_[1].get().get_optional();
-    if (data.has_value())
+    if (
+      data.has_value() && data.value() > -1.0 &&
+      data.value() < std::numeric_limits<uint16_t>::max() + 1.0)
     {
       return static_cast<uint16_t>(data.value());
     }
-- 
2.43.0


From 0774251a48f4fc5475075fc28688b14e49c9bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 28/95] fix: LED device accepted NaN as a color value

---
 .../include/semantic_components/led_rgb_device.hpp          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/controller_interface/include/semantic_components/led_rgb_device.hpp b/controller_interface/include/semantic_components/led_rgb_device.hpp
index 60c72dc..f5d8d97 100644
--- a/controller_interface/include/semantic_components/led_rgb_device.hpp
+++ b/controller_interface/include/semantic_components/led_rgb_device.hpp
@@ -59,9 +59,9 @@ public:
    */
   bool set_values_from_message(const std_msgs::msg::ColorRGBA & message) override
   {
-    if (
-      message.r < 0 || message.r > 1 || message.g < 0 || message.g > 1 || message.b < 0 ||
-      message.b > 1)
+    // written such that NaN is out of range, too
+    const auto in_range = [](const auto & value) { return value >= 0 && value <= 1; };
+    if (!in_range(message.r) || !in_range(message.g) || !in_range(message.b))
     {
       return false;
     }
-- 
2.43.0


From 0ceb0a674a5b6a732ea28c577a1ccd5a1d3325cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 29/95] fix: get_values reports a value that is not accessible
 instead of throwing

---
 .../semantic_components/semantic_component_interface.hpp   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/controller_interface/include/semantic_components/semantic_component_interface.hpp b/controller_interface/include/semantic_components/semantic_component_interface.hpp
index c502a41..dfb4016 100644
--- a/controller_interface/include/semantic_components/semantic_component_interface.hpp
+++ b/controller_interface/include/semantic_components/semantic_component_interface.hpp
@@ -98,7 +98,12 @@ public:
     // insert all the values
     for (auto i = 0u; i < state_interfaces_.size(); ++i)
     {
-      values.emplace_back(state_interfaces_[i].get().get_optional().value());
+      const auto value = state_interfaces_[i].get().get_optional();
+      if (!value.has_value())
+      {
+        return false;
+      }
+      values.emplace_back(value.value());
     }
     return true;
   }
-- 
2.43.0


From 0aacc7938178d784206de15e4912ae8270e4badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 30/95] fix: default orientation of the pose sensor is the
 identity

---
 .../include/semantic_components/pose_sensor.hpp                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_interface/include/semantic_components/pose_sensor.hpp b/controller_interface/include/semantic_components/pose_sensor.hpp
index 24adacd..c1faf9d 100644
--- a/controller_interface/include/semantic_components/pose_sensor.hpp
+++ b/controller_interface/include/semantic_components/pose_sensor.hpp
@@ -117,7 +117,7 @@ private:
   /**
    * @brief Array to store the data of the pose sensor
    */
-  mutable std::array<double, 7> data_{{0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0}};
+  mutable std::array<double, 7> data_{{0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0}};
 };
 
 }  // namespace semantic_components
-- 
2.43.0


From 2496e660fba49e754e6ae75048ef44d39ead9281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 31/95] fix: readers of hardware statistics copied them without
 holding the lock

---
 controller_manager/src/controller_manager.cpp   | 17 +++++++++--------
 .../types/statistics_types.hpp                  | 16 ++++++++++++++--
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 32d3e5d..4928524 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1127,15 +1127,16 @@ void ControllerManager::set_initial_hardware_components_state()
       component_name + ".stats/read_cycle/periodicity";
     register_controller_manager_statistics(
       read_cycle_exec_time_prefix,
-      &component_info.read_statistics->execution_time.get_statistics());
+      &component_info.read_statistics->execution_time.get_statistics_const_ptr());
     REGISTER_ENTITY(
       hardware_interface::CM_STATISTICS_KEY, read_cycle_exec_time_prefix + "/current_value",
-      &component_info.read_statistics->execution_time.get_current_data());
+      &component_info.read_statistics->execution_time.get_current_data_const_ptr());
     register_controller_manager_statistics(
-      read_cycle_periodicity_prefix, &component_info.read_statistics->periodicity.get_statistics());
+      read_cycle_periodicity_prefix,
+      &component_info.read_statistics->periodicity.get_statistics_const_ptr());
     REGISTER_ENTITY(
       hardware_interface::CM_STATISTICS_KEY, read_cycle_periodicity_prefix + "/current_value",
-      &component_info.read_statistics->periodicity.get_current_data());
+      &component_info.read_statistics->periodicity.get_current_data_const_ptr());
     if (component_info.write_statistics)
     {
       const std::string write_cycle_exec_time_prefix =
@@ -1144,16 +1145,16 @@ void ControllerManager::set_initial_hardware_components_state()
         component_name + ".stats/write_cycle/periodicity";
       register_controller_manager_statistics(
         write_cycle_exec_time_prefix,
-        &component_info.write_statistics->execution_time.get_statistics());
+        &component_info.write_statistics->execution_time.get_statistics_const_ptr());
       REGISTER_ENTITY(
         hardware_interface::CM_STATISTICS_KEY, write_cycle_exec_time_prefix + "/current_value",
-        &component_info.write_statistics->execution_time.get_current_data());
+        &component_info.write_statistics->execution_time.get_current_data_const_ptr());
       register_controller_manager_statistics(
         write_cycle_periodicity_prefix,
-        &component_info.write_statistics->periodicity.get_statistics());
+        &component_info.write_statistics->periodicity.get_statistics_const_ptr());
       REGISTER_ENTITY(
         hardware_interface::CM_STATISTICS_KEY, write_cycle_periodicity_prefix + "/current_value",
-        &component_info.write_statistics->periodicity.get_current_data());
+        &component_info.write_statistics->periodicity.get_current_data_const_ptr());
     }
   }
 }
diff --git a/hardware_interface/include/hardware_interface/types/statistics_types.hpp b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
index 14d3d96..43e9ac4 100644
--- a/hardware_interface/include/hardware_interface/types/statistics_types.hpp
+++ b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
@@ -278,13 +278,25 @@ public:
    * @brief Get the statistics data.
    * @return statistics data.
    */
-  const StatisticData & get_statistics() const
+  const StatisticData & get_statistics_const_ptr() const
+  {
+    std::unique_lock<DEFAULT_MUTEX> lock(mutex_);
+    return statistics_data_;
+  }
+
+  StatisticData get_statistics() const
   {
     std::unique_lock<DEFAULT_MUTEX> lock(mutex_);
     return statistics_data_;
   }
 
-  const double & get_current_data() const
+  const double & get_current_data_const_ptr() const
+  {
+    std::unique_lock<DEFAULT_MUTEX> lock(mutex_);
+    return current_data_;
+  }
+
+  double get_current_data() const
   {
     std::unique_lock<DEFAULT_MUTEX> lock(mutex_);
     return current_data_;
-- 
2.43.0


From 8a7b01370e42e10c1da7ddb700704defefae1a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 32/95] fix: a finalized hardware component must not run its
 error handler again

After an error handler that failed, the component is finalized, but the
resource manager calls error() once more for every failed cycle. The handler
was called again and could bring a finalized component back to unconfigured.
---
 hardware_interface/src/hardware_component.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index ac579ff..1efdad8 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -223,7 +223,8 @@ const rclcpp_lifecycle::State & HardwareComponent::error()
   impl_->enable_introspection(false);
   if (
     impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN &&
-    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
+    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED &&
+    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
   {
     impl_->pause_async_operations();
     switch (impl_->on_error(impl_->get_lifecycle_state()))
-- 
2.43.0


From e7f1a605481646557f128da3dec4ab05b7677e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 33/95] fix: an exception of a hardware error handler leaves
 the component in service

An exception from on_error() left the failed component inactive or active and
escaped from the resource manager's read and write cycle.
---
 hardware_interface/src/hardware_component.cpp | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index 1efdad8..82f34f7 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -227,7 +227,25 @@ const rclcpp_lifecycle::State & HardwareComponent::error()
     impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
   {
     impl_->pause_async_operations();
-    switch (impl_->on_error(impl_->get_lifecycle_state()))
+    // An error handler that throws did not handle the error
+    CallbackReturn error_handling_result = CallbackReturn::ERROR;
+    try
+    {
+      error_handling_result = impl_->on_error(impl_->get_lifecycle_state());
+    }
+    catch (const std::exception & e)
+    {
+      RCLCPP_ERROR(
+        impl_->get_logger(), "Exception thrown by the error handler of hardware '%s': %s",
+        impl_->get_name().c_str(), e.what());
+    }
+    catch (...)
+    {
+      RCLCPP_ERROR(
+        impl_->get_logger(), "Unknown exception thrown by the error handler of hardware '%s'",
+        impl_->get_name().c_str());
+    }
+    switch (error_handling_result)
     {
       case CallbackReturn::SUCCESS:
         impl_->set_lifecycle_state(
-- 
2.43.0


From dfd0b014989b1b987979847a200e31e2ae07aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 34/95] fix: failure of an earlier asynchronous cycle is
 reported after configuring again

---
 hardware_interface/src/hardware_component.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index 82f34f7..5b37d48 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -85,6 +85,8 @@ const rclcpp_lifecycle::State & HardwareComponent::configure()
   if (impl_->get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
   {
     impl_->pause_async_operations();
+    // the results of earlier asynchronous cycles say nothing about the newly configured hardware
+    impl_->prepare_for_activation();
     switch (impl_->on_configure(impl_->get_lifecycle_state()))
     {
       case CallbackReturn::SUCCESS:
-- 
2.43.0


From 977c0bb5af650f34d901752f4713ae0398786120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 35/95] fix: joint limits of a rejected robot description stay
 in force for the next one

---
 hardware_interface/src/resource_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 6da74e5..ef3b586 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1342,6 +1342,14 @@ public:
     available_command_interfaces_.clear();
 
     claimed_command_interface_map_.clear();
+
+    hard_joint_limits_.clear();
+    soft_joint_limits_.clear();
+    limiters_data_.clear();
+    joint_limiters_interface_.clear();
+
+    hw_group_state_.clear();
+    hardware_used_by_controllers_.clear();
   }
 
   /**
-- 
2.43.0


From a0c832b51fab96d90118fce26c6155a7593195e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 36/95] fix: interfaces of hardware that failed a transition
 stay available

---
 hardware_interface/src/resource_manager.cpp | 26 +++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index ef3b586..89e8daf 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -390,6 +390,23 @@ public:
     return result;
   }
 
+  bool has_available_hardware_interfaces(const std::string & hardware_name) const
+  {
+    const auto hw_it = hardware_info_map_.find(hardware_name);
+    if (hw_it == hardware_info_map_.end())
+    {
+      return false;
+    }
+    const auto any_item_in = [](const auto & interfaces, const auto & available)
+    {
+      return std::any_of(
+        interfaces.begin(), interfaces.end(),
+        [&available](const auto & name) { return ros2_control::has_item(available, name); });
+    };
+    return any_item_in(hw_it->second.command_interfaces, available_command_interfaces_) ||
+           any_item_in(hw_it->second.state_interfaces, available_state_interfaces_);
+  }
+
   void remove_all_hardware_interfaces_from_available_list(const std::string & hardware_name)
   {
     // remove all command interfaces from available list
@@ -673,6 +690,15 @@ public:
         }
         break;
     }
+    // a failed transition may have ended in a state in which the interfaces can not be used
+    if (
+      hardware.get_lifecycle_id() != State::PRIMARY_STATE_INACTIVE &&
+      hardware.get_lifecycle_id() != State::PRIMARY_STATE_ACTIVE &&
+      has_available_hardware_interfaces(hardware.get_name()))
+    {
+      remove_all_hardware_interfaces_from_available_list(hardware.get_name());
+    }
+
     if (on_component_state_switch_callback_)
     {
       on_component_state_switch_callback_();
-- 
2.43.0


From 77c34fb2ba961bfb5f77a6978f7ab3c48e1402f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 37/95] fix: deactivation request of a component hides the
 write error of another one

---
 hardware_interface/src/resource_manager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 89e8daf..6f52ffc 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2615,7 +2615,7 @@ HardwareReadWriteStatus ResourceManager::write(
       if (ret_val == return_type::ERROR)
       {
         component.error();
-        read_write_status.result = ret_val;
+        read_write_status.result = return_type::ERROR;
         read_write_status.failed_hardware_names.push_back(component_name);
         resource_storage_->remove_all_hardware_interfaces_from_available_list(component_name);
       }
@@ -2624,7 +2624,11 @@ HardwareReadWriteStatus ResourceManager::write(
         rclcpp_lifecycle::State inactive_state(
           lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE, lifecycle_state_names::INACTIVE);
         set_component_state(component_name, inactive_state);
-        read_write_status.result = ret_val;
+        // an error of another component has precedence
+        if (read_write_status.result != return_type::ERROR)
+        {
+          read_write_status.result = return_type::DEACTIVATE;
+        }
         if (return_failed_hardware_names_on_return_deactivate_write_cycle_)
         {
           read_write_status.failed_hardware_names.push_back(component_name);
-- 
2.43.0


From 462bdff4399135a97eb9915b3f08bd9dc54700a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 38/95] fix: an exception in read or write does not fail the
 rest of the hardware group

---
 hardware_interface/src/resource_manager.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 6f52ffc..edd04a5 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1392,11 +1392,12 @@ public:
     }
     // If it is anything other than OK, change the return type of the hardware group state
     // to the respective return type
+    auto & group_state = hw_group_state_.try_emplace(group_name, return_type::OK).first->second;
     if (value != return_type::OK)
     {
-      hw_group_state_.at(group_name) = value;
+      group_state = value;
     }
-    return hw_group_state_.at(group_name);
+    return group_state;
   }
 
   /// Gets the logger for the resource storage
@@ -2490,9 +2491,6 @@ HardwareReadWriteStatus ResourceManager::read(
           hardware_component_info.read_statistics->periodicity.update_statistics(
             read_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2510,6 +2508,9 @@ HardwareReadWriteStatus ResourceManager::read(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      // also failures by exceptions concern the whole group
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component.get_group_name(), ret_val);
       RCLCPP_WARN_EXPRESSION(
         get_logger(), ret_val == hardware_interface::return_type::DEACTIVATE,
         "DEACTIVATE returned from read cycle is treated the same as ERROR.");
@@ -2592,9 +2593,6 @@ HardwareReadWriteStatus ResourceManager::write(
           hardware_component_info.write_statistics->periodicity.update_statistics(
             write_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2612,6 +2610,9 @@ HardwareReadWriteStatus ResourceManager::write(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      // also failures by exceptions concern the whole group
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component.get_group_name(), ret_val);
       if (ret_val == return_type::ERROR)
       {
         component.error();
-- 
2.43.0


From 504879c48107ed54e4569fb0363116c7bbcee08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 39/95] fix: lists of available interfaces are changed without
 holding their lock

---
 hardware_interface/src/resource_manager.cpp | 30 +++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index edd04a5..7f9b478 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -136,11 +136,13 @@ public:
   // because the ResourceStorage really shouldn't know about the cm's parameters
   explicit ResourceStorage(
     rclcpp::node_interfaces::NodeClockInterface::SharedPtr clock_interface,
-    rclcpp::node_interfaces::NodeLoggingInterface::SharedPtr logger_interface)
+    rclcpp::node_interfaces::NodeLoggingInterface::SharedPtr logger_interface,
+    std::recursive_mutex & resource_interfaces_lock)
   : actuator_loader_(pkg_name, actuator_interface_name),
     sensor_loader_(pkg_name, sensor_interface_name),
     system_loader_(pkg_name, system_interface_name),
-    rm_logger_(rclcpp::get_logger("resource_manager"))
+    rm_logger_(rclcpp::get_logger("resource_manager")),
+    resource_interfaces_lock_(resource_interfaces_lock)
   {
     if (!clock_interface)
     {
@@ -154,12 +156,15 @@ public:
     }
   }
 
-  explicit ResourceStorage(rclcpp::Clock::SharedPtr clock_interface, rclcpp::Logger logger)
+  explicit ResourceStorage(
+    rclcpp::Clock::SharedPtr clock_interface, rclcpp::Logger logger,
+    std::recursive_mutex & resource_interfaces_lock)
   : actuator_loader_(pkg_name, actuator_interface_name),
     sensor_loader_(pkg_name, sensor_interface_name),
     system_loader_(pkg_name, system_interface_name),
     rm_clock_(clock_interface),
-    rm_logger_(logger)
+    rm_logger_(logger),
+    resource_interfaces_lock_(resource_interfaces_lock)
   {
     if (!rm_clock_)
     {
@@ -167,8 +172,10 @@ public:
     }
   }
 
-  explicit ResourceStorage(const hardware_interface::ResourceManagerParams & rm_param)
-  : ResourceStorage(rm_param.clock, rm_param.logger)
+  explicit ResourceStorage(
+    const hardware_interface::ResourceManagerParams & rm_param,
+    std::recursive_mutex & resource_interfaces_lock)
+  : ResourceStorage(rm_param.clock, rm_param.logger, resource_interfaces_lock)
   {
     handle_exception_ = rm_param.handle_exceptions;
     robot_description_ = rm_param.robot_description;
@@ -327,6 +334,7 @@ public:
 
     if (result)
     {
+      std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
       // TODO(destogl): is it better to check here if previous state was unconfigured instead of
       // checking if each state already exists? Or we should somehow know that transition has
       // happened and only then trigger this part of the code?
@@ -397,6 +405,7 @@ public:
     {
       return false;
     }
+    std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
     const auto any_item_in = [](const auto & interfaces, const auto & available)
     {
       return std::any_of(
@@ -409,6 +418,7 @@ public:
 
   void remove_all_hardware_interfaces_from_available_list(const std::string & hardware_name)
   {
+    std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
     // remove all command interfaces from available list
     for (const auto & interface : hardware_info_map_[hardware_name].command_interfaces)
     {
@@ -1442,6 +1452,9 @@ public:
   /// Storage of all available command interfaces
   std::map<std::string, CommandInterface::SharedPtr> command_interface_map_;
 
+  /// Mutex of the ResourceManager, which protects the lists of available interfaces
+  std::recursive_mutex & resource_interfaces_lock_;
+
   /// Vectors with interfaces available to controllers (depending on hardware component state)
   std::vector<std::string> available_state_interfaces_;
   std::vector<std::string> available_command_interfaces_;
@@ -1511,7 +1524,8 @@ ResourceManager::ResourceManager(
 
 ResourceManager::ResourceManager(
   const hardware_interface::ResourceManagerParams & params, bool load)
-: resource_storage_(std::make_unique<ResourceStorage>(params)), params_(params)
+: resource_storage_(std::make_unique<ResourceStorage>(params, resource_interfaces_lock_)),
+  params_(params)
 {
   RCLCPP_WARN_EXPRESSION(
     params.logger, params.allow_controller_activation_with_inactive_hardware,
@@ -1546,7 +1560,7 @@ ResourceManager::ResourceManager(
 
 bool ResourceManager::shutdown_components()
 {
-  std::unique_lock<std::recursive_mutex> guard(resource_interfaces_lock_);
+  std::lock_guard<std::recursive_mutex> guard(resources_lock_);
   bool shutdown_status = true;
   for (auto const & hw_info : resource_storage_->hardware_info_map_)
   {
-- 
2.43.0


From 5bf9021c520fc9df76496047dc8bea6ee1c776d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 40/95] fix: spawner interrupted before the end fails to unload
 the controllers it activated

---
 .../controller_manager/spawner.py             | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/controller_manager/controller_manager/spawner.py b/controller_manager/controller_manager/spawner.py
index 28c11c6..881b071 100644
--- a/controller_manager/controller_manager/spawner.py
+++ b/controller_manager/controller_manager/spawner.py
@@ -359,6 +359,7 @@ def main(args=None):
     unload_on_kill = global_args.unload_on_kill
     node = None
     lock = None
+    spawned_controllers = []
 
     def _on_shutdown_signal(signum, frame):
         raise KeyboardInterrupt()
@@ -520,6 +521,7 @@ def main(args=None):
                     if activate_as_group:
                         controllers_to_activate.append(controller_name)
                     else:
+                        spawned_controllers.append(controller_name)
                         ret = switch_controllers(
                             node,
                             controller_manager_name,
@@ -545,6 +547,7 @@ def main(args=None):
                         )
 
         if activate_as_group and controllers_to_activate:
+            spawned_controllers.extend(controllers_to_activate)
             ret = switch_controllers(
                 node,
                 controller_manager_name,
@@ -591,8 +594,23 @@ def main(args=None):
         if unload_on_kill:
             logger.info("KeyboardInterrupt successfully captured!")
 
-            # Determine which controllers to deactivate
-            controllers_to_deactivate = [c["name"] for c in controllers if not c["inactive"]]
+            # Determine which controllers to deactivate: the interrupt may have come before all of
+            # them were activated, and one inactive controller would make the whole switch fail
+            controllers_to_deactivate = []
+            if spawned_controllers:
+                active_controllers = [
+                    c.name
+                    for c in list_controllers(
+                        node,
+                        controller_manager_name,
+                        controller_manager_timeout,
+                        service_call_timeout,
+                    ).controller
+                    if c.state == "active"
+                ]
+                controllers_to_deactivate = [
+                    name for name in spawned_controllers if name in active_controllers
+                ]
 
             if controllers_to_deactivate:
                 logger.info("Deactivating and unloading controllers...")
-- 
2.43.0


From cdf93d8eb5d1b51b7843606a1f7bffc6f44e4494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 41/95] fix: spawner ignores that the parameter files of a
 controller could not be set

---
 .../controller_manager/controller_manager_services.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index 4e64ffa..6031daf 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -486,13 +486,14 @@ def set_controller_parameters_from_param_files(
         node, controller_name, spawner_namespace, parameter_files
     )
     if controller_parameter_files:
-        set_controller_parameters(
+        if not set_controller_parameters(
             node,
             controller_manager_name,
             controller_name,
             "params_file",
             controller_parameter_files,
-        )
+        ):
+            return False
 
         controller_type = get_parameter_from_param_files(
             node, controller_name, spawner_namespace, controller_parameter_files, "type"
-- 
2.43.0


From 68b1aca1106ff9e78f064dc3e0d92c254cdf5703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 42/95] fix: get_parameter_from_param_files raises an exception
 for an empty list of files

---
 .../controller_manager/controller_manager_services.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index 6031daf..7a883ad 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -379,11 +379,12 @@ def get_params_files_with_controller_parameters(
 def get_parameter_from_param_files(
     node, controller_name: str, namespace: str, parameter_files: list, parameter_name: str
 ):
+    namespaced_controller = (
+        f"/{controller_name}" if namespace == "/" else f"{namespace}/{controller_name}"
+    )
+    controller_param_dict = None
     for parameter_file in parameter_files:
         with open(parameter_file) as f:
-            namespaced_controller = (
-                f"/{controller_name}" if namespace == "/" else f"{namespace}/{controller_name}"
-            )
             WILDCARD_KEY = "/**"
             ROS_PARAMS_KEY = "ros__parameters"
             parameters = yaml.safe_load(f)
-- 
2.43.0


From 0a766f8b898f63b84155568d9ddf9c95f5aa895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 43/95] fix: hardware_spawner exits with success although a
 component could not be set up

---
 .../controller_manager/hardware_spawner.py          | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/controller_manager/controller_manager/hardware_spawner.py b/controller_manager/controller_manager/hardware_spawner.py
index 07df80a..8f56101 100644
--- a/controller_manager/controller_manager/hardware_spawner.py
+++ b/controller_manager/controller_manager/hardware_spawner.py
@@ -68,6 +68,7 @@ def handle_set_component_state_service_call(
         node.get_logger().info(
             f"{bcolors.OKGREEN}{action} component '{component}'. Hardware now in state: {response.state}.{bcolors.ENDC}"
         )
+        return True
     elif response.ok and not response.state == target_state:
         node.get_logger().warning(
             f"{bcolors.WARNING}Could not {action} component '{component}'. Service call returned ok=True, but state: {response.state} is not equal to target state '{target_state}'.{bcolors.ENDC}"
@@ -76,13 +77,14 @@ def handle_set_component_state_service_call(
         node.get_logger().warning(
             f"{bcolors.WARNING}Could not {action} component '{component}'. Service call failed. Wrong component name?{bcolors.ENDC}"
         )
+    return False
 
 
 def activate_component(node, controller_manager_name, component_to_activate):
     active_state = State()
     active_state.id = State.PRIMARY_STATE_ACTIVE
     active_state.label = "active"
-    handle_set_component_state_service_call(
+    return handle_set_component_state_service_call(
         node, controller_manager_name, component_to_activate, active_state, "activated"
     )
 
@@ -91,7 +93,7 @@ def configure_component(node, controller_manager_name, component_to_configure):
     inactive_state = State()
     inactive_state.id = State.PRIMARY_STATE_INACTIVE
     inactive_state.label = "inactive"
-    handle_set_component_state_service_call(
+    return handle_set_component_state_service_call(
         node,
         controller_manager_name,
         component_to_configure,
@@ -154,6 +156,7 @@ def main(args=None):
         else:
             controller_manager_name = f"/{controller_manager_name}"
 
+    success = True
     try:
         for hardware_component in hardware_components:
             if not is_hardware_component_loaded(
@@ -165,16 +168,18 @@ def main(args=None):
                 node.get_logger().warning(
                     f"{bcolors.WARNING}Hardware Component is not loaded - state can not be changed.{bcolors.ENDC}"
                 )
+                success = False
             elif activate:
-                activate_component(node, controller_manager_name, hardware_component)
+                success &= activate_component(node, controller_manager_name, hardware_component)
             elif configure:
-                configure_component(node, controller_manager_name, hardware_component)
+                success &= configure_component(node, controller_manager_name, hardware_component)
             else:
                 node.get_logger().error(
                     f'{bcolors.FAIL}You need to either specify if the hardware component should be activated with the "--activate" flag or configured with the "--configure" flag{bcolors.ENDC}'
                 )
                 parser.print_help()
                 return 0
+        return 0 if success else 1
     except KeyboardInterrupt:
         pass
     except ServiceNotFoundError as err:
-- 
2.43.0


From 465d0ccc2c3b916482d1e42f239842bb7b5e3912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 44/95] fix: switch_controllers fails whenever a switch timeout
 is given

---
 ros2controlcli/ros2controlcli/verb/switch_controllers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros2controlcli/ros2controlcli/verb/switch_controllers.py b/ros2controlcli/ros2controlcli/verb/switch_controllers.py
index 0e90925..98c80df 100644
--- a/ros2controlcli/ros2controlcli/verb/switch_controllers.py
+++ b/ros2controlcli/ros2controlcli/verb/switch_controllers.py
@@ -57,6 +57,7 @@ class SwitchControllersVerb(VerbExtension):
             "--switch-timeout",
             default=5.0,
             required=False,
+            type=float,
             help="Timeout for switching controllers",
         )
         arg.completer = LoadedControllerNameCompleter(["inactive"])
-- 
2.43.0


From 9bd060cc89649a8c94ee3ba5af833f44e4ffc994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 45/95] fix: list of controller names of the caller is changed
 by the launch helper

---
 controller_manager/controller_manager/launch_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/controller_manager/launch_utils.py b/controller_manager/controller_manager/launch_utils.py
index 5811640..5cf49f5 100644
--- a/controller_manager/controller_manager/launch_utils.py
+++ b/controller_manager/controller_manager/launch_utils.py
@@ -54,7 +54,7 @@ def generate_controllers_spawner_launch_description(
         description="Wait until the node is interrupted and then unload controller",
     )
 
-    spawner_arguments = controller_names
+    spawner_arguments = list(controller_names)
     spawner_arguments.extend(
         [
             "--controller-manager",
-- 
2.43.0


From b4affb844460424beb3b361489aee311b89dab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 46/95] fix: ports of the controller diagram separated by the
 length of the names instead of their number

---
 .../ros2controlcli/verb/view_controller_chains.py         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ros2controlcli/ros2controlcli/verb/view_controller_chains.py b/ros2controlcli/ros2controlcli/verb/view_controller_chains.py
index dafe067..ec9b5d6 100644
--- a/ros2controlcli/ros2controlcli/verb/view_controller_chains.py
+++ b/ros2controlcli/ros2controlcli/verb/view_controller_chains.py
@@ -41,7 +41,7 @@ def make_controller_node(
     inputs_str = ""
     for ind, state_interface in enumerate(state_interfaces):
         deliminator = "|"
-        if ind == len(state_interface) - 1:
+        if ind == len(state_interfaces) - 1:
             deliminator = ""
         inputs_str += "<{}> {} {} ".format(
             "state_end_" + state_interface, state_interface, deliminator
@@ -49,7 +49,7 @@ def make_controller_node(
 
     for ind, input_controller in enumerate(input_controllers):
         deliminator = "|"
-        if ind == len(input_controller) - 1:
+        if ind == len(input_controllers) - 1:
             deliminator = ""
         inputs_str += "<{}> {} {} ".format(
             "controller_end_" + input_controller, input_controller, deliminator
@@ -59,7 +59,7 @@ def make_controller_node(
     outputs_str = ""
     for ind, command_interface in enumerate(command_interfaces):
         deliminator = "|"
-        if ind == len(command_interface) - 1:
+        if ind == len(command_interfaces) - 1:
             deliminator = ""
         outputs_str += "<{}> {} {} ".format(
             "command_start_" + command_interface, command_interface, deliminator
@@ -67,7 +67,7 @@ def make_controller_node(
 
     for ind, output_controller in enumerate(output_controllers):
         deliminator = "|"
-        if ind == len(output_controller) - 1:
+        if ind == len(output_controllers) - 1:
             deliminator = ""
         outputs_str += "<{}> {} {} ".format(
             "controller_start_" + output_controller, output_controller, deliminator
-- 
2.43.0


From 5401dbed48b0656cbba778a7096f184d064c226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 47/95] fix: controller diagram merged the last interface port
 with the first controller port

---
 .../verb/view_controller_chains.py            | 42 ++++++-------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/ros2controlcli/ros2controlcli/verb/view_controller_chains.py b/ros2controlcli/ros2controlcli/verb/view_controller_chains.py
index ec9b5d6..4196531 100644
--- a/ros2controlcli/ros2controlcli/verb/view_controller_chains.py
+++ b/ros2controlcli/ros2controlcli/verb/view_controller_chains.py
@@ -38,40 +38,24 @@ def make_controller_node(
     input_controllers = sorted(list(input_controllers))
     output_controllers = sorted(list(output_controllers))
 
-    inputs_str = ""
-    for ind, state_interface in enumerate(state_interfaces):
-        deliminator = "|"
-        if ind == len(state_interfaces) - 1:
-            deliminator = ""
-        inputs_str += "<{}> {} {} ".format(
-            "state_end_" + state_interface, state_interface, deliminator
-        )
+    inputs = []
+    for state_interface in state_interfaces:
+        inputs.append("<{}> {} ".format("state_end_" + state_interface, state_interface))
 
-    for ind, input_controller in enumerate(input_controllers):
-        deliminator = "|"
-        if ind == len(input_controllers) - 1:
-            deliminator = ""
-        inputs_str += "<{}> {} {} ".format(
-            "controller_end_" + input_controller, input_controller, deliminator
-        )
+    for input_controller in input_controllers:
+        inputs.append("<{}> {} ".format("controller_end_" + input_controller, input_controller))
         port_map["controller_end_" + input_controller] = controller_name
+    inputs_str = "| ".join(inputs)
 
-    outputs_str = ""
-    for ind, command_interface in enumerate(command_interfaces):
-        deliminator = "|"
-        if ind == len(command_interfaces) - 1:
-            deliminator = ""
-        outputs_str += "<{}> {} {} ".format(
-            "command_start_" + command_interface, command_interface, deliminator
-        )
+    outputs = []
+    for command_interface in command_interfaces:
+        outputs.append("<{}> {} ".format("command_start_" + command_interface, command_interface))
 
-    for ind, output_controller in enumerate(output_controllers):
-        deliminator = "|"
-        if ind == len(output_controllers) - 1:
-            deliminator = ""
-        outputs_str += "<{}> {} {} ".format(
-            "controller_start_" + output_controller, output_controller, deliminator
+    for output_controller in output_controllers:
+        outputs.append(
+            "<{}> {} ".format("controller_start_" + output_controller, output_controller)
         )
+    outputs_str = "| ".join(outputs)
 
     s.add_node(controller_name, label=f"{controller_name}|{{{{{inputs_str}}}|{{{outputs_str}}}}}")
 
-- 
2.43.0


From b6644d06b0f580c9a3827f89e5c57f1bb26ef281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 48/95] fix: type of a controller that is not loaded was looked
 up under the wrong parameter name

---
 .../rqt_controller_manager/controller_manager.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rqt_controller_manager/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/rqt_controller_manager/controller_manager.py
index 693cf69..044dcf6 100644
--- a/rqt_controller_manager/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/rqt_controller_manager/controller_manager.py
@@ -647,7 +647,7 @@ def _get_controller_type(node, node_name, ctrl_name):
     if not client.wait_for_service(timeout_sec=5.0):
         return ""
     request = GetParameters.Request()
-    request.names = [ctrl_name]
+    request.names = [f"{ctrl_name}.type"]
     future = client.call_async(request)
     rclpy.spin_until_future_complete(node, future)
     response = future.result()
-- 
2.43.0


From 97de09f9b43f49bbfa96d86077b719656a880e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 49/95] fix: mock system changed the mode of a joint whose name
 is contained in the name of the requested one

---
 hardware_interface/src/mock_components/generic_system.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 034c9bd..fa6bcf5 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -201,9 +201,10 @@ return_type GenericSystem::prepare_command_mode_switch(
   for (const auto & key : start_interfaces)
   {
     // check if interface is joint
+    const auto joint_name = key.substr(0, key.rfind('/'));
     auto joint_it_found = std::find_if(
       info.joints.begin(), info.joints.end(),
-      [key](const auto & joint) { return (key.find(joint.name) != std::string::npos); });
+      [&joint_name](const auto & joint) { return joint.name == joint_name; });
 
     if (joint_it_found != info.joints.end())
     {
@@ -274,9 +275,10 @@ return_type GenericSystem::perform_command_mode_switch(
   {
     // check if interface is joint
     const auto & info = get_hardware_info();
+    const auto joint_name = key.substr(0, key.rfind('/'));
     auto joint_it_found = std::find_if(
       info.joints.begin(), info.joints.end(),
-      [key](const auto & joint) { return (key.find(joint.name) != std::string::npos); });
+      [&joint_name](const auto & joint) { return joint.name == joint_name; });
 
     if (joint_it_found != info.joints.end())
     {
-- 
2.43.0


From e0e59f8cd9f7524e755b6a3df8ebe486a79f487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:33 +0000
Subject: [PATCH 50/95] fix: mock joint without a velocity drifts by the
 following offset in every cycle

---
 .../src/mock_components/generic_system.cpp           | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index fa6bcf5..78e99ea 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -415,12 +415,10 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
             std::isnan(joint_state_values_[ACCELERATION_INTERFACE_INDEX])
               ? 0.0
               : joint_state_values_[ACCELERATION_INTERFACE_INDEX] * period.seconds();
-          joint_state_values_[POSITION_INTERFACE_INDEX] +=  // apply offset to positions only
+          joint_state_values_[POSITION_INTERFACE_INDEX] +=
             std::isfinite(joint_state_values_[VELOCITY_INTERFACE_INDEX])
               ? joint_state_values_[VELOCITY_INTERFACE_INDEX] * period.seconds()
-              : 0.0 + (custom_interface_with_following_offset_.empty()
-                         ? position_state_following_offset_
-                         : 0.0);
+              : 0.0;
           break;
         }
         case VELOCITY_INTERFACE_INDEX:
@@ -437,12 +435,10 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
               (joint_state_values_[VELOCITY_INTERFACE_INDEX] - old_velocity) / period.seconds();
           }
           // currently we do backward Euler integration
-          joint_state_values_[POSITION_INTERFACE_INDEX] +=  // apply offset to positions only
+          joint_state_values_[POSITION_INTERFACE_INDEX] +=
             std::isfinite(joint_state_values_[VELOCITY_INTERFACE_INDEX])
               ? joint_state_values_[VELOCITY_INTERFACE_INDEX] * period.seconds()
-              : 0.0 + (custom_interface_with_following_offset_.empty()
-                         ? position_state_following_offset_
-                         : 0.0);
+              : 0.0;
           break;
         }
         case POSITION_INTERFACE_INDEX:
-- 
2.43.0


From ece3e5839eb77a17291169a0f9ef3ffa28101417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:33 +0000
Subject: [PATCH 51/95] fix: mock system fails in every cycle if a joint with
 the custom offset interface has no position command

---
 hardware_interface/src/mock_components/generic_system.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 78e99ea..f38d43e 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -514,7 +514,10 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
         return return_type::ERROR;
       }
     }
-    if (custom_interface_with_following_offset_ == joint_state.get()->get_interface_name())
+    if (
+      custom_interface_with_following_offset_ == joint_state.get()->get_interface_name() &&
+      has_command(
+        joint_state.get()->get_prefix_name() + "/" + hardware_interface::HW_IF_POSITION))
     {
       const auto cmd =
         get_command(
-- 
2.43.0


From dc79bc56c863e191ced18b9d40ffa47d651272bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:33 +0000
Subject: [PATCH 52/95] fix: mock system fails in every cycle if a mimic joint
 has a state that its mimicked joint lacks

---
 .../src/mock_components/generic_system.cpp           | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index f38d43e..01b0df9 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -536,7 +536,9 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
   {
     const auto & mimic_joint_name = joints.at(mimic_joint.joint_index).name;
     const auto & mimicked_joint_name = joints.at(mimic_joint.mimicked_joint_index).name;
-    if (has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_POSITION))
+    if (
+      has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_POSITION) &&
+      has_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_POSITION))
     {
       set_state(
         mimic_joint_name + "/" + hardware_interface::HW_IF_POSITION,
@@ -544,14 +546,18 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
           mimic_joint.multiplier *
             get_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_POSITION));
     }
-    if (has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_VELOCITY))
+    if (
+      has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_VELOCITY) &&
+      has_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_VELOCITY))
     {
       set_state(
         mimic_joint_name + "/" + hardware_interface::HW_IF_VELOCITY,
         mimic_joint.multiplier *
           get_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_VELOCITY));
     }
-    if (has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION))
+    if (
+      has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION) &&
+      has_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION))
     {
       set_state(
         mimic_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION,
-- 
2.43.0


From 927cbf836614b5ce45ea84c4e9d82ae7831eb92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 53/95] fix: update rate of a controller can not be raised
 again after it was lowered once

---
 controller_interface/src/controller_interface_base.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 43ee52e..83b9fdd 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -204,7 +204,10 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
       RCLCPP_ERROR(get_node()->get_logger(), "Update rate cannot be a negative value!");
       return get_lifecycle_state();
     }
-    if (params.update_rate != 0u && update_rate > params.update_rate)
+    // compare with the rate of the manager, the own rate may have been lowered by a previous configure
+    if (
+      params.controller_manager_update_rate != 0u &&
+      update_rate > params.controller_manager_update_rate)
     {
       RCLCPP_WARN(
         get_node()->get_logger(), "%s",
@@ -212,8 +215,9 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
           "The update rate of the controller : '{} Hz' cannot be higher than the update rate of "
           "the controller manager : '{} Hz'. Setting it to the update rate of the controller "
           "manager.",
-          update_rate, params.update_rate)
+          update_rate, params.controller_manager_update_rate)
           .c_str());
+      params.update_rate = params.controller_manager_update_rate;
     }
     else
     {
-- 
2.43.0


From 03939d1aa961996b3df894b5eee6729985e8fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 54/95] fix: state of a controller stays outdated if it is read
 while a transition starts

---
 controller_interface/src/controller_interface_base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 83b9fdd..c524443 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -323,7 +323,9 @@ uint8_t ControllerInterfaceBase::get_lifecycle_id() const
     id == lifecycle_msgs::msg::State::TRANSITION_STATE_ERRORPROCESSING)
   {
     const auto new_id = this->get_lifecycle_state().id();
-    impl_->lifecycle_id_.store(new_id, std::memory_order_release);
+    // a transition that started in the meantime must not be overwritten with the older state
+    auto expected_id = id;
+    impl_->lifecycle_id_.compare_exchange_strong(expected_id, new_id, std::memory_order_acq_rel);
     return new_id;
   }
   return id;
-- 
2.43.0


From 15eb53239698df25bc2027a769ef69ec40c918df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 55/95] fix: controller keeps its interfaces if its error
 handler throws an exception

---
 .../src/controller_interface_base.cpp              | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index c524443..f55bb53 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -162,9 +162,17 @@ return_type ControllerInterfaceBase::init(
     {
       this->stop_async_handler_thread();
       impl_->lifecycle_id_.store(this->get_lifecycle_state().id(), std::memory_order_release);
-      auto transition_state_status = on_error(previous_state);
-      this->release_interfaces();
-      return transition_state_status;
+      try
+      {
+        auto transition_state_status = on_error(previous_state);
+        this->release_interfaces();
+        return transition_state_status;
+      }
+      catch (...)
+      {
+        this->release_interfaces();
+        throw;
+      }
     });
 
   switch (on_init())
-- 
2.43.0


From de132fbefa2c496d454d80fe2979f77f54cb7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:19 +0000
Subject: [PATCH 56/95] fix: asynchronous update can start after the
 preparation for deactivation

---
 .../src/controller_interface_base.cpp         | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index f55bb53..f0a43c5 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -14,8 +14,10 @@
 
 #include "controller_interface/controller_interface_base.hpp"
 
+#include <atomic>
 #include <memory>
 #include <string>
+#include <thread>
 #include <vector>
 
 #include "hardware_interface/introspection.hpp"
@@ -30,6 +32,7 @@ struct ControllerInterfaceBase::ControllerInterfaceBaseImpl
   bool is_async_ = false;
   controller_interface::ControllerInterfaceParams ctrl_itf_params_;
   std::atomic_bool skip_async_triggers_ = false;
+  std::atomic_bool async_trigger_in_progress_ = false;
   ControllerUpdateStats trigger_stats_;
   mutable std::atomic<uint8_t> lifecycle_id_ = lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN;
 };
@@ -346,6 +349,16 @@ ControllerUpdateStatus ControllerInterfaceBase::trigger_update(
   impl_->trigger_stats_.total_triggers++;
   if (is_async())
   {
+    // announce the trigger before checking whether it is still allowed, see prepare_for_deactivation
+    struct TriggerGuard
+    {
+      explicit TriggerGuard(std::atomic_bool & in_progress) : in_progress_(in_progress)
+      {
+        in_progress_.store(true);
+      }
+      ~TriggerGuard() { in_progress_.store(false); }
+      std::atomic_bool & in_progress_;
+    } trigger_guard(impl_->async_trigger_in_progress_);
     if (impl_->skip_async_triggers_.load())
     {
       // Skip further async triggers if the controller is being deactivated
@@ -439,7 +452,12 @@ void ControllerInterfaceBase::wait_for_trigger_update_to_finish()
 
 void ControllerInterfaceBase::prepare_for_deactivation()
 {
-  impl_->skip_async_triggers_.store(true, std::memory_order_release);
+  impl_->skip_async_triggers_.store(true);
+  // a trigger that passed the check already would start a cycle after the wait below
+  while (impl_->async_trigger_in_progress_.load())
+  {
+    std::this_thread::yield();
+  }
   this->wait_for_trigger_update_to_finish();
 }
 
-- 
2.43.0


From f7b0d139c0461deab181823656a804002580f2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:05 +0000
Subject: [PATCH 57/95] fix: asynchronous controller can not be updated any
 more after its cleanup was refused

---
 controller_interface/src/controller_interface_base.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index f0a43c5..19ff09c 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -125,7 +125,13 @@ return_type ControllerInterfaceBase::init(
       enable_introspection(false);
       this->stop_async_handler_thread();
       impl_->lifecycle_id_.store(this->get_lifecycle_state().id(), std::memory_order_release);
-      return on_cleanup(previous_state);
+      const auto transition_state_status = on_cleanup(previous_state);
+      if (transition_state_status == CallbackReturn::FAILURE && is_async() && impl_->async_handler_)
+      {
+        // the controller stays inactive and may be activated again
+        impl_->async_handler_->start_thread();
+      }
+      return transition_state_status;
     });
 
   impl_->node_->register_on_activate(
-- 
2.43.0


From 1a2467df131ef88dbb5e91416a9c3aeb9aebdc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 58/95] fix: controller listed twice in a switch request
 conflicts with itself

---
 controller_manager/src/controller_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 4928524..eff4c61 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2002,7 +2002,8 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         RCLCPP_DEBUG(
           get_logger(), "Found controller '%s' that needs to be %sed in list of controllers",
           controller.c_str(), action.c_str());
-        request_list.push_back(controller);
+        // a controller that is listed several times is requested only once
+        ros2_control::add_item(request_list, controller);
       }
     }
     RCLCPP_DEBUG(
-- 
2.43.0


From 793df0f9fa849df0be158ba08992185afbb39f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 59/95] fix: joint limiters look up interfaces while they are
 being added or removed

---
 hardware_interface/src/resource_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 7f9b478..f66cb29 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2432,6 +2432,9 @@ bool ResourceManager::enforce_command_limits(const rclcpp::Duration & period)
     return false;
   }
 
+  // the limiters look up the interfaces and whether they are claimed
+  std::scoped_lock guard(resource_interfaces_lock_, claimed_command_interfaces_lock_);
+
   bool enforce_result = false;
   // Joint Limiters operations
   for (auto & [hw_name, limiters] : resource_storage_->joint_limiters_interface_)
-- 
2.43.0


From 83a269f012266accee73e277a07e874b5a74e44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 60/95] fix: controllers sharing several chains are updated in
 the wrong order

---
 .../controller_manager/controller_manager.hpp | 18 ++--
 controller_manager/src/controller_manager.cpp | 92 ++++---------------
 2 files changed, 26 insertions(+), 84 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 2174ea0..cc054fe 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -500,18 +500,15 @@ private:
     const std::vector<std::string> deactivation_list, std::string & message);
 
   /**
-   * @brief Inserts a controller into an ordered list based on dependencies to compute the
+   * @brief Adds a controller to the ordered list of controllers based on dependencies to compute the
    * controller chain.
    *
-   * This method computes the controller chain by inserting the provided controller name into an
-   * ordered list of controllers based on dependencies. It ensures that controllers are inserted in
-   * the correct order so that dependencies are satisfied.
+   * This method appends the provided controller name to the ordered list of controllers after all the
+   * controllers that have to be updated before it, which are added first if they are not yet in the
+   * list.
    *
-   * @param ctrl_name The name of the controller to be inserted into the chain.
-   * @param controller_iterator An iterator pointing to the position in the ordered list where the
-   * controller should be inserted.
-   * @param append_to_controller Flag indicating whether the controller should be appended or
-   * prepended to the parsed iterator.
+   * @param ctrl_name The name of the controller to be added to the list.
+   * @param visited_controllers Names of the controllers that are already added or being added.
    * @note The specification of controller dependencies is in the ControllerChainSpec,
    * containing information about following and preceding controllers. This struct should include
    * the neighboring controllers with their relationships to the provided controller.
@@ -519,8 +516,7 @@ private:
    * `preceding_controllers` specify controllers that come before the provided controller.
    */
   void update_list_with_controller_chain(
-    const std::string & ctrl_name, std::vector<std::string>::iterator controller_iterator,
-    bool append_to_controller);
+    const std::string & ctrl_name, std::vector<std::string> & visited_controllers);
 
   /**
    * @brief Build the controller chain topology information based on the provided controllers.
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index eff4c61..6a7df8e 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1782,14 +1782,10 @@ controller_interface::return_type ControllerManager::configure_controller(
 
   // clear the list before reordering it again
   ordered_controllers_names_.clear();
+  std::vector<std::string> visited_controllers;
   for (const auto & [ctrl_name, chain_spec] : controller_chain_spec_)
   {
-    auto it =
-      std::find(ordered_controllers_names_.begin(), ordered_controllers_names_.end(), ctrl_name);
-    if (it == ordered_controllers_names_.end())
-    {
-      update_list_with_controller_chain(ctrl_name, ordered_controllers_names_.end(), false);
-    }
+    update_list_with_controller_chain(ctrl_name, visited_controllers);
   }
 
   std::vector<ControllerSpec> new_list;
@@ -4817,77 +4813,27 @@ void ControllerManager::controller_manager_diagnostic_callback(
 }
 
 void ControllerManager::update_list_with_controller_chain(
-  const std::string & ctrl_name, std::vector<std::string>::iterator controller_iterator,
-  bool append_to_controller)
+  const std::string & ctrl_name, std::vector<std::string> & visited_controllers)
 {
-  auto new_ctrl_it =
-    std::find(ordered_controllers_names_.begin(), ordered_controllers_names_.end(), ctrl_name);
-  if (new_ctrl_it == ordered_controllers_names_.end())
+  if (ros2_control::has_item(visited_controllers, ctrl_name))
   {
-    RCLCPP_DEBUG(get_logger(), "Adding controller chain : %s", ctrl_name.c_str());
-
-    auto iterator = controller_iterator;
-    for (const auto & ctrl : controller_chain_spec_[ctrl_name].following_controllers)
-    {
-      auto it =
-        std::find(ordered_controllers_names_.begin(), ordered_controllers_names_.end(), ctrl);
-      if (it != ordered_controllers_names_.end())
-      {
-        if (
-          std::distance(ordered_controllers_names_.begin(), it) <
-          std::distance(ordered_controllers_names_.begin(), iterator))
-        {
-          iterator = it;
-        }
-      }
-    }
-    for (const auto & ctrl : controller_chain_spec_[ctrl_name].preceding_controllers)
-    {
-      auto it =
-        std::find(ordered_controllers_names_.begin(), ordered_controllers_names_.end(), ctrl);
-      if (it != ordered_controllers_names_.end())
-      {
-        if (
-          std::distance(ordered_controllers_names_.begin(), it) >
-          std::distance(ordered_controllers_names_.begin(), iterator))
-        {
-          iterator = it;
-        }
-      }
-    }
-
-    if (append_to_controller)
-    {
-      ordered_controllers_names_.insert(iterator + 1, ctrl_name);
-    }
-    else
-    {
-      ordered_controllers_names_.insert(iterator, ctrl_name);
-    }
+    return;
+  }
+  visited_controllers.push_back(ctrl_name);
 
-    RCLCPP_DEBUG_EXPRESSION(
-      get_logger(), !controller_chain_spec_[ctrl_name].following_controllers.empty(),
-      "\t[%s] Following controllers : %ld", ctrl_name.c_str(),
-      controller_chain_spec_[ctrl_name].following_controllers.size());
-    for (const std::string & flwg_ctrl : controller_chain_spec_[ctrl_name].following_controllers)
-    {
-      new_ctrl_it =
-        std::find(ordered_controllers_names_.begin(), ordered_controllers_names_.end(), ctrl_name);
-      RCLCPP_DEBUG(get_logger(), "\t\t[%s] : %s", ctrl_name.c_str(), flwg_ctrl.c_str());
-      update_list_with_controller_chain(flwg_ctrl, new_ctrl_it, true);
-    }
-    RCLCPP_DEBUG_EXPRESSION(
-      get_logger(), !controller_chain_spec_[ctrl_name].preceding_controllers.empty(),
-      "\t[%s] Preceding controllers : %ld", ctrl_name.c_str(),
-      controller_chain_spec_[ctrl_name].preceding_controllers.size());
-    for (const std::string & preced_ctrl : controller_chain_spec_[ctrl_name].preceding_controllers)
-    {
-      new_ctrl_it =
-        std::find(ordered_controllers_names_.begin(), ordered_controllers_names_.end(), ctrl_name);
-      RCLCPP_DEBUG(get_logger(), "\t\t[%s]: %s", ctrl_name.c_str(), preced_ctrl.c_str());
-      update_list_with_controller_chain(preced_ctrl, new_ctrl_it, false);
-    }
+  // all the preceding controllers, and those preceding them, have to be in front of the controller
+  const auto & preceding_controllers = controller_chain_spec_[ctrl_name].preceding_controllers;
+  RCLCPP_DEBUG_EXPRESSION(
+    get_logger(), !preceding_controllers.empty(), "\t[%s] Preceding controllers : %ld",
+    ctrl_name.c_str(), preceding_controllers.size());
+  for (const std::string & preced_ctrl : preceding_controllers)
+  {
+    RCLCPP_DEBUG(get_logger(), "\t\t[%s]: %s", ctrl_name.c_str(), preced_ctrl.c_str());
+    update_list_with_controller_chain(preced_ctrl, visited_controllers);
   }
+
+  RCLCPP_DEBUG(get_logger(), "Adding controller chain : %s", ctrl_name.c_str());
+  ordered_controllers_names_.push_back(ctrl_name);
 }
 
 void ControllerManager::build_controllers_topology_info(
-- 
2.43.0


From 49a68d141adcffc18a29f1a2a607bef899b006d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 61/95] fix: fallback controllers accepted while the
 controllers they use are not configured

---
 controller_manager/src/controller_manager.cpp | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 6a7df8e..c7c3d91 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4164,14 +4164,14 @@ ControllerManager::check_fallback_controllers_state_pre_activation(
             // if following_ctrl_it is inactive and it is in the fallback list of the
             // controller_it and then check it it's exported reference interface names list if
             // it's available
-            if (is_controller_inactive(following_ctrl_it->c))
+            if (!is_controller_active(following_ctrl_it->c))
             {
               if (
-                std::find(
-                  controller_it->info.fallback_controllers_names.begin(),
-                  controller_it->info.fallback_controllers_names.end(),
-                  following_ctrl_it->info.name) !=
-                controller_it->info.fallback_controllers_names.end())
+                is_controller_inactive(following_ctrl_it->c) &&
+                (ros2_control::has_item(
+                   controller_it->info.fallback_controllers_names, following_ctrl_it->info.name) ||
+                 ros2_control::has_item(
+                   switch_params_.activate_request, following_ctrl_it->info.name)))
               {
                 const auto exported_ref_itfs =
                   resource_manager_->get_controller_reference_interface_names(
@@ -4226,14 +4226,14 @@ ControllerManager::check_fallback_controllers_state_pre_activation(
             // if following_ctrl_it is inactive and it is in the fallback list of the
             // controller_it and then check it it's exported reference interface names list if
             // it's available
-            if (is_controller_inactive(following_ctrl_it->c))
+            if (!is_controller_active(following_ctrl_it->c))
             {
               if (
-                std::find(
-                  controller_it->info.fallback_controllers_names.begin(),
-                  controller_it->info.fallback_controllers_names.end(),
-                  following_ctrl_it->info.name) !=
-                controller_it->info.fallback_controllers_names.end())
+                is_controller_inactive(following_ctrl_it->c) &&
+                (ros2_control::has_item(
+                   controller_it->info.fallback_controllers_names, following_ctrl_it->info.name) ||
+                 ros2_control::has_item(
+                   switch_params_.activate_request, following_ctrl_it->info.name)))
               {
                 const auto exported_state_itfs =
                   resource_manager_->get_controller_exported_state_interface_names(
-- 
2.43.0


From 3713c031432be53f66671edaf8eaa752bdf7758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 62/95] fix: exported interfaces of a controller stay available
 after its activation failed

---
 controller_manager/src/controller_manager.cpp | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index c7c3d91..6233427 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2662,6 +2662,18 @@ void ControllerManager::activate_controllers(
       }
     }
   }
+  const auto withdraw_exported_interfaces =
+    [this](const controller_interface::ControllerInterfaceBaseSharedPtr & controller)
+  {
+    if (controller->is_chainable() && !is_controller_active(controller))
+    {
+      controller->set_chained_mode(false);
+      // make all the exported interfaces of the controller unavailable
+      resource_manager_->make_controller_exported_state_interfaces_unavailable(
+        controller->get_name());
+      resource_manager_->make_controller_reference_interfaces_unavailable(controller->get_name());
+    }
+  };
   for (const auto & controller_name : controllers_to_activate)
   {
     auto found_it = std::find_if(
@@ -2718,6 +2730,7 @@ void ControllerManager::activate_controllers(
     if (!assignment_successful)
     {
       is_successful = false;
+      withdraw_exported_interfaces(controller);
       continue;
     }
 
@@ -2746,6 +2759,7 @@ void ControllerManager::activate_controllers(
     if (!assignment_successful)
     {
       is_successful = false;
+      withdraw_exported_interfaces(controller);
       continue;
     }
     controller->assign_interfaces(std::move(command_loans), std::move(state_loans));
@@ -2783,12 +2797,7 @@ void ControllerManager::activate_controllers(
       is_successful = false;
       controller->release_interfaces();
       ros2_control::add_items(failed_controllers_command_interfaces, command_interface_names);
-      if (controller->is_chainable())
-      {
-        // make all the exported interfaces of the controller unavailable
-        resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
-        resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
-      }
+      withdraw_exported_interfaces(controller);
       continue;
     }
 
-- 
2.43.0


From c5eb56d0da1394fb22b23a64dfec4253c6a82c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 63/95] fix: controllers refused for interfaces that the
 activated controllers export

---
 controller_manager/src/controller_manager.cpp | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 6233427..a99f81a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4331,8 +4331,19 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
 {
   std::vector<std::string> future_unavailable_cmd_interfaces = {};
   std::vector<std::string> future_available_cmd_interfaces = {};
+  const auto is_exported_by_activated_controller = [&](const std::string & interface_name)
+  {
+    ControllersListIterator exporting_ctrl_it;
+    return is_interface_a_chained_interface(interface_name, controllers, exporting_ctrl_it) &&
+           ros2_control::has_item(activation_list, exporting_ctrl_it->info.name);
+  };
   for (const auto & controller_name : deactivation_list)
   {
+    if (ros2_control::has_item(activation_list, controller_name))
+    {
+      // a controller that is only restarted keeps its interfaces
+      continue;
+    }
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
       std::bind(controller_name_compare, std::placeholders::_1, controller_name));
@@ -4377,10 +4388,14 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
     const auto controller_state_interfaces =
       get_state_interfaces_names(controller_it->c, resource_manager_);
 
-    // check if the interfaces are available in the first place
+    // check if the interfaces are available in the first place or will be once the controllers
+    // exporting them are activated
     for (const auto & cmd_itf : controller_cmd_interfaces)
     {
-      if (!resource_manager_->command_interface_is_available(cmd_itf))
+      if (
+        !resource_manager_->command_interface_is_available(cmd_itf) &&
+        !(is_exported_by_activated_controller(cmd_itf) &&
+          resource_manager_->command_interface_exists(cmd_itf)))
       {
         message = fmt::format(
           FMT_COMPILE(
@@ -4416,7 +4431,10 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
     }
     for (const auto & state_itf : controller_state_interfaces)
     {
-      if (!resource_manager_->state_interface_is_available(state_itf))
+      if (
+        !resource_manager_->state_interface_is_available(state_itf) &&
+        !(is_exported_by_activated_controller(state_itf) &&
+          resource_manager_->state_interface_exists(state_itf)))
       {
         message = fmt::format(
           FMT_COMPILE(
-- 
2.43.0


From c3ac0107453a802d216def0a4eed6d5ba1010ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 64/95] fix: chained modes and exported interfaces are wrong
 after refused or failed switches

---
 .../controller_interface_base.hpp             |   6 +
 .../src/controller_interface_base.cpp         |   2 +
 .../controller_manager/controller_manager.hpp |   8 +-
 controller_manager/src/controller_manager.cpp | 350 ++++++++++--------
 4 files changed, 205 insertions(+), 161 deletions(-)

diff --git a/controller_interface/include/controller_interface/controller_interface_base.hpp b/controller_interface/include/controller_interface/controller_interface_base.hpp
index 7b3dc04..2dd707e 100644
--- a/controller_interface/include/controller_interface/controller_interface_base.hpp
+++ b/controller_interface/include/controller_interface/controller_interface_base.hpp
@@ -376,6 +376,12 @@ public:
    */
   void prepare_for_deactivation();
 
+  /**
+   * Method to resume the updates of an asynchronous controller that was prepared for the
+   * deactivation, but is not deactivated as the switch is refused.
+   */
+  void cancel_deactivation();
+
   std::string get_name() const;
 
   /**
diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 19ff09c..dae9d6d 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -467,6 +467,8 @@ void ControllerInterfaceBase::prepare_for_deactivation()
   this->wait_for_trigger_update_to_finish();
 }
 
+void ControllerInterfaceBase::cancel_deactivation() { impl_->skip_async_triggers_.store(false); }
+
 void ControllerInterfaceBase::stop_async_handler_thread()
 {
   if (is_async() && impl_->async_handler_ && impl_->async_handler_->is_running())
diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index cc054fe..26308c1 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -412,12 +412,14 @@ private:
     const std::string & rt_cycle_name);
 
   /**
-   * If a controller is deactivated all following controllers (if any exist) should be switched
-   * 'from' the chained mode.
+   * Determine the controllers whose chained mode has to change once the requested controllers are
+   * deactivated and activated, i.e., the active or activated chainable controllers that get their
+   * first or lose their last preceding controller. The result is stored in the "to" and "from"
+   * chained mode requests.
    *
    * \param[in] controllers list with controllers.
    */
-  void propagate_deactivation_of_chained_mode(const std::vector<ControllerSpec> & controllers);
+  void determine_chained_mode_requests(const std::vector<ControllerSpec> & controllers);
 
   /// Check if all the following controllers will be in active state and in the chained mode
   /// after controllers' switch.
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index a99f81a..13ad4fe 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2036,14 +2036,64 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
 
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
 
-  // if a preceding controller is deactivated, all first-level controllers should be switched 'from'
-  // chained mode
-  propagate_deactivation_of_chained_mode(controllers);
+  // check if controllers should be deactivated if used in chained mode
+  for (size_t i = 0; i < switch_params_.deactivate_request.size();)
+  {
+    const auto ctrl_it = switch_params_.deactivate_request.begin() + static_cast<int>(i);
+    auto controller_it = std::find_if(
+      controllers.begin(), controllers.end(),
+      std::bind(controller_name_compare, std::placeholders::_1, *ctrl_it));
+    controller_interface::return_type status = controller_interface::return_type::OK;
+
+    // if controller is not active then skip preceding-controllers checks
+    if (!is_controller_active(controller_it->c))
+    {
+      message = fmt::format(
+        FMT_COMPILE("Controller with name '{}' can not be deactivated since it is not active."),
+        controller_it->info.name);
+      RCLCPP_WARN(get_logger(), "%s", message.c_str());
+      status = controller_interface::return_type::ERROR;
+    }
+    else
+    {
+      status =
+        check_preceding_controllers_for_deactivate(controllers, strictness, controller_it, message);
+    }
+
+    if (status != controller_interface::return_type::OK)
+    {
+      RCLCPP_WARN(
+        get_logger(),
+        "Could not deactivate controller with name '%s'. Check above warnings for more details. "
+        "Check the state of the controllers and their required interfaces using "
+        "`ros2 control list_controllers -v` CLI to get more information.",
+        (*ctrl_it).c_str());
+      if (strictness == controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT)
+      {
+        // remove controller that can not be deactivated from the request and check the
+        // remaining ones again, as they may rely on it
+        switch_params_.deactivate_request.erase(ctrl_it);
+        message.clear();
+        i = 0;
+      }
+      if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
+      {
+        RCLCPP_ERROR(get_logger(), "Aborting, no controller is switched! (::STRICT switch)");
+        // reset all lists
+        clear_requests();
+        return controller_interface::return_type::ERROR;
+      }
+    }
+    else
+    {
+      ++i;
+    }
+  }
 
-  // check if controllers should be switched 'to' chained mode when controllers are activated
-  for (auto ctrl_it = switch_params_.activate_request.begin();
-       ctrl_it != switch_params_.activate_request.end(); ++ctrl_it)
+  // check if the controllers can be activated together with those whose interfaces they use
+  for (size_t i = 0; i < switch_params_.activate_request.size();)
   {
+    const auto ctrl_it = switch_params_.activate_request.begin() + static_cast<int>(i);
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
       std::bind(controller_name_compare, std::placeholders::_1, *ctrl_it));
@@ -2073,6 +2123,11 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         RCLCPP_WARN(get_logger(), "%s", message.c_str());
         status = controller_interface::return_type::ERROR;
       }
+      else
+      {
+        status =
+          check_following_controllers_for_activate(controllers, strictness, controller_it, message);
+      }
     }
     else if (!is_controller_inactive(controller_it->c))
     {
@@ -2108,11 +2163,11 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         // TODO(destogl): automatic manipulation of the chain:
         // || strictness ==
         //  controller_manager_msgs::srv::SwitchController::Request::MANIPULATE_CONTROLLERS_CHAIN);
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
+        // remove controller that can not be activated from the request and check the remaining
+        // ones again, as they may rely on it
         switch_params_.activate_request.erase(ctrl_it);
         message.clear();
-        --ctrl_it;
+        i = 0;
       }
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
       {
@@ -2122,55 +2177,9 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         return controller_interface::return_type::ERROR;
       }
     }
-  }
-
-  // check if controllers should be deactivated if used in chained mode
-  for (auto ctrl_it = switch_params_.deactivate_request.begin();
-       ctrl_it != switch_params_.deactivate_request.end(); ++ctrl_it)
-  {
-    auto controller_it = std::find_if(
-      controllers.begin(), controllers.end(),
-      std::bind(controller_name_compare, std::placeholders::_1, *ctrl_it));
-    controller_interface::return_type status = controller_interface::return_type::OK;
-
-    // if controller is not active then skip preceding-controllers checks
-    if (!is_controller_active(controller_it->c))
-    {
-      message = fmt::format(
-        FMT_COMPILE("Controller with name '{}' can not be deactivated since it is not active."),
-        controller_it->info.name);
-      RCLCPP_WARN(get_logger(), "%s", message.c_str());
-      status = controller_interface::return_type::ERROR;
-    }
     else
     {
-      status =
-        check_preceding_controllers_for_deactivate(controllers, strictness, controller_it, message);
-    }
-
-    if (status != controller_interface::return_type::OK)
-    {
-      RCLCPP_WARN(
-        get_logger(),
-        "Could not deactivate controller with name '%s'. Check above warnings for more details. "
-        "Check the state of the controllers and their required interfaces using "
-        "`ros2 control list_controllers -v` CLI to get more information.",
-        (*ctrl_it).c_str());
-      if (strictness == controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT)
-      {
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
-        switch_params_.deactivate_request.erase(ctrl_it);
-        message.clear();
-        --ctrl_it;
-      }
-      if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
-      {
-        RCLCPP_ERROR(get_logger(), "Aborting, no controller is switched! (::STRICT switch)");
-        // reset all lists
-        clear_requests();
-        return controller_interface::return_type::ERROR;
-      }
+      ++i;
     }
   }
 
@@ -2184,6 +2193,10 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   }
   message.clear();
 
+  // following controllers that get their first or lose their last preceding controller have to
+  // change their chained mode
+  determine_chained_mode_requests(controllers);
+
   for (const auto & controller : controllers)
   {
     auto to_chained_mode_list_it = std::find(
@@ -2323,6 +2336,42 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     return controller_interface::return_type::OK;
   }
 
+  // activate the controllers exporting interfaces before those using them
+  std::vector<std::string> visited_controllers, ordered_activate_request;
+  const std::function<void(const std::string &)> add_to_ordered_request =
+    [&](const std::string & name)
+  {
+    if (
+      !ros2_control::has_item(switch_params_.activate_request, name) ||
+      ros2_control::has_item(visited_controllers, name))
+    {
+      return;
+    }
+    visited_controllers.push_back(name);
+    const auto controller_it = std::find_if(
+      controllers.begin(), controllers.end(),
+      std::bind(controller_name_compare, std::placeholders::_1, name));
+    for (const auto & interfaces :
+         {get_command_interfaces_names(controller_it->c, resource_manager_),
+          get_state_interfaces_names(controller_it->c, resource_manager_)})
+    {
+      for (const auto & interface : interfaces)
+      {
+        ControllersListIterator exporting_ctrl_it;
+        if (is_interface_a_chained_interface(interface, controllers, exporting_ctrl_it))
+        {
+          add_to_ordered_request(exporting_ctrl_it->info.name);
+        }
+      }
+    }
+    ordered_activate_request.push_back(name);
+  };
+  for (const auto & controller : switch_params_.activate_request)
+  {
+    add_to_ordered_request(controller);
+  }
+  switch_params_.activate_request = ordered_activate_request;
+
   if (
     check_for_interfaces_availability_to_activate(
       controllers, switch_params_.activate_request, switch_params_.deactivate_request, message) !=
@@ -2343,6 +2392,40 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     RCLCPP_DEBUG(get_logger(), " - %s", interface.c_str());
   }
 
+  // The interfaces exported by the controllers to be activated have to be available for the mode
+  // switch and the activation, but only as long as those controllers are going to be active
+  const auto revert_preparation = [&]()
+  {
+    for (const auto & controller : controllers)
+    {
+      if (
+        ros2_control::has_item(switch_params_.activate_request, controller.info.name) &&
+        controller.c->is_chainable() && !is_controller_active(controller.c))
+      {
+        resource_manager_->make_controller_exported_state_interfaces_unavailable(
+          controller.info.name);
+        resource_manager_->make_controller_reference_interfaces_unavailable(controller.info.name);
+      }
+      if (
+        ros2_control::has_item(switch_params_.deactivate_request, controller.info.name) &&
+        is_controller_active(controller.c))
+      {
+        controller.c->cancel_deactivation();
+      }
+    }
+  };
+  for (const auto & controller : controllers)
+  {
+    if (
+      ros2_control::has_item(switch_params_.activate_request, controller.info.name) &&
+      controller.c->is_chainable())
+    {
+      resource_manager_->make_controller_exported_state_interfaces_available(
+        controller.info.name);
+      resource_manager_->make_controller_reference_interfaces_available(controller.info.name);
+    }
+  }
+
   // wait for deactivating async controllers to finish their current cycle
   for (const auto & controller : switch_params_.deactivate_request)
   {
@@ -2365,6 +2448,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     {
       message = "Could not switch controllers since prepare command mode switch was rejected.";
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+      revert_preparation();
       clear_requests();
       return controller_interface::return_type::ERROR;
     }
@@ -2397,6 +2481,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         FMT_COMPILE("Switch controller timed out after {} seconds!"),
         static_cast<double>(switch_params_.timeout.count()) / 1e9);
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+      revert_preparation();
       clear_requests();
       return controller_interface::return_type::ERROR;
     }
@@ -2412,6 +2497,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
           FMT_COMPILE("Switch controller timed out after {} seconds!"),
           static_cast<double>(switch_params_.timeout.count()) / 1e9);
         RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+        revert_preparation();
         clear_requests();
         return controller_interface::return_type::ERROR;
       }
@@ -2423,6 +2509,9 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     manage_switch();
   }
 
+  // nothing is left to do after a successful switch
+  revert_preparation();
+
   // copy the controllers spec from the used to the unused list
   std::vector<ControllerSpec> & to = rt_controllers_wrapper_.get_unused_list(guard);
   to = controllers;
@@ -3841,59 +3930,61 @@ void ControllerManager::perform_hardware_command_mode_change(
   }
 }
 
-void ControllerManager::propagate_deactivation_of_chained_mode(
+void ControllerManager::determine_chained_mode_requests(
   const std::vector<ControllerSpec> & controllers)
 {
+  const auto & activate_request = switch_params_.activate_request;
+  const auto & deactivate_request = switch_params_.deactivate_request;
+  std::vector<std::string> affected_controllers = activate_request;
+  std::vector<std::string> used_controllers;
   for (const auto & controller : controllers)
   {
-    // get pointers to places in deactivate and activate lists ((de)activate lists have changed)
-    auto deactivate_list_it = std::find(
-      switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
-      controller.info.name);
-
-    if (deactivate_list_it != switch_params_.deactivate_request.end())
+    const bool in_activate_list = ros2_control::has_item(activate_request, controller.info.name);
+    const bool in_deactivate_list =
+      ros2_control::has_item(deactivate_request, controller.info.name);
+    const bool is_active = is_controller_active(controller.c);
+    if (!is_active && !in_activate_list)
     {
-      // if controller is not active then skip adding following-controllers to "from" chained mode
-      // request
-      if (!is_controller_active(controller.c))
-      {
-        RCLCPP_DEBUG(
-          get_logger(),
-          "Controller with name '%s' can not be deactivated since is not active. "
-          "The controller will be removed from the list later."
-          "Skipping adding following controllers to 'from' chained mode request.",
-          controller.info.name.c_str());
-        break;
-      }
-
-      const auto ctrl_cmd_itf_names = get_command_interfaces_names(controller.c, resource_manager_);
-      const auto ctrl_state_itf_names = get_state_interfaces_names(controller.c, resource_manager_);
-      auto ctrl_itf_names = ctrl_cmd_itf_names;
-      ctrl_itf_names.insert(
-        ctrl_itf_names.end(), ctrl_state_itf_names.begin(), ctrl_state_itf_names.end());
-      for (const auto & ctrl_itf_name : ctrl_itf_names)
+      continue;
+    }
+    for (const auto & cmd_itf_name : get_command_interfaces_names(controller.c, resource_manager_))
+    {
+      ControllersListIterator following_ctrl_it;
+      if (is_interface_a_chained_interface(cmd_itf_name, controllers, following_ctrl_it))
       {
-        // controller that 'cmd_tf_name' belongs to
-        ControllersListIterator following_ctrl_it;
-        if (is_interface_a_chained_interface(ctrl_itf_name, controllers, following_ctrl_it))
+        if (in_activate_list || in_deactivate_list)
         {
-          // currently iterated "controller" is preceding controller --> add following controller
-          // with matching interface name to "from" chained mode list (if not already in it)
-          if (
-            std::find(
-              switch_params_.from_chained_mode_request.begin(),
-              switch_params_.from_chained_mode_request.end(),
-              following_ctrl_it->info.name) == switch_params_.from_chained_mode_request.end())
-          {
-            switch_params_.from_chained_mode_request.push_back(following_ctrl_it->info.name);
-            RCLCPP_DEBUG(
-              get_logger(), "Adding controller '%s' in 'from chained mode' request.",
-              following_ctrl_it->info.name.c_str());
-          }
+          ros2_control::add_item(affected_controllers, following_ctrl_it->info.name);
+        }
+        if (in_activate_list || !in_deactivate_list)
+        {
+          ros2_control::add_item(used_controllers, following_ctrl_it->info.name);
         }
       }
     }
   }
+  for (const auto & controller : controllers)
+  {
+    const std::string & name = controller.info.name;
+    if (!controller.c->is_chainable() || !ros2_control::has_item(affected_controllers, name))
+    {
+      continue;
+    }
+    const bool in_activate_list = ros2_control::has_item(activate_request, name);
+    const bool stays_active =
+      is_controller_active(controller.c) && !ros2_control::has_item(deactivate_request, name);
+    const bool is_used = ros2_control::has_item(used_controllers, name);
+    // the chained mode is reset by the deactivation, therefore it is set for each activation
+    if (in_activate_list || (stays_active && is_used != controller.c->is_in_chained_mode()))
+    {
+      RCLCPP_DEBUG(
+        get_logger(), "Adding controller '%s' in '%s chained mode' request.", name.c_str(),
+        is_used ? "to" : "from");
+      (is_used ? switch_params_.to_chained_mode_request
+               : switch_params_.from_chained_mode_request)
+        .push_back(name);
+    }
+  }
 }
 
 controller_interface::return_type ControllerManager::check_following_controllers_for_activate(
@@ -3950,11 +4041,10 @@ controller_interface::return_type ControllerManager::check_following_controllers
 
     if (is_controller_active(following_ctrl_it->c))
     {
-      // will following controller be deactivated?
+      // will following controller be deactivated and not activated again?
       if (
-        std::find(
-          switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
-          following_ctrl_it->info.name) != switch_params_.deactivate_request.end())
+        ros2_control::has_item(switch_params_.deactivate_request, following_ctrl_it->info.name) &&
+        !ros2_control::has_item(switch_params_.activate_request, following_ctrl_it->info.name))
       {
         if (
           (ros2_control::has_item(controller_state_interfaces, ctrl_itf_name) &&
@@ -4010,48 +4100,6 @@ controller_interface::return_type ControllerManager::check_following_controllers
     //   switch_params_.activate_request.insert(switch_params_.activate_request.begin(),
     //   following_ctrl_name);
     // }
-    if (!following_ctrl_it->c->is_in_chained_mode())
-    {
-      auto found_it = std::find(
-        switch_params_.to_chained_mode_request.begin(),
-        switch_params_.to_chained_mode_request.end(), following_ctrl_it->info.name);
-      if (found_it == switch_params_.to_chained_mode_request.end())
-      {
-        // if it is a chainable controller, make the reference interfaces available on preactivation
-        // (This is needed when you activate a couple of chainable controller altogether)
-        // make all the exported interfaces of the controller available
-        resource_manager_->make_controller_exported_state_interfaces_available(
-          following_ctrl_it->info.name);
-        if (
-          std::find(
-            controller_cmd_interfaces.begin(), controller_cmd_interfaces.end(), ctrl_itf_name) !=
-          controller_cmd_interfaces.end())
-        {
-          resource_manager_->make_controller_reference_interfaces_available(
-            following_ctrl_it->info.name);
-          switch_params_.to_chained_mode_request.push_back(following_ctrl_it->info.name);
-          RCLCPP_DEBUG(
-            get_logger(), "Adding controller '%s' in 'to chained mode' request.",
-            following_ctrl_it->info.name.c_str());
-        }
-      }
-    }
-    else
-    {
-      // Check if following controller is in 'from' chained mode list and remove it, if so
-      auto found_it = std::find(
-        switch_params_.from_chained_mode_request.begin(),
-        switch_params_.from_chained_mode_request.end(), following_ctrl_it->info.name);
-      if (found_it != switch_params_.from_chained_mode_request.end())
-      {
-        switch_params_.from_chained_mode_request.erase(found_it);
-        RCLCPP_DEBUG(
-          get_logger(),
-          "Removing controller '%s' in 'from chained mode' request because it "
-          "should stay in chained mode.",
-          following_ctrl_it->info.name.c_str());
-      }
-    }
   }
   return controller_interface::return_type::OK;
 };
@@ -4086,20 +4134,6 @@ controller_interface::return_type ControllerManager::check_preceding_controllers
 
     if (found_it != controllers.end())
     {
-      if (
-        is_controller_inactive(found_it->c) &&
-        std::find(
-          switch_params_.activate_request.begin(), switch_params_.activate_request.end(),
-          preceding_controller) != switch_params_.activate_request.end())
-      {
-        message = fmt::format(
-          FMT_COMPILE(
-            "Unable to deactivate controller with name '{}' because preceding controller with "
-            "name '{}' is inactive and will be activated."),
-          controller_it->info.name, preceding_controller);
-        RCLCPP_WARN(get_logger(), "%s", message.c_str());
-        return controller_interface::return_type::ERROR;
-      }
       if (
         is_controller_active(found_it->c) &&
         std::find(
-- 
2.43.0


From 23660ea9583470bfd6470b795bd74e7c0b0741c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:11 +0000
Subject: [PATCH 65/95] fix: statistics of controllers that failed to load stay
 registered after they are gone

---
 controller_manager/src/controller_manager.cpp | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 13ad4fe..e57d087 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1305,20 +1305,6 @@ controller_interface::ControllerInterfaceBaseSharedPtr ControllerManager::load_c
     std::make_shared<rclcpp::Time>(0, 0, this->get_trigger_clock()->get_clock_type());
   controller_spec.execution_time_statistics = std::make_shared<MovingAverageStatistics>();
   controller_spec.periodicity_statistics = std::make_shared<MovingAverageStatistics>();
-  const std::string controller_exec_time_prefix = controller_name + ".stats/execution_time";
-  const std::string controller_periodicity_prefix = controller_name + ".stats/periodicity";
-  register_controller_manager_statistics(
-    controller_exec_time_prefix,
-    &controller_spec.execution_time_statistics->get_statistics_const_ptr());
-  REGISTER_ENTITY(
-    hardware_interface::CM_STATISTICS_KEY, controller_exec_time_prefix + "/current_value",
-    &controller_spec.execution_time_statistics->get_current_measurement_const_ptr());
-  register_controller_manager_statistics(
-    controller_periodicity_prefix,
-    &controller_spec.periodicity_statistics->get_statistics_const_ptr());
-  REGISTER_ENTITY(
-    hardware_interface::CM_STATISTICS_KEY, controller_periodicity_prefix + "/current_value",
-    &controller_spec.periodicity_statistics->get_current_measurement_const_ptr());
 
   // We have to fetch the parameters_file at the time of loading the controller, because this way we
   // can load them at the creation of the LifeCycleNode and this helps in using the features such as
@@ -2604,6 +2590,21 @@ controller_interface::ControllerInterfaceBaseSharedPtr ControllerManager::add_co
   controller_chained_state_interfaces_cache_[controller.info.name] = {};
   controller_chained_reference_interfaces_cache_[controller.info.name] = {};
 
+  const std::string controller_exec_time_prefix = controller.info.name + ".stats/execution_time";
+  const std::string controller_periodicity_prefix = controller.info.name + ".stats/periodicity";
+  register_controller_manager_statistics(
+    controller_exec_time_prefix,
+    &controller.execution_time_statistics->get_statistics_const_ptr());
+  REGISTER_ENTITY(
+    hardware_interface::CM_STATISTICS_KEY, controller_exec_time_prefix + "/current_value",
+    &controller.execution_time_statistics->get_current_measurement_const_ptr());
+  register_controller_manager_statistics(
+    controller_periodicity_prefix,
+    &controller.periodicity_statistics->get_statistics_const_ptr());
+  REGISTER_ENTITY(
+    hardware_interface::CM_STATISTICS_KEY, controller_periodicity_prefix + "/current_value",
+    &controller.periodicity_statistics->get_current_measurement_const_ptr());
+
   executor_->add_node(controller.c->get_node()->get_node_base_interface());
   to.emplace_back(controller);
 
-- 
2.43.0


From 84d71a901c9d5f3744bf371b348e7dec4146f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:11 +0000
Subject: [PATCH 66/95] fix: finalized controllers can not be unloaded

---
 controller_manager/src/controller_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index e57d087..4c1603e 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1437,8 +1437,11 @@ controller_interface::return_type ControllerManager::unload_controller(
   }
 
   // call cleanup transition, if it is inactive
-  if (cleanup_controller(controller_name) != controller_interface::return_type::OK)
+  if (
+    is_controller_inactive(*controller.c) &&
+    cleanup_controller(controller_name) != controller_interface::return_type::OK)
   {
+    to.clear();
     return controller_interface::return_type::ERROR;
   }
 
-- 
2.43.0


From 072f15dbfa78f58f7a9819f2abe9f920d4b9f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:11 +0000
Subject: [PATCH 67/95] fix: chain connections list the reference interfaces of
 other chained controllers

---
 controller_manager/src/controller_manager.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 4c1603e..2338188 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2951,8 +2951,8 @@ void ControllerManager::list_controllers_srv_cb(
     rt_controllers_wrapper_.controllers_lock_);
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
   // create helper containers to create chained controller connections
-  std::unordered_map<std::string, std::vector<std::string>> controller_chain_interface_map;
-  std::unordered_map<std::string, std::set<std::string>> controller_chain_map;
+  std::unordered_map<std::string, std::map<std::string, std::vector<std::string>>>
+    controller_chain_map;
   std::vector<size_t> chained_controller_indices;
   for (size_t i = 0; i < controllers.size(); ++i)
   {
@@ -2989,8 +2989,7 @@ void ControllerManager::list_controllers_srv_cb(
         auto interface_type = prefix_interface_type_pair.second;
         if (controller_chain_map.find(prefix) != controller_chain_map.end())
         {
-          controller_chain_map[controller_state.name].insert(prefix);
-          controller_chain_interface_map[controller_state.name].push_back(interface_type);
+          controller_chain_map[controller_state.name][prefix].push_back(interface_type);
         }
       }
       // check reference interfaces only if controller is inactive or active
@@ -3020,8 +3019,7 @@ void ControllerManager::list_controllers_srv_cb(
     response->controller.push_back(controller_state);
     // keep track of controllers that are part of a chain
     if (
-      !controller_chain_interface_map[controller_state.name].empty() ||
-      controllers[i].c->is_chainable())
+      !controller_chain_map[controller_state.name].empty() || controllers[i].c->is_chainable())
     {
       chained_controller_indices.push_back(i);
     }
@@ -3031,12 +3029,12 @@ void ControllerManager::list_controllers_srv_cb(
   for (const auto & index : chained_controller_indices)
   {
     auto & controller_state = response->controller[index];
-    auto chained_set = controller_chain_map[controller_state.name];
-    for (const auto & chained_name : chained_set)
+    for (const auto & [chained_name, chained_interfaces] :
+         controller_chain_map[controller_state.name])
     {
       controller_manager_msgs::msg::ChainConnection connection;
       connection.name = chained_name;
-      connection.reference_interfaces = controller_chain_interface_map[controller_state.name];
+      connection.reference_interfaces = chained_interfaces;
       controller_state.chain_connections.push_back(connection);
     }
   }
-- 
2.43.0


From 39043575ee5a0bb37f5b8563f264280f2df01dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:11 +0000
Subject: [PATCH 68/95] fix: claimed interfaces are listed wrong for
 controllers switched by a failure in the control loop

---
 controller_manager/src/controller_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 2338188..340d324 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2968,7 +2968,6 @@ void ControllerManager::list_controllers_srv_cb(
     controller_state.type = controllers[i].info.type;
     controller_state.is_async = controllers[i].c->is_async();
     controller_state.update_rate = static_cast<uint16_t>(controllers[i].c->get_update_rate());
-    controller_state.claimed_interfaces = controllers[i].info.claimed_interfaces;
     controller_state.state = controllers[i].c->get_lifecycle_state().label();
     controller_state.is_chainable = controllers[i].c->is_chainable();
     controller_state.is_chained = controllers[i].c->is_in_chained_mode();
@@ -2980,6 +2979,10 @@ void ControllerManager::list_controllers_srv_cb(
         get_command_interfaces_names(controllers[i].c, resource_manager_);
       controller_state.required_state_interfaces =
         get_state_interfaces_names(controllers[i].c, resource_manager_);
+      if (is_controller_active(controllers[i].c))
+      {
+        controller_state.claimed_interfaces = controller_state.required_command_interfaces;
+      }
 
       // check for chained interfaces
       for (const auto & interface : controller_state.required_command_interfaces)
-- 
2.43.0


From 3856006ba1d3c04390df83aa89210111ed788dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 69/95] fix: chainable controller loses its exported interfaces
 when its cleanup is refused

---
 .../controller_manager/controller_manager.hpp |  8 ++
 controller_manager/src/controller_manager.cpp | 81 +++++++++++--------
 2 files changed, 55 insertions(+), 34 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 26308c1..1a53e86 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -557,6 +557,14 @@ private:
    */
   void cleanup_controller_exported_interfaces(const ControllerSpec & controller);
 
+  /**
+   * @brief Imports the interfaces exported by a configured chainable controller into the resource
+   * manager.
+   * @param controller controller specification
+   * @return true if the controller exports at least one interface.
+   */
+  bool import_controller_exported_interfaces(const ControllerSpec & controller);
+
   std::shared_ptr<controller_manager::ParamListener> cm_param_listener_;
   std::shared_ptr<controller_manager::Params> params_;
   diagnostic_updater::Updater diagnostics_updater_;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 340d324..cea5a3d 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1483,6 +1483,11 @@ controller_interface::return_type ControllerManager::cleanup_controller(
       RCLCPP_ERROR(
         get_logger(), "Controller '%s' is not cleaned-up properly, it is still in state '%s'",
         controller.info.name.c_str(), new_state.label().c_str());
+      if (is_controller_inactive(controller.c) && controller.c->is_chainable())
+      {
+        // the controller stays configured, therefore its interfaces are still needed
+        import_controller_exported_interfaces(controller);
+      }
       return controller_interface::return_type::ERROR;
     }
   }
@@ -1680,44 +1685,11 @@ controller_interface::return_type ControllerManager::configure_controller(
   // CHAINABLE CONTROLLERS: get reference interfaces from chainable controllers
   if (controller->is_chainable())
   {
-    RCLCPP_DEBUG(
-      get_logger(),
-      "Controller '%s' is chainable. Interfaces are being exported to resource manager.",
-      controller_name.c_str());
-    std::vector<hardware_interface::StateInterface::ConstSharedPtr> state_interfaces;
-    std::vector<hardware_interface::CommandInterface::SharedPtr> ref_interfaces;
-    try
+    if (!import_controller_exported_interfaces(*found_it))
     {
-      state_interfaces = controller->export_state_interfaces();
-      ref_interfaces = controller->export_reference_interfaces();
-      if (ref_interfaces.empty() && state_interfaces.empty())
-      {
-        RCLCPP_ERROR(
-          get_logger(),
-          "Controller '%s' is chainable, but does not export any state or reference interfaces. "
-          "Did you override the on_export_state_interfaces_list() or "
-          "on_export_reference_interfaces_list() methods correctly?",
-          controller_name.c_str());
-        cleanup_controller(*found_it);
-        return controller_interface::return_type::ERROR;
-      }
-    }
-    catch (const std::exception & e)
-    {
-      RCLCPP_FATAL(
-        get_logger(), "Export of the state or reference interfaces failed with following error: %s",
-        e.what());
-      params_->handle_exceptions ? void() : throw;
       cleanup_controller(*found_it);
       return controller_interface::return_type::ERROR;
     }
-    resource_manager_->import_controller_reference_interfaces(controller_name, ref_interfaces);
-    resource_manager_->import_controller_exported_state_interfaces(
-      controller_name, state_interfaces);
-    // make all the exported interfaces of the controller unavailable
-    controller->set_chained_mode(false);
-    resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
-    resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
   }
 
   // let's update the list of following and preceding controllers
@@ -5041,4 +5013,45 @@ void ControllerManager::cleanup_controller_exported_interfaces(const ControllerS
   }
 }
 
+bool ControllerManager::import_controller_exported_interfaces(const ControllerSpec & controller)
+{
+  const std::string & controller_name = controller.info.name;
+  RCLCPP_DEBUG(
+    get_logger(),
+    "Controller '%s' is chainable. Interfaces are being exported to resource manager.",
+    controller_name.c_str());
+  std::vector<hardware_interface::StateInterface::ConstSharedPtr> state_interfaces;
+  std::vector<hardware_interface::CommandInterface::SharedPtr> ref_interfaces;
+  try
+  {
+    state_interfaces = controller.c->export_state_interfaces();
+    ref_interfaces = controller.c->export_reference_interfaces();
+    if (ref_interfaces.empty() && state_interfaces.empty())
+    {
+      RCLCPP_ERROR(
+        get_logger(),
+        "Controller '%s' is chainable, but does not export any state or reference interfaces. "
+        "Did you override the on_export_state_interfaces_list() or "
+        "on_export_reference_interfaces_list() methods correctly?",
+        controller_name.c_str());
+    }
+  }
+  catch (const std::exception & e)
+  {
+    RCLCPP_FATAL(
+      get_logger(), "Export of the state or reference interfaces failed with following error: %s",
+      e.what());
+    params_->handle_exceptions ? void() : throw;
+    state_interfaces.clear();
+    ref_interfaces.clear();
+  }
+  resource_manager_->import_controller_reference_interfaces(controller_name, ref_interfaces);
+  resource_manager_->import_controller_exported_state_interfaces(controller_name, state_interfaces);
+  // make all the exported interfaces of the controller unavailable
+  controller.c->set_chained_mode(false);
+  resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
+  resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
+  return !ref_interfaces.empty() || !state_interfaces.empty();
+}
+
 }  // namespace controller_manager
-- 
2.43.0


From e8502c44b3950eb61945dc66ffa32a0e07d87237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 70/95] fix: command limiter looks up states while interfaces
 are being added or removed

---
 hardware_interface/src/resource_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index f66cb29..ab0a584 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1137,6 +1137,9 @@ public:
                                     double value, bool & is_limited) -> double
           {
             is_limited = false;
+            // the interfaces may be added and removed, and the limits of the joint enforced, by
+            // other threads
+            std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
             joint_limits::JointInterfacesCommandLimiterData data;
             data.set_joint_name(joint_name);
             update_joint_limiters_data(data.joint_name, state_interface_map_, data.actual);
-- 
2.43.0


From ccd68d7d69ae6677fcaf568cbfe8f94eb2014c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:43 +0000
Subject: [PATCH 71/95] fix: control loop and services race for the list of
 controllers

---
 .../controller_manager/controller_manager.hpp        |  4 ++--
 controller_manager/src/controller_manager.cpp        | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 1a53e86..618a35c 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -663,9 +663,9 @@ private:
 
     std::vector<ControllerSpec> controllers_lists_[2];
     /// The index of the controller list with the most updated information
-    int updated_controllers_index_ = 0;
+    std::atomic<int> updated_controllers_index_ = 0;
     /// The index of the controllers list being used in the real-time thread.
-    int used_by_realtime_controllers_index_ = -1;
+    std::atomic<int> used_by_realtime_controllers_index_ = -1;
     /// The callback to be called when the list is switched
     std::function<void()> on_switch_callback_ = nullptr;
   };
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index cea5a3d..cd6328d 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3793,8 +3793,16 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
 std::vector<ControllerSpec> &
 ControllerManager::RTControllerListWrapper::update_and_get_used_by_rt_list()
 {
-  used_by_realtime_controllers_index_ = updated_controllers_index_;
-  return controllers_lists_[used_by_realtime_controllers_index_];
+  // announce the list before using it and make sure that it was not switched in the meantime, as
+  // the outdated list may be modified as soon as it is not announced
+  int index = updated_controllers_index_;
+  used_by_realtime_controllers_index_ = index;
+  while (index != updated_controllers_index_)
+  {
+    index = updated_controllers_index_;
+    used_by_realtime_controllers_index_ = index;
+  }
+  return controllers_lists_[index];
 }
 
 std::vector<ControllerSpec> & ControllerManager::RTControllerListWrapper::get_unused_list(
-- 
2.43.0


From 8f1e5b4ccfbc237bff3c149f77a757f8520d3c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:43 +0000
Subject: [PATCH 72/95] fix: control loop deadlocks with a service waiting for
 it after a controller or hardware failure

---
 .../controller_manager/controller_manager.hpp |  3 ++
 controller_manager/src/controller_manager.cpp | 45 ++++++++++---------
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 618a35c..646d1c7 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -535,6 +535,9 @@ private:
    */
   void publish_activity();
 
+  /// Publishes the activity of the given controllers, without locking the list of controllers.
+  void publish_controllers_activity(const std::vector<ControllerSpec> & controllers);
+
   void controller_activity_diagnostic_callback(diagnostic_updater::DiagnosticStatusWrapper & stat);
 
   void hardware_components_diagnostic_callback(diagnostic_updater::DiagnosticStatusWrapper & stat);
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index cd6328d..5438ea2 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3649,8 +3649,9 @@ controller_interface::return_type ControllerManager::update(
         rt_controller_list, rt_buffer_.fallback_controllers_list,
         controller_manager_msgs::srv::SwitchController::Request::STRICT);
     }
-    // To publish the activity of the failing controllers and the fallback controllers
-    publish_activity();
+    // To publish the activity of the failing controllers and the fallback controllers. The list of
+    // controllers is not locked here, as a service holding that lock may wait for this cycle
+    publish_controllers_activity(rt_controller_list);
   }
   resource_manager_->enforce_command_limits(period);
 
@@ -3712,7 +3713,8 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
   else if (result == hardware_interface::return_type::DEACTIVATE)
   {
     rt_buffer_.deactivate_controllers_list.clear();
-    auto loaded_controllers = get_loaded_controllers();
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     // Only stop controllers with active command interfaces to the failed_hardware_names
     for (const auto & hardware_name : failed_hardware_names)
     {
@@ -3720,10 +3722,9 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       for (const auto & controller : controllers)
       {
         auto controller_spec = std::find_if(
-          loaded_controllers.begin(), loaded_controllers.end(),
-          [&](const controller_manager::ControllerSpec & spec)
-          { return spec.c->get_name() == controller; });
-        if (controller_spec == loaded_controllers.end())
+          rt_controller_list.begin(), rt_controller_list.end(),
+          std::bind(controller_name_compare, std::placeholders::_1, controller));
+        if (controller_spec == rt_controller_list.end())
         {
           RCLCPP_WARN(
             get_logger(),
@@ -3747,8 +3748,6 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       "Deactivating controllers [%s] as their command interfaces are tied to DEACTIVATEing "
       "hardware components",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
 
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
@@ -4312,23 +4311,25 @@ ControllerManager::check_fallback_controllers_state_pre_activation(
 }
 
 void ControllerManager::publish_activity()
+{
+  // lock controllers
+  std::lock_guard<RTControllerListWrapper::controllers_lock_type> guard(
+    rt_controllers_wrapper_.controllers_lock_);
+  publish_controllers_activity(rt_controllers_wrapper_.get_updated_list(guard));
+}
+
+void ControllerManager::publish_controllers_activity(
+  const std::vector<ControllerSpec> & controllers)
 {
   controller_manager_msgs::msg::ControllerManagerActivity status_msg;
   status_msg.header.stamp = get_clock()->now();
+  for (const auto & controller : controllers)
   {
-    // lock controllers
-    std::lock_guard<RTControllerListWrapper::controllers_lock_type> guard(
-      rt_controllers_wrapper_.controllers_lock_);
-    const std::vector<ControllerSpec> & controllers =
-      rt_controllers_wrapper_.get_updated_list(guard);
-    for (const auto & controller : controllers)
-    {
-      controller_manager_msgs::msg::NamedLifecycleState lifecycle_info;
-      lifecycle_info.name = controller.info.name;
-      lifecycle_info.state.id = controller.c->get_lifecycle_state().id();
-      lifecycle_info.state.label = controller.c->get_lifecycle_state().label();
-      status_msg.controllers.push_back(lifecycle_info);
-    }
+    controller_manager_msgs::msg::NamedLifecycleState lifecycle_info;
+    lifecycle_info.name = controller.info.name;
+    lifecycle_info.state.id = controller.c->get_lifecycle_state().id();
+    lifecycle_info.state.label = controller.c->get_lifecycle_state().label();
+    status_msg.controllers.push_back(lifecycle_info);
   }
   {
     const auto hw_components_info = resource_manager_->get_components_status();
-- 
2.43.0


From 4a6c011e0e8aff2ee6d13a31e400feb137ac900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:26 +0000
Subject: [PATCH 73/95] fix: wrong controllers are deactivated when the
 hardware fails

---
 controller_manager/src/controller_manager.cpp | 25 ++++++-------------
 hardware_interface/src/resource_manager.cpp   |  8 ++++++
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 5438ea2..94e1e91 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2269,24 +2269,6 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       extract_command_interfaces_for_controller(
         controller, resource_manager_, switch_params_.deactivate_command_interface_request);
     }
-
-    // cache mapping between hardware and controllers for stopping when read/write error happens
-    // TODO(destogl): This caching approach is suboptimal because the cache can fast become
-    // outdated. Keeping it up to date is not easy because of stopping controllers from multiple
-    // threads maybe we should not at all cache this but always search for the related controllers
-    // to a hardware when error in hardware happens
-    if (in_activate_list)
-    {
-      std::vector<std::string> interface_names =
-        get_command_interfaces_names(controller.c, resource_manager_);
-
-      std::vector<std::string> state_interfaces =
-        get_state_interfaces_names(controller.c, resource_manager_);
-      interface_names.insert(
-        interface_names.end(), state_interfaces.begin(), state_interfaces.end());
-
-      resource_manager_->cache_controller_to_hardware(controller.info.name, interface_names);
-    }
   }
 
   if (switch_params_.activate_request.empty() && switch_params_.deactivate_request.empty())
@@ -2829,6 +2811,13 @@ void ControllerManager::activate_controllers(
     }
     controller->assign_interfaces(std::move(command_loans), std::move(state_loans));
 
+    // cache mapping between hardware and controllers for stopping when read/write error happens.
+    // This is done for every activation, including the one of the fallback controllers
+    std::vector<std::string> interface_names = command_interface_names;
+    interface_names.insert(
+      interface_names.end(), state_interface_names.begin(), state_interface_names.end());
+    resource_manager_->cache_controller_to_hardware(controller_name, interface_names);
+
     auto new_state = controller->get_lifecycle_state();
     try
     {
diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index ab0a584..0e8b763 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1875,6 +1875,13 @@ void ResourceManager::remove_controller_reference_interfaces(const std::string &
 void ResourceManager::cache_controller_to_hardware(
   const std::string & controller_name, const std::vector<std::string> & interfaces)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
+  // forget the hardware that the controller used before
+  for (auto & [hw_name, controllers] : resource_storage_->hardware_used_by_controllers_)
+  {
+    controllers.erase(
+      std::remove(controllers.begin(), controllers.end(), controller_name), controllers.end());
+  }
   for (const auto & interface : interfaces)
   {
     bool found = false;
@@ -1915,6 +1922,7 @@ void ResourceManager::cache_controller_to_hardware(
 std::vector<std::string> ResourceManager::get_cached_controllers_to_hardware(
   const std::string & hardware_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   return resource_storage_->hardware_used_by_controllers_[hardware_name];
 }
 
-- 
2.43.0


From acd812eed3163f4cd3338f743cd63e9d1cfc742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 74/95] fix: hardware deactivating itself stops controllers
 that only command other hardware

---
 controller_manager/src/controller_manager.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 94e1e91..17abab8 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3705,8 +3705,11 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
     std::vector<ControllerSpec> & rt_controller_list =
       rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     // Only stop controllers with active command interfaces to the failed_hardware_names
+    const auto hardware_info = resource_manager_->get_components_status();
     for (const auto & hardware_name : failed_hardware_names)
     {
+      const auto & hardware_command_interfaces =
+        hardware_info.at(hardware_name).command_interfaces;
       auto controllers = resource_manager_->get_cached_controllers_to_hardware(hardware_name);
       for (const auto & controller : controllers)
       {
@@ -3725,10 +3728,14 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
         std::vector<std::string> command_interface_names;
         extract_command_interfaces_for_controller(
           *controller_spec, resource_manager_, command_interface_names);
-        // if this controller has command interfaces add it to the deactivate_controllers_list
-        if (!command_interface_names.empty())
+        // if this controller has command interfaces of the hardware, add it to the
+        // deactivate_controllers_list
+        if (std::any_of(
+              command_interface_names.begin(), command_interface_names.end(),
+              [&](const std::string & interface)
+              { return ros2_control::has_item(hardware_command_interfaces, interface); }))
         {
-          rt_buffer_.deactivate_controllers_list.push_back(controller);
+          ros2_control::add_item(rt_buffer_.deactivate_controllers_list, controller);
         }
       }
     }
-- 
2.43.0


From ba459cbf89e4a262758ddf6d6885f716f41dd84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 75/95] fix: controllers chained with those stopped for failing
 hardware or fallback controllers stay active

---
 .../controller_manager/controller_manager.hpp |  9 ++++++++
 controller_manager/src/controller_manager.cpp | 22 +++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 646d1c7..2c89943 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -395,6 +395,15 @@ private:
    */
   void clear_requests();
 
+  /**
+   * Adds the controllers that are in a chain with one of the given controllers.
+   * \param[in] rt_controller_list list of controllers in the real-time list.
+   * \param[in,out] controllers_list list of controllers to be extended.
+   */
+  void add_controllers_of_chain_groups(
+    const std::vector<ControllerSpec> & rt_controller_list,
+    std::vector<std::string> & controllers_list) const;
+
   /**
    * Perform hardware command mode change for the given list of controllers to activate and
    * deactivate.
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 17abab8..7c4c4e9 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3369,6 +3369,7 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
     std::vector<ControllerSpec> & rt_controller_list =
       rt_controllers_wrapper_.update_and_get_used_by_rt_list();
+    add_controllers_of_chain_groups(rt_controller_list, rt_buffer_.deactivate_controllers_list);
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "read");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
@@ -3609,6 +3610,9 @@ controller_interface::return_type ControllerManager::update(
       }
     }
 
+    add_controllers_of_chain_groups(
+      rt_controller_list, rt_buffer_.activate_controllers_using_interfaces_list);
+
     RCLCPP_ERROR(
       get_logger(), "Deactivating controllers : [ %s] as their update resulted in an error!",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
@@ -3693,6 +3697,7 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
     std::vector<ControllerSpec> & rt_controller_list =
       rt_controllers_wrapper_.update_and_get_used_by_rt_list();
+    add_controllers_of_chain_groups(rt_controller_list, rt_buffer_.deactivate_controllers_list);
 
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
@@ -3745,6 +3750,7 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       "hardware components",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
 
+    add_controllers_of_chain_groups(rt_controller_list, rt_buffer_.deactivate_controllers_list);
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
@@ -3882,6 +3888,22 @@ unsigned int ControllerManager::get_update_rate() const { return update_rate_; }
 
 rclcpp::Clock::SharedPtr ControllerManager::get_trigger_clock() const { return trigger_clock_; }
 
+void ControllerManager::add_controllers_of_chain_groups(
+  const std::vector<ControllerSpec> & rt_controller_list,
+  std::vector<std::string> & controllers_list) const
+{
+  for (size_t i = 0, size = controllers_list.size(); i < size; ++i)
+  {
+    auto found_it = std::find_if(
+      rt_controller_list.begin(), rt_controller_list.end(),
+      std::bind(controller_name_compare, std::placeholders::_1, controllers_list[i]));
+    if (found_it != rt_controller_list.end() && is_controller_active(found_it->c))
+    {
+      ros2_control::add_items(controllers_list, found_it->controllers_chain_group);
+    }
+  }
+}
+
 void ControllerManager::perform_hardware_command_mode_change(
   const std::vector<ControllerSpec> & rt_controller_list,
   const std::vector<std::string> & activate_controllers_list,
-- 
2.43.0


From 1a76b7bb7ad3574493407cca175d96283cdaa2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 76/95] fix: hardware is told to stop the interfaces of an
 unrelated request when fallback controllers fail to activate

---
 controller_manager/src/controller_manager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 7c4c4e9..3bf2bf1 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2688,6 +2688,7 @@ void ControllerManager::activate_controllers(
   const std::vector<std::string> & controllers_to_activate, int strictness)
 {
   std::vector<std::string> failed_controllers_command_interfaces;
+  std::vector<std::string> all_command_interfaces;
   bool is_successful = true;
   // Make all chainable interfaces available before activating controllers
   for (const auto & controller_name : controllers_to_activate)
@@ -2742,6 +2743,7 @@ void ControllerManager::activate_controllers(
     bool assignment_successful = true;
     const auto command_interface_names =
       get_command_interfaces_names(controller, resource_manager_);
+    ros2_control::add_items(all_command_interfaces, command_interface_names);
     std::vector<hardware_interface::LoanedCommandInterface> command_loans;
     command_loans.reserve(command_interface_names.size());
     for (const auto & command_interface : command_interface_names)
@@ -2873,10 +2875,8 @@ void ControllerManager::activate_controllers(
     // deactivate all controllers that were activated in this switch
     deactivate_controllers(rt_controller_list, controllers_to_activate);
     if (
-      !resource_manager_->prepare_command_mode_switch(
-        {}, switch_params_.activate_command_interface_request) ||
-      !resource_manager_->perform_command_mode_switch(
-        {}, switch_params_.activate_command_interface_request))
+      !resource_manager_->prepare_command_mode_switch({}, all_command_interfaces) ||
+      !resource_manager_->perform_command_mode_switch({}, all_command_interfaces))
     {
       RCLCPP_ERROR(
         get_logger(),
-- 
2.43.0


From 9c9af0f6a557e7f9ce3e308ab180481cc325a24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 77/95] fix: switch requests that time out are cleared while
 the control loop is using them

---
 .../controller_manager/controller_manager.hpp | 19 +++++++++++++++----
 controller_manager/src/controller_manager.cpp | 19 ++++++++++++++-----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 2c89943..1e30970 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -764,13 +764,24 @@ private:
     std::condition_variable cv;
     std::mutex mutex;
 
+    // mutex protecting the requests below once the switch is started, as a request that timed out
+    // may be cleared while the control loop is still looking at it
+    mutable std::mutex requests_mutex;
+
     bool skip_cycle(const controller_manager::ControllerSpec & spec) const
     {
       const std::string controller_name = spec.info.name;
-      return ros2_control::has_item(activate_request, controller_name) ||
-             ros2_control::has_item(deactivate_request, controller_name) ||
-             ros2_control::has_item(to_chained_mode_request, controller_name) ||
-             ros2_control::has_item(from_chained_mode_request, controller_name);
+      std::lock_guard<std::mutex> guard(requests_mutex);
+      return do_switch && (ros2_control::has_item(activate_request, controller_name) ||
+                           ros2_control::has_item(deactivate_request, controller_name) ||
+                           ros2_control::has_item(to_chained_mode_request, controller_name) ||
+                           ros2_control::has_item(from_chained_mode_request, controller_name));
+    }
+
+    bool is_being_deactivated(const controller_manager::ControllerSpec & spec) const
+    {
+      std::lock_guard<std::mutex> guard(requests_mutex);
+      return do_switch && ros2_control::has_item(deactivate_request, spec.info.name);
     }
 
     // The controllers list to activate and deactivate
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 3bf2bf1..231f24f 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1794,6 +1794,7 @@ controller_interface::return_type ControllerManager::configure_controller(
 
 void ControllerManager::clear_requests()
 {
+  std::lock_guard<std::mutex> guard(switch_params_.requests_mutex);
   switch_params_.do_switch = false;
   switch_params_.ready_to_switch = false;
   switch_params_.activate_asap = false;
@@ -3382,12 +3383,22 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
 
 void ControllerManager::manage_switch()
 {
-  std::unique_lock<std::mutex> guard(switch_params_.mutex, std::try_to_lock);
-  if (!guard.owns_lock())
+  std::unique_lock<std::mutex> guard(switch_params_.mutex, std::defer_lock);
+  if (!switch_params_.activate_asap)
+  {
+    // not called by the control loop, which holds the mutex while it is handling failures
+    guard.lock();
+  }
+  else if (!guard.try_lock())
   {
     RCLCPP_DEBUG(get_logger(), "Unable to lock switch mutex. Retrying in next cycle.");
     return;
   }
+  if (!switch_params_.do_switch)
+  {
+    RCLCPP_DEBUG(get_logger(), "The switch timed out in the meantime.");
+    return;
+  }
   const auto start_time = std::chrono::steady_clock::now();
   // Ask hardware interfaces to change mode
   if (!resource_manager_->perform_command_mode_switch(
@@ -3491,9 +3502,7 @@ controller_interface::return_type ControllerManager::update(
     {
       if (
         switch_params_.do_switch && loaded_controller.c->is_async() &&
-        std::find(
-          switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
-          loaded_controller.info.name) != switch_params_.deactivate_request.end())
+        switch_params_.is_being_deactivated(loaded_controller))
       {
         RCLCPP_DEBUG(
           get_logger(), "Skipping update for async controller '%s' as it is being deactivated",
-- 
2.43.0


From 0c2db9ef6c90fc8d72b2b92cc536b5cbfe25bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 78/95] fix: failures in the control loop and switches
 performed by services change controllers at the same time

---
 controller_manager/src/controller_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 231f24f..ae45526 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3371,6 +3371,8 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
     std::vector<ControllerSpec> & rt_controller_list =
       rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     add_controllers_of_chain_groups(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    // a service may be performing a switch at the same time
+    std::lock_guard<std::mutex> switch_guard(switch_params_.mutex);
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "read");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
@@ -3640,6 +3642,8 @@ controller_interface::return_type ControllerManager::update(
       ros2_control::add_item(rt_buffer_.deactivate_controllers_list, controller);
     };
 
+    // a service may be performing a switch at the same time
+    std::lock_guard<std::mutex> switch_guard(switch_params_.mutex);
     // Retrieve the interfaces to start and stop from the hardware end
     perform_hardware_command_mode_change(
       rt_controller_list, rt_buffer_.fallback_controllers_list,
@@ -3708,6 +3712,8 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     add_controllers_of_chain_groups(rt_controller_list, rt_buffer_.deactivate_controllers_list);
 
+    // a service may be performing a switch at the same time
+    std::lock_guard<std::mutex> switch_guard(switch_params_.mutex);
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
@@ -3760,6 +3766,8 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
 
     add_controllers_of_chain_groups(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    // a service may be performing a switch at the same time
+    std::lock_guard<std::mutex> switch_guard(switch_params_.mutex);
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
-- 
2.43.0


From 70feebf145021cb0b04c473278d3dc0fd7f372eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 79/95] fix: interfaces of asynchronous controllers are
 released while they are updating when stopped by the control loop

---
 controller_manager/src/controller_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index ae45526..d75c434 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2600,6 +2600,8 @@ void ControllerManager::deactivate_controllers(
     {
       try
       {
+        // an update in the thread of an asynchronous controller still uses the interfaces
+        controller->prepare_for_deactivation();
         const auto new_state = controller->get_node()->deactivate();
         controller->release_interfaces();
 
-- 
2.43.0


From 135bd144bb9e1d24025b7992dd622e4346e134ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:44 +0000
Subject: [PATCH 80/95] fix: controller that refuses its deactivation stays
 active without its interfaces

---
 controller_manager/src/controller_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d75c434..9e90d2d 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2603,6 +2603,14 @@ void ControllerManager::deactivate_controllers(
         // an update in the thread of an asynchronous controller still uses the interfaces
         controller->prepare_for_deactivation();
         const auto new_state = controller->get_node()->deactivate();
+        if (is_controller_active(*controller))
+        {
+          RCLCPP_ERROR(
+            get_logger(), "Controller '%s' refused its deactivation and stays active",
+            controller_name.c_str());
+          controller->cancel_deactivation();
+          continue;
+        }
         controller->release_interfaces();
 
         // if it is a chainable controller, make the reference interfaces unavailable on
-- 
2.43.0


From 7d191ec3ae7491f35d6100856d6da464a2b2bf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:08 +0000
Subject: [PATCH 81/95] fix: fallback controllers disturb active controllers
 and leave the controllers they use out of the chained mode

---
 .../controller_manager/controller_manager.hpp |   2 +
 controller_manager/src/controller_manager.cpp | 138 +++++++++++++-----
 2 files changed, 103 insertions(+), 37 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 1e30970..66ff300 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -802,6 +802,7 @@ private:
       deactivate_controllers_list.reserve(1000);
       activate_controllers_using_interfaces_list.reserve(1000);
       fallback_controllers_list.reserve(1000);
+      chained_controllers_list.reserve(1000);
       interfaces_to_start.reserve(1000);
       interfaces_to_stop.reserve(1000);
       concatenated_string.reserve(5000);
@@ -825,6 +826,7 @@ private:
     std::vector<std::string> deactivate_controllers_list;
     std::vector<std::string> activate_controllers_using_interfaces_list;
     std::vector<std::string> fallback_controllers_list;
+    std::vector<std::string> chained_controllers_list;
     std::vector<std::string> interfaces_to_start;
     std::vector<std::string> interfaces_to_stop;
     std::string concatenated_string;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 9e90d2d..5e9d3ca 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -331,6 +331,50 @@ void extract_command_interfaces_for_controller(
     request_interface_list.end(), command_interface_names.begin(), command_interface_names.end());
 }
 
+/// Orders the given controllers such that those exporting interfaces precede those using them
+void order_controllers_for_activation(
+  const std::vector<controller_manager::ControllerSpec> & controllers,
+  std::vector<std::string> & controllers_to_activate,
+  const std::unique_ptr<hardware_interface::ResourceManager> & resource_manager)
+{
+  std::vector<std::string> visited_controllers, ordered_controllers;
+  const std::function<void(const std::string &)> add_controller = [&](const std::string & name)
+  {
+    if (
+      !ros2_control::has_item(controllers_to_activate, name) ||
+      ros2_control::has_item(visited_controllers, name))
+    {
+      return;
+    }
+    visited_controllers.push_back(name);
+    const auto controller_it = std::find_if(
+      controllers.begin(), controllers.end(),
+      std::bind(controller_name_compare, std::placeholders::_1, name));
+    if (controller_it != controllers.end())
+    {
+      for (const auto & interfaces :
+           {get_command_interfaces_names(controller_it->c, resource_manager),
+            get_state_interfaces_names(controller_it->c, resource_manager)})
+      {
+        for (const auto & interface : interfaces)
+        {
+          controller_manager::ControllersListIterator exporting_ctrl_it;
+          if (is_interface_a_chained_interface(interface, controllers, exporting_ctrl_it))
+          {
+            add_controller(exporting_ctrl_it->info.name);
+          }
+        }
+      }
+    }
+    ordered_controllers.push_back(name);
+  };
+  for (const auto & controller : controllers_to_activate)
+  {
+    add_controller(controller);
+  }
+  controllers_to_activate = ordered_controllers;
+}
+
 controller_interface::return_type evaluate_switch_result(
   const std::unique_ptr<hardware_interface::ResourceManager> & resource_manager,
   const std::vector<std::string> & activate_list, const std::vector<std::string> & deactivate_list,
@@ -2280,41 +2324,8 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     return controller_interface::return_type::OK;
   }
 
-  // activate the controllers exporting interfaces before those using them
-  std::vector<std::string> visited_controllers, ordered_activate_request;
-  const std::function<void(const std::string &)> add_to_ordered_request =
-    [&](const std::string & name)
-  {
-    if (
-      !ros2_control::has_item(switch_params_.activate_request, name) ||
-      ros2_control::has_item(visited_controllers, name))
-    {
-      return;
-    }
-    visited_controllers.push_back(name);
-    const auto controller_it = std::find_if(
-      controllers.begin(), controllers.end(),
-      std::bind(controller_name_compare, std::placeholders::_1, name));
-    for (const auto & interfaces :
-         {get_command_interfaces_names(controller_it->c, resource_manager_),
-          get_state_interfaces_names(controller_it->c, resource_manager_)})
-    {
-      for (const auto & interface : interfaces)
-      {
-        ControllersListIterator exporting_ctrl_it;
-        if (is_interface_a_chained_interface(interface, controllers, exporting_ctrl_it))
-        {
-          add_to_ordered_request(exporting_ctrl_it->info.name);
-        }
-      }
-    }
-    ordered_activate_request.push_back(name);
-  };
-  for (const auto & controller : switch_params_.activate_request)
-  {
-    add_to_ordered_request(controller);
-  }
-  switch_params_.activate_request = ordered_activate_request;
+  order_controllers_for_activation(
+    controllers, switch_params_.activate_request, resource_manager_);
 
   if (
     check_for_interfaces_availability_to_activate(
@@ -3613,16 +3624,32 @@ controller_interface::return_type ControllerManager::update(
   {
     rt_buffer_.fallback_controllers_list.clear();
     rt_buffer_.activate_controllers_using_interfaces_list.clear();
+    rt_buffer_.chained_controllers_list.clear();
 
+    const auto is_active = [&](const std::string & name)
+    {
+      auto ctrl_it = std::find_if(
+        rt_controller_list.begin(), rt_controller_list.end(),
+        std::bind(controller_name_compare, std::placeholders::_1, name));
+      return ctrl_it != rt_controller_list.end() && is_controller_active(ctrl_it->c);
+    };
     for (const auto & failed_ctrl : rt_buffer_.deactivate_controllers_list)
     {
       auto ctrl_it = std::find_if(
         rt_controller_list.begin(), rt_controller_list.end(),
         std::bind(controller_name_compare, std::placeholders::_1, failed_ctrl));
-      if (ctrl_it != rt_controller_list.end())
+      if (ctrl_it != rt_controller_list.end() && is_controller_active(ctrl_it->c))
       {
         for (const auto & fallback_controller : ctrl_it->info.fallback_controllers_names)
         {
+          // a fallback controller that stays active does not need to be activated
+          if (
+            is_active(fallback_controller) && !ros2_control::has_item(
+                                                rt_buffer_.deactivate_controllers_list,
+                                                fallback_controller))
+          {
+            continue;
+          }
           ros2_control::add_item(rt_buffer_.fallback_controllers_list, fallback_controller);
           get_active_controllers_using_command_interfaces_of_controller(
             fallback_controller, rt_controller_list,
@@ -3630,7 +3657,6 @@ controller_interface::return_type ControllerManager::update(
         }
       }
     }
-
     add_controllers_of_chain_groups(
       rt_controller_list, rt_buffer_.activate_controllers_using_interfaces_list);
 
@@ -3652,6 +3678,43 @@ controller_interface::return_type ControllerManager::update(
       ros2_control::add_item(rt_buffer_.deactivate_controllers_list, controller);
     };
 
+    // the controllers whose references are used by the fallback controllers have to be in the
+    // chained mode, those that stay active have to be restarted for that
+    const std::vector<std::string> fallback_controllers = rt_buffer_.fallback_controllers_list;
+    for (const auto & fallback_controller : fallback_controllers)
+    {
+      auto ctrl_it = std::find_if(
+        rt_controller_list.begin(), rt_controller_list.end(),
+        std::bind(controller_name_compare, std::placeholders::_1, fallback_controller));
+      if (ctrl_it == rt_controller_list.end())
+      {
+        continue;
+      }
+      for (const auto & cmd_itf : get_command_interfaces_names(ctrl_it->c, resource_manager_))
+      {
+        ControllersListIterator following_ctrl_it;
+        if (!is_interface_a_chained_interface(cmd_itf, rt_controller_list, following_ctrl_it))
+        {
+          continue;
+        }
+        const std::string & following_name = following_ctrl_it->info.name;
+        if (
+          is_controller_active(following_ctrl_it->c) &&
+          !ros2_control::has_item(rt_buffer_.deactivate_controllers_list, following_name) &&
+          !following_ctrl_it->c->is_in_chained_mode())
+        {
+          ros2_control::add_item(rt_buffer_.deactivate_controllers_list, following_name);
+          ros2_control::add_item(rt_buffer_.fallback_controllers_list, following_name);
+        }
+        if (ros2_control::has_item(rt_buffer_.fallback_controllers_list, following_name))
+        {
+          ros2_control::add_item(rt_buffer_.chained_controllers_list, following_name);
+        }
+      }
+    }
+    order_controllers_for_activation(
+      rt_controller_list, rt_buffer_.fallback_controllers_list, resource_manager_);
+
     // a service may be performing a switch at the same time
     std::lock_guard<std::mutex> switch_guard(switch_params_.mutex);
     // Retrieve the interfaces to start and stop from the hardware end
@@ -3661,6 +3724,7 @@ controller_interface::return_type ControllerManager::update(
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
     if (!rt_buffer_.fallback_controllers_list.empty())
     {
+      switch_chained_mode(rt_buffer_.chained_controllers_list, true);
       activate_controllers(
         rt_controller_list, rt_buffer_.fallback_controllers_list,
         controller_manager_msgs::srv::SwitchController::Request::STRICT);
-- 
2.43.0


From 3958993bf34a702e5f093fbe275495d17f01ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:02 +0000
Subject: [PATCH 82/95] fix: control loop throws when a fallback controller is
 not configured

---
 controller_manager/src/controller_manager.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 5e9d3ca..d9f438a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2720,7 +2720,8 @@ void ControllerManager::activate_controllers(
       std::bind(controller_name_compare, std::placeholders::_1, controller_name));
     if (found_it != rt_controller_list.end())
     {
-      if (found_it->c->is_chainable())
+      // fallback controllers may be in any state, only inactive ones can be activated
+      if (found_it->c->is_chainable() && is_controller_inactive(found_it->c))
       {
         RCLCPP_DEBUG(
           get_logger(),
@@ -2758,6 +2759,18 @@ void ControllerManager::activate_controllers(
       continue;
     }
     auto controller = found_it->c;
+    if (!is_controller_inactive(controller))
+    {
+      RCLCPP_ERROR(
+        get_logger(), "Controller '%s' is in state '%s' and can not be activated",
+        controller_name.c_str(), controller->get_lifecycle_state().label().c_str());
+      is_successful = false;
+      if (controller->is_chainable() && !is_controller_active(controller))
+      {
+        controller->set_chained_mode(false);
+      }
+      continue;
+    }
     // reset the last update cycle time for newly activated controllers
     *found_it->last_update_cycle_time =
       rclcpp::Time(0, 0, this->get_trigger_clock()->get_clock_type());
-- 
2.43.0


From 4c687acb06261b028075d359ddcfa2a9de5738b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:40 +0000
Subject: [PATCH 83/95] fix: control loop waits for a service loading a
 controller when hardware is deactivated

---
 .../controller_manager/controller_manager.hpp |  6 +++++
 controller_manager/src/controller_manager.cpp | 22 +++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 66ff300..f517d9c 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -15,6 +15,7 @@
 #ifndef CONTROLLER_MANAGER__CONTROLLER_MANAGER_HPP_
 #define CONTROLLER_MANAGER__CONTROLLER_MANAGER_HPP_
 
+#include <atomic>
 #include <map>
 #include <memory>
 #include <string>
@@ -544,6 +545,9 @@ private:
    */
   void publish_activity();
 
+  /// Publishes the activity, or leaves it to the next cycle if the list of controllers is locked.
+  void try_publish_activity();
+
   /// Publishes the activity of the given controllers, without locking the list of controllers.
   void publish_controllers_activity(const std::vector<ControllerSpec> & controllers);
 
@@ -740,6 +744,8 @@ private:
 
   ControllerManagerExecutionTime execution_time_;
 
+  std::atomic<bool> activity_publication_pending_ = false;
+
   controller_manager::MovingAverageStatistics periodicity_stats_;
 
   struct SwitchParams
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d9f438a..79a6ee1 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -705,7 +705,7 @@ void ControllerManager::init_controller_manager()
   if (resource_manager_)
   {
     resource_manager_->set_on_component_state_switch_callback(
-      std::bind(&ControllerManager::publish_activity, this));
+      std::bind(&ControllerManager::try_publish_activity, this));
   }
 
   // Setup diagnostics
@@ -870,7 +870,7 @@ void ControllerManager::init_resource_manager(const std::string & robot_descript
   }
 
   resource_manager_->set_on_component_state_switch_callback(
-    std::bind(&ControllerManager::publish_activity, this));
+    std::bind(&ControllerManager::try_publish_activity, this));
 
   if (robot_description.empty())
   {
@@ -3859,6 +3859,10 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
   }
+  if (activity_publication_pending_)
+  {
+    try_publish_activity();
+  }
   execution_time_.write_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - start_time)
       .count();
@@ -4440,6 +4444,20 @@ void ControllerManager::publish_activity()
   publish_controllers_activity(rt_controllers_wrapper_.get_updated_list(guard));
 }
 
+void ControllerManager::try_publish_activity()
+{
+  // The components also change their states in the control loop, that must not wait for a service
+  std::unique_lock<RTControllerListWrapper::controllers_lock_type> guard(
+    rt_controllers_wrapper_.controllers_lock_, std::try_to_lock);
+  if (!guard.owns_lock())
+  {
+    activity_publication_pending_ = true;
+    return;
+  }
+  activity_publication_pending_ = false;
+  publish_activity();
+}
+
 void ControllerManager::publish_controllers_activity(
   const std::vector<ControllerSpec> & controllers)
 {
-- 
2.43.0


From ed18f49ff5763ad1cff55926c087648e1285c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 84/95] fix: services performing switches overwrite the
 execution times of the control loop

---
 controller_manager/src/controller_manager.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 79a6ee1..fb59e1a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3435,6 +3435,10 @@ void ControllerManager::manage_switch()
     RCLCPP_DEBUG(get_logger(), "The switch timed out in the meantime.");
     return;
   }
+  // only switches performed by the control loop are part of its execution time
+  ControllerManagerExecutionTime service_execution_time;
+  ControllerManagerExecutionTime & execution_time =
+    switch_params_.activate_asap ? execution_time_ : service_execution_time;
   const auto start_time = std::chrono::steady_clock::now();
   // Ask hardware interfaces to change mode
   if (!resource_manager_->perform_command_mode_switch(
@@ -3447,7 +3451,7 @@ void ControllerManager::manage_switch()
     switch_params_.cv.notify_all();
     return;
   }
-  execution_time_.switch_perform_mode_time =
+  execution_time.switch_perform_mode_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - start_time)
       .count();
 
@@ -3456,7 +3460,7 @@ void ControllerManager::manage_switch()
 
   const auto deact_start_time = std::chrono::steady_clock::now();
   deactivate_controllers(rt_controller_list, switch_params_.deactivate_request);
-  execution_time_.deactivation_time =
+  execution_time.deactivation_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - deact_start_time)
       .count();
 
@@ -3467,7 +3471,7 @@ void ControllerManager::manage_switch()
     get_logger(),
     "Switching  %lu controllers to chained mode and %lu controllers from chained mode",
     switch_params_.to_chained_mode_request.size(), switch_params_.from_chained_mode_request.size());
-  execution_time_.switch_chained_mode_time =
+  execution_time.switch_chained_mode_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - chain_start_time)
       .count();
 
@@ -3475,14 +3479,14 @@ void ControllerManager::manage_switch()
   const auto act_start_time = std::chrono::steady_clock::now();
   activate_controllers(
     rt_controller_list, switch_params_.activate_request, switch_params_.strictness);
-  execution_time_.activation_time =
+  execution_time.activation_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - act_start_time)
       .count();
 
   // All controllers switched --> switching done
   switch_params_.do_switch = false;
   switch_params_.cv.notify_all();
-  execution_time_.switch_time =
+  execution_time.switch_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - start_time)
       .count();
 }
-- 
2.43.0


From 2f3ff2c43c0f2503e31929bceac859b38b3d03f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:45 +0000
Subject: [PATCH 85/95] fix: interfaces exported by a controller that failed
 stay registered after unloading it

---
 controller_manager/src/controller_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index fb59e1a..b9c5b95 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1489,6 +1489,9 @@ controller_interface::return_type ControllerManager::unload_controller(
     return controller_interface::return_type::ERROR;
   }
 
+  // For cases, when the controller ended up in the unconfigured or finalized state after an error
+  cleanup_controller_exported_interfaces(controller);
+
   RCLCPP_DEBUG(get_logger(), "Shutdown controller");
   controller_chain_spec_cleanup(controller_chain_spec_, controller_name);
   if (is_controller_inactive(*controller.c) || is_controller_unconfigured(*controller.c))
-- 
2.43.0


From 357632c689f3261e49358dcea42d5b4be8cd7bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:28 +0000
Subject: [PATCH 86/95] fix: controllers are configured, cleaned up or unloaded
 while their exported interfaces are used

---
 .../controller_manager/controller_manager.hpp |  4 ++
 controller_manager/src/controller_manager.cpp | 54 +++++++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index f517d9c..c08bf4f 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -566,6 +566,10 @@ private:
    */
   rclcpp::NodeOptions determine_controller_node_options(const ControllerSpec & controller) const;
 
+  /// Tells whether an active controller uses interfaces that are exported by the controller.
+  bool is_used_by_active_controllers(
+    const std::vector<ControllerSpec> & controllers, const std::string & controller_name) const;
+
   /**
    * @brief cleanup_controller_exported_interfaces - A method that cleans up the exported interfaces
    * of a chainable controller
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index b9c5b95..f7a6933 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1480,6 +1480,16 @@ controller_interface::return_type ControllerManager::unload_controller(
     return controller_interface::return_type::ERROR;
   }
 
+  // e.g., after an error while it was restarted
+  if (is_used_by_active_controllers(from, controller_name))
+  {
+    to.clear();
+    RCLCPP_ERROR(
+      get_logger(), "Could not unload controller with name '%s' because it is still used",
+      controller_name.c_str());
+    return controller_interface::return_type::ERROR;
+  }
+
   // call cleanup transition, if it is inactive
   if (
     is_controller_inactive(*controller.c) &&
@@ -1587,6 +1597,14 @@ controller_interface::return_type ControllerManager::cleanup_controller(
     return controller_interface::return_type::ERROR;
   }
 
+  if (is_used_by_active_controllers(controllers, controller_name))
+  {
+    RCLCPP_ERROR(
+      get_logger(), "Controller '%s' can not be cleaned-up while it is used.",
+      controller_name.c_str());
+    return controller_interface::return_type::ERROR;
+  }
+
   RCLCPP_DEBUG(get_logger(), "Calling cleanup for controller '%s'", controller_name.c_str());
   auto result = cleanup_controller(*found_it);
 
@@ -1667,6 +1685,14 @@ controller_interface::return_type ControllerManager::configure_controller(
     return controller_interface::return_type::ERROR;
   }
 
+  if (is_used_by_active_controllers(controllers, controller_name))
+  {
+    RCLCPP_ERROR(
+      get_logger(), "Controller '%s' can not be configured while it is used.",
+      controller_name.c_str());
+    return controller_interface::return_type::ERROR;
+  }
+
   if (state.id() == lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE)
   {
     RCLCPP_DEBUG(
@@ -5157,6 +5183,34 @@ rclcpp::NodeOptions ControllerManager::determine_controller_node_options(
   return controller_node_options;
 }
 
+bool ControllerManager::is_used_by_active_controllers(
+  const std::vector<ControllerSpec> & controllers, const std::string & controller_name) const
+{
+  for (const auto * cache :
+       {&controller_chained_reference_interfaces_cache_,
+        &controller_chained_state_interfaces_cache_})
+  {
+    const auto users = cache->find(controller_name);
+    if (users == cache->end())
+    {
+      continue;
+    }
+    for (const auto & controller : controllers)
+    {
+      if (
+        is_controller_active(controller.c) &&
+        ros2_control::has_item(users->second, controller.info.name))
+      {
+        RCLCPP_ERROR(
+          get_logger(), "The interfaces of controller '%s' are used by the active controller '%s'.",
+          controller_name.c_str(), controller.info.name.c_str());
+        return true;
+      }
+    }
+  }
+  return false;
+}
+
 void ControllerManager::cleanup_controller_exported_interfaces(const ControllerSpec & controller)
 {
   if (!is_controller_active(controller.c) && controller.c->is_chainable())
-- 
2.43.0


From 69bca8f7e1d39750a57ca71dcde390abc8b45e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:07 +0000
Subject: [PATCH 87/95] fix: activity is not published when failing hardware or
 services change the states

---
 controller_manager/src/controller_manager.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index f7a6933..8c88555 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3123,6 +3123,8 @@ void ControllerManager::configure_controller_service_cb(
   RCLCPP_DEBUG(get_logger(), "configuring service locked");
 
   response->ok = configure_controller(request->name) == controller_interface::return_type::OK;
+  // the state of the controller can change also when the request fails
+  publish_activity();
 
   RCLCPP_DEBUG(
     get_logger(), "configuring service finished for controller '%s' ", request->name.c_str());
@@ -3241,6 +3243,8 @@ void ControllerManager::unload_controller_service_cb(
   RCLCPP_DEBUG(get_logger(), "unloading service locked");
 
   response->ok = unload_controller(request->name) == controller_interface::return_type::OK;
+  // the state of the controller can change also when the request fails
+  publish_activity();
 
   RCLCPP_DEBUG(
     get_logger(), "unloading service finished for controller '%s' ", request->name.c_str());
@@ -3256,6 +3260,8 @@ void ControllerManager::cleanup_controller_service_cb(
   RCLCPP_DEBUG(get_logger(), "cleanup service locked");
 
   response->ok = cleanup_controller(request->name) == controller_interface::return_type::OK;
+  // the state of the controller can change also when the request fails
+  publish_activity();
 
   RCLCPP_DEBUG(
     get_logger(), "cleanup service finished for controller '%s' ", request->name.c_str());
@@ -3439,6 +3445,7 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "read");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    publish_controllers_activity(rt_controller_list);
     // TODO(destogl): do auto-start of broadcasters
   }
   execution_time_.read_time =
@@ -3837,6 +3844,7 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    publish_controllers_activity(rt_controller_list);
     // TODO(destogl): do auto-start of broadcasters
   }
   else if (result == hardware_interface::return_type::DEACTIVATE)
@@ -3891,6 +3899,7 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    publish_controllers_activity(rt_controller_list);
   }
   if (activity_publication_pending_)
   {
-- 
2.43.0


From 86a783099e29e1b1174ede1e732ae026a80eb34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:34 +0000
Subject: [PATCH 88/95] fix: controllers are used by the control loop, or left
 running, while they are shut down

On shutting down, the controllers were deactivated in the executor's thread
while the control loop was still updating them, and a controller that refused
its deactivation stayed active, with its interfaces taken away.
---
 .../controller_manager/controller_manager.hpp |  2 +
 controller_manager/src/controller_manager.cpp | 47 ++++++++++++++++---
 2 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index c08bf4f..d29b3da 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -692,6 +692,8 @@ private:
 
   bool use_sim_time_;
   rclcpp::Clock::SharedPtr trigger_clock_ = nullptr;
+  /// Held by the control loop while it uses the controllers, and while all of them are shut down.
+  std::recursive_mutex control_loop_mutex_;
   std::unique_ptr<rclcpp::PreShutdownCallbackHandle> preshutdown_cb_handle_{nullptr};
   RTControllerListWrapper rt_controllers_wrapper_;
   std::unordered_map<std::string, ControllerChainSpec> controller_chain_spec_;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 8c88555..25c93dd 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -671,20 +671,38 @@ bool ControllerManager::shutdown_controllers()
     rt_controllers_wrapper_.controllers_lock_);
   std::vector<ControllerSpec> controllers_list = rt_controllers_wrapper_.get_updated_list(guard);
   bool ctrls_shutdown_status = true;
-  for (auto & controller : controllers_list)
+  // The control loop is still running, it must not use the controllers in the meantime
+  const std::lock_guard<std::recursive_mutex> control_loop_guard(control_loop_mutex_);
+  std::vector<std::string> controllers_to_deactivate;
+  for (const auto & controller : controllers_list)
   {
     if (is_controller_active(controller.c))
     {
       RCLCPP_INFO(
         get_logger(), "Deactivating controller '%s'", controller.c->get_node()->get_name());
-      controller.c->get_node()->deactivate();
-      controller.c->release_interfaces();
+      controllers_to_deactivate.push_back(controller.info.name);
     }
-    if (is_controller_inactive(*controller.c) || is_controller_unconfigured(*controller.c))
+  }
+  deactivate_controllers(controllers_list, controllers_to_deactivate);
+  for (auto & controller : controllers_list)
+  {
+    if (
+      controller.c->get_lifecycle_state().id() !=
+      lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
     {
       RCLCPP_INFO(
         get_logger(), "Shutting down controller '%s'", controller.c->get_node()->get_name());
-      shutdown_controller(controller);
+      if (is_controller_active(controller.c))
+      {
+        // it refused its deactivation
+        controller.c->prepare_for_deactivation();
+        shutdown_controller(controller);
+        controller.c->release_interfaces();
+      }
+      else
+      {
+        shutdown_controller(controller);
+      }
     }
     ctrls_shutdown_status &=
       (controller.c->get_node()->get_current_state().id() ==
@@ -3418,7 +3436,9 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
   const auto start_time = std::chrono::steady_clock::now();
   auto [result, failed_hardware_names] = resource_manager_->read(time, period);
 
-  if (result != hardware_interface::return_type::OK)
+  const std::unique_lock<std::recursive_mutex> control_loop_guard(
+    control_loop_mutex_, std::try_to_lock);
+  if (result != hardware_interface::return_type::OK && control_loop_guard.owns_lock())
   {
     rt_buffer_.deactivate_controllers_list.clear();
     // Determine controllers to stop
@@ -3530,6 +3550,13 @@ void ControllerManager::manage_switch()
 controller_interface::return_type ControllerManager::update(
   const rclcpp::Time & time, const rclcpp::Duration & period)
 {
+  const std::unique_lock<std::recursive_mutex> control_loop_guard(
+    control_loop_mutex_, std::try_to_lock);
+  if (!control_loop_guard.owns_lock())
+  {
+    // the controllers are being shut down
+    return controller_interface::return_type::OK;
+  }
   const auto start_time = std::chrono::steady_clock::now();
   execution_time_.switch_time = 0.0;
   execution_time_.switch_chained_mode_time = 0.0;
@@ -3815,7 +3842,13 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
   const auto start_time = std::chrono::steady_clock::now();
   auto [result, failed_hardware_names] = resource_manager_->write(time, period);
 
-  if (result == hardware_interface::return_type::ERROR)
+  const std::unique_lock<std::recursive_mutex> control_loop_guard(
+    control_loop_mutex_, std::try_to_lock);
+  if (!control_loop_guard.owns_lock())
+  {
+    RCLCPP_DEBUG(get_logger(), "The controllers are being shut down.");
+  }
+  else if (result == hardware_interface::return_type::ERROR)
   {
     rt_buffer_.deactivate_controllers_list.clear();
     // Determine controllers to stop
-- 
2.43.0


From e15645fc6a05a0bb19abe65383ab783c44d35314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:05 +0000
Subject: [PATCH 89/95] fix: hardware is not told when a chain of controllers
 is stopped after a failed activation

---
 controller_manager/src/controller_manager.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 25c93dd..2cf56b3 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2947,6 +2947,18 @@ void ControllerManager::activate_controllers(
       resource_manager_->make_controller_reference_interfaces_available(controller_name);
     }
   }
+  // The interfaces exported by controllers that are not active anymore are not available, and
+  // a mode switch with unavailable interfaces is refused as a whole
+  const auto switch_back_interfaces = [this](std::vector<std::string> interfaces)
+  {
+    interfaces.erase(
+      std::remove_if(
+        interfaces.begin(), interfaces.end(), [this](const std::string & interface)
+        { return !resource_manager_->command_interface_is_available(interface); }),
+      interfaces.end());
+    return resource_manager_->prepare_command_mode_switch({}, interfaces) &&
+           resource_manager_->perform_command_mode_switch({}, interfaces);
+  };
   if (
     !is_successful && strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
   {
@@ -2956,9 +2968,7 @@ void ControllerManager::activate_controllers(
       "activated controllers because the switch strictness is set to STRICT.");
     // deactivate all controllers that were activated in this switch
     deactivate_controllers(rt_controller_list, controllers_to_activate);
-    if (
-      !resource_manager_->prepare_command_mode_switch({}, all_command_interfaces) ||
-      !resource_manager_->perform_command_mode_switch({}, all_command_interfaces))
+    if (!switch_back_interfaces(all_command_interfaces))
     {
       RCLCPP_ERROR(
         get_logger(),
@@ -2970,8 +2980,7 @@ void ControllerManager::activate_controllers(
   // interfaces
   else if (
     !failed_controllers_command_interfaces.empty() &&
-    (!resource_manager_->prepare_command_mode_switch({}, failed_controllers_command_interfaces) ||
-     !resource_manager_->perform_command_mode_switch({}, failed_controllers_command_interfaces)))
+    !switch_back_interfaces(failed_controllers_command_interfaces))
   {
     RCLCPP_ERROR(
       get_logger(),
-- 
2.43.0


From aea380e21920884f7689264a6d26bcdf0f50e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:49 +0000
Subject: [PATCH 90/95] fix: hardware is told to stop interfaces of running
 controllers, or nothing at all, after a failure

---
 controller_manager/src/controller_manager.cpp | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 2cf56b3..13d109e 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4103,12 +4103,30 @@ void ControllerManager::perform_hardware_command_mode_change(
 {
   rt_buffer_.interfaces_to_start.clear();
   rt_buffer_.interfaces_to_stop.clear();
-  get_controller_list_command_interfaces(
-    deactivate_controllers_list, rt_controller_list, resource_manager_,
-    rt_buffer_.interfaces_to_stop);
+  for (const auto & controller : rt_controller_list)
+  {
+    // inactive controllers do not use their interfaces, but others may
+    if (
+      is_controller_active(controller.c) &&
+      ros2_control::has_item(deactivate_controllers_list, controller.info.name))
+    {
+      extract_command_interfaces_for_controller(
+        controller, resource_manager_, rt_buffer_.interfaces_to_stop);
+    }
+  }
   get_controller_list_command_interfaces(
     activate_controllers_list, rt_controller_list, resource_manager_,
     rt_buffer_.interfaces_to_start);
+  // The interfaces of failed hardware, and those of chainable controllers that are not active yet,
+  // are not available, and a mode switch with unavailable interfaces is refused as a whole
+  for (auto * interfaces : {&rt_buffer_.interfaces_to_start, &rt_buffer_.interfaces_to_stop})
+  {
+    interfaces->erase(
+      std::remove_if(
+        interfaces->begin(), interfaces->end(), [this](const std::string & interface)
+        { return !resource_manager_->command_interface_is_available(interface); }),
+      interfaces->end());
+  }
   if (!rt_buffer_.interfaces_to_stop.empty() || !rt_buffer_.interfaces_to_start.empty())
   {
     if (!(resource_manager_->prepare_command_mode_switch(
-- 
2.43.0


From 742fe9f1906c8eed6366b759258ea6b95d0a3625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:58 +0000
Subject: [PATCH 91/95] fix: interfaces of a refused robot description are
 sampled after their destruction

---
 hardware_interface/src/resource_manager.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 0e8b763..c6da4e4 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1374,6 +1374,15 @@ public:
     systems_.clear();
 
     hardware_info_map_.clear();
+    // the interfaces must not be sampled once they are destroyed
+    for (const auto & [name, interface] : state_interface_map_)
+    {
+      interface->unregisterIntrospection();
+    }
+    for (const auto & [name, interface] : command_interface_map_)
+    {
+      interface->unregisterIntrospection();
+    }
     state_interface_map_.clear();
     command_interface_map_.clear();
 
-- 
2.43.0


From db50a7283a6b488cad32bb5f50bb47ca9e145d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:58 +0000
Subject: [PATCH 92/95] fix: introspection of hardware that refuses its
 deactivation stays disabled

---
 hardware_interface/src/hardware_component.cpp | 31 +++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index 5b37d48..e863910 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -33,6 +33,31 @@ namespace hardware_interface
 {
 using CallbackReturn = rclcpp_lifecycle::node_interfaces::LifecycleNodeInterface::CallbackReturn;
 
+namespace
+{
+/// Disables the introspection during a transition and enables it again if the hardware stays active
+class IntrospectionGuard
+{
+public:
+  explicit IntrospectionGuard(HardwareComponentInterface & hardware) : hardware_(hardware)
+  {
+    hardware_.enable_introspection(false);
+  }
+  ~IntrospectionGuard()
+  {
+    if (hardware_.get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE)
+    {
+      hardware_.enable_introspection(true);
+    }
+  }
+  IntrospectionGuard(const IntrospectionGuard &) = delete;
+  IntrospectionGuard & operator=(const IntrospectionGuard &) = delete;
+
+private:
+  HardwareComponentInterface & hardware_;
+};
+}  // namespace
+
 HardwareComponent::HardwareComponent(std::unique_ptr<HardwareComponentInterface> impl)
 : impl_(std::move(impl))
 {
@@ -111,7 +136,7 @@ const rclcpp_lifecycle::State & HardwareComponent::configure()
 const rclcpp_lifecycle::State & HardwareComponent::cleanup()
 {
   std::unique_lock<std::recursive_mutex> lock(component_mutex_);
-  impl_->enable_introspection(false);
+  const IntrospectionGuard introspection_guard(*impl_);
   if (impl_->get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE)
   {
     impl_->pause_async_operations();
@@ -135,7 +160,7 @@ const rclcpp_lifecycle::State & HardwareComponent::cleanup()
 const rclcpp_lifecycle::State & HardwareComponent::shutdown()
 {
   std::unique_lock<std::recursive_mutex> lock(component_mutex_);
-  impl_->enable_introspection(false);
+  const IntrospectionGuard introspection_guard(*impl_);
   if (
     impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN &&
     impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
@@ -195,7 +220,7 @@ const rclcpp_lifecycle::State & HardwareComponent::activate()
 const rclcpp_lifecycle::State & HardwareComponent::deactivate()
 {
   std::unique_lock<std::recursive_mutex> lock(component_mutex_);
-  impl_->enable_introspection(false);
+  const IntrospectionGuard introspection_guard(*impl_);
   if (impl_->get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE)
   {
     impl_->pause_async_operations();
-- 
2.43.0


From 25a0eb3ebc32635835705cd8c12e489768261737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:58 +0000
Subject: [PATCH 93/95] fix: introspection of controllers is enabled although
 they are not active, or disabled although they are

---
 .../src/controller_interface_base.cpp           | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index dae9d6d..38b16df 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -145,7 +145,12 @@ return_type ControllerInterfaceBase::init(
         impl_->async_handler_->reset_variables();
       }
       impl_->lifecycle_id_.store(this->get_lifecycle_state().id(), std::memory_order_release);
-      return on_activate(previous_state);
+      const auto transition_state_status = on_activate(previous_state);
+      if (transition_state_status != CallbackReturn::SUCCESS)
+      {
+        enable_introspection(false);
+      }
+      return transition_state_status;
     });
 
   impl_->node_->register_on_deactivate(
@@ -153,12 +158,19 @@ return_type ControllerInterfaceBase::init(
     {
       enable_introspection(false);
       impl_->lifecycle_id_.store(this->get_lifecycle_state().id(), std::memory_order_release);
-      return on_deactivate(previous_state);
+      const auto transition_state_status = on_deactivate(previous_state);
+      if (transition_state_status == CallbackReturn::FAILURE)
+      {
+        // the controller stays active
+        enable_introspection(true);
+      }
+      return transition_state_status;
     });
 
   impl_->node_->register_on_shutdown(
     [this](const rclcpp_lifecycle::State & previous_state) -> CallbackReturn
     {
+      enable_introspection(false);
       this->stop_async_handler_thread();
       impl_->lifecycle_id_.store(this->get_lifecycle_state().id(), std::memory_order_release);
       auto transition_state_status = on_shutdown(previous_state);
@@ -169,6 +181,7 @@ return_type ControllerInterfaceBase::init(
   impl_->node_->register_on_error(
     [this](const rclcpp_lifecycle::State & previous_state) -> CallbackReturn
     {
+      enable_introspection(false);
       this->stop_async_handler_thread();
       impl_->lifecycle_id_.store(this->get_lifecycle_state().id(), std::memory_order_release);
       try
-- 
2.43.0


From e3856054ec87b872c1af792078fc24711affafbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:58 +0000
Subject: [PATCH 94/95] fix: statistics of a controller's triggers are
 registered again with every configuration

---
 controller_interface/src/controller_interface_base.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 38b16df..9c11bde 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -110,6 +110,10 @@ return_type ControllerInterfaceBase::init(
     return return_type::ERROR;
   }
 
+  // registered only once, the controller may be configured several times
+  REGISTER_ROS2_CONTROL_INTROSPECTION("total_triggers", &impl_->trigger_stats_.total_triggers);
+  REGISTER_ROS2_CONTROL_INTROSPECTION("failed_triggers", &impl_->trigger_stats_.failed_triggers);
+
   impl_->node_->register_on_configure(
     [this](const rclcpp_lifecycle::State & previous_state) -> CallbackReturn
     {
@@ -309,8 +313,6 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
       async_params);
     impl_->async_handler_->start_thread();
   }
-  REGISTER_ROS2_CONTROL_INTROSPECTION("total_triggers", &impl_->trigger_stats_.total_triggers);
-  REGISTER_ROS2_CONTROL_INTROSPECTION("failed_triggers", &impl_->trigger_stats_.failed_triggers);
   impl_->trigger_stats_.reset();
 
   const auto & return_value = get_node()->configure();
-- 
2.43.0


From 845402b58bc930c0564cbd033259675004c22b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:29 +0000
Subject: [PATCH 95/95] fix: state of a controller stays outdated if a reader
 is delayed over several transitions

---
 .../src/controller_interface_base.cpp         | 40 +++++++++++++++++--
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 9c11bde..25b3f16 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -25,6 +25,38 @@
 
 namespace controller_interface
 {
+namespace
+{
+/// Id of the lifecycle state, together with the number of times it was set: a reader completing a
+/// transition in the cache must not be misled by an equal id of a later transition.
+class CachedLifecycleId
+{
+public:
+  void store(uint8_t id, std::memory_order order)
+  {
+    auto value = value_.load(std::memory_order_relaxed);
+    while (!value_.compare_exchange_weak(
+      value, (((value >> 8) + 1) << 8) | id, order, std::memory_order_relaxed))
+    {
+    }
+  }
+
+  uint64_t load(std::memory_order order) const { return value_.load(order); }
+
+  static uint8_t get_id(uint64_t value) { return static_cast<uint8_t>(value & 0xFF); }
+
+  /// Replace only the id, if nothing was stored since \p expected was loaded.
+  void update(uint64_t expected, uint8_t id)
+  {
+    value_.compare_exchange_strong(
+      expected, (expected & ~static_cast<uint64_t>(0xFF)) | id, std::memory_order_acq_rel);
+  }
+
+private:
+  std::atomic<uint64_t> value_ = lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN;
+};
+}  // namespace
+
 struct ControllerInterfaceBase::ControllerInterfaceBaseImpl
 {
   std::shared_ptr<rclcpp_lifecycle::LifecycleNode> node_;
@@ -34,7 +66,7 @@ struct ControllerInterfaceBase::ControllerInterfaceBaseImpl
   std::atomic_bool skip_async_triggers_ = false;
   std::atomic_bool async_trigger_in_progress_ = false;
   ControllerUpdateStats trigger_stats_;
-  mutable std::atomic<uint8_t> lifecycle_id_ = lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN;
+  mutable CachedLifecycleId lifecycle_id_;
 };
 
 ControllerInterfaceBase::ControllerInterfaceBase()
@@ -345,7 +377,8 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::get_lifecycle_state() c
 
 uint8_t ControllerInterfaceBase::get_lifecycle_id() const
 {
-  const auto id = impl_->lifecycle_id_.load(std::memory_order_acquire);
+  const auto cached_id = impl_->lifecycle_id_.load(std::memory_order_acquire);
+  const auto id = CachedLifecycleId::get_id(cached_id);
   if (
     id == lifecycle_msgs::msg::State::TRANSITION_STATE_ACTIVATING ||
     id == lifecycle_msgs::msg::State::TRANSITION_STATE_DEACTIVATING ||
@@ -356,8 +389,7 @@ uint8_t ControllerInterfaceBase::get_lifecycle_id() const
   {
     const auto new_id = this->get_lifecycle_state().id();
     // a transition that started in the meantime must not be overwritten with the older state
-    auto expected_id = id;
-    impl_->lifecycle_id_.compare_exchange_strong(expected_id, new_id, std::memory_order_acq_rel);
+    impl_->lifecycle_id_.update(cached_id, new_id);
     return new_id;
   }
   return id;
-- 
2.43.0

