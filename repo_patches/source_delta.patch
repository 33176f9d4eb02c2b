From db74def812bddbd7ae44d08c5efd60c20dfe6743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:51 +0000
Subject: [PATCH 01/34] fix: give every iteration over a group list its own
 cursor

---
 aeromet_py/reports/models/base/group.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/reports/models/base/group.py b/aeromet_py/reports/models/base/group.py
index 680baef..93793d3 100755
--- a/aeromet_py/reports/models/base/group.py
+++ b/aeromet_py/reports/models/base/group.py
@@ -2,7 +2,7 @@ import json
 
 from abc import ABCMeta, abstractmethod
 from collections import namedtuple
-from typing import Any, Dict, Generic, List, Optional, TypeVar
+from typing import Any, Dict, Generic, Iterator, List, Optional, TypeVar
 
 from .errors import RangeError
 
@@ -60,8 +60,8 @@ class GroupList(Generic[G]):
     def __str__(self) -> str:
         return " | ".join(str(group) for group in self._list)
 
-    def __iter__(self) -> "GroupList[G]":
-        return self
+    def __iter__(self) -> Iterator[G]:
+        return iter(self._list)
 
     def __next__(self) -> G:
         if self._n >= len(self._list):
-- 
2.43.0


From a71ae367de4b579e710c6d1bbf90fa82d1ef7107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 02/34] fix: ceiling with a broken or overcast layer of unknown
 height

---
 aeromet_py/reports/models/base/cloud.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index f9e1cd3..61c0d68 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -204,6 +204,9 @@ class CloudList(GroupList[Cloud]):
         for group in self._list:
             _oktas: str = group.oktas
             _height: float = group.height_in_feet
+            if _height is None:
+                continue
+
             if _oktas in ["5-7", "8"] and _height <= 1500.0:
                 return True
         return False
-- 
2.43.0


From 8ca72225fb88f4b4a1a2fb9b552673cf9b8c6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 03/34] fix: compare the cloud cover by value in
 should_be_cavok

---
 aeromet_py/reports/models/metar/should_be_cavok.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/should_be_cavok.py b/aeromet_py/reports/models/metar/should_be_cavok.py
index 2f4e618..8dbe325 100644
--- a/aeromet_py/reports/models/metar/should_be_cavok.py
+++ b/aeromet_py/reports/models/metar/should_be_cavok.py
@@ -42,7 +42,7 @@ class ShouldBeCavokMixin(HasPrevailingCloudsWeatherProtocol):
             return False
 
         for c in self.clouds:
-            if c.cover is "indefinite ceiling":
+            if c.cover == "indefinite ceiling":
                 return False
 
             if c.cloud_type == "cumulonimbus" or c.cloud_type == "towering cumulus":
-- 
2.43.0


From 2dd294ad003db74387fd5cb0157e52fee8b8fa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 04/34] fix: flight rules with visibility or ceiling above the
 VFR limits

---
 aeromet_py/reports/models/base/flight_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/flight_rules.py b/aeromet_py/reports/models/base/flight_rules.py
index 23002d2..121ed96 100755
--- a/aeromet_py/reports/models/base/flight_rules.py
+++ b/aeromet_py/reports/models/base/flight_rules.py
@@ -62,5 +62,5 @@ class FlightRulesMixin:
             elif prevailing is None and ceiling is not None:
                 if ceiling < rules[0]:
                     return flight_rule
-            else:
-                return "VFR"
+
+        return "VFR"
-- 
2.43.0


From 11c8220d915b8f791b9876ae69000878e4e2fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 05/34] fix: normalise the whitespace left by the end of report
 sign

---
 aeromet_py/reports/models/base/report.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/reports/models/base/report.py b/aeromet_py/reports/models/base/report.py
index 6b9bedd..f35129e 100755
--- a/aeromet_py/reports/models/base/report.py
+++ b/aeromet_py/reports/models/base/report.py
@@ -16,11 +16,10 @@ class Report(StringAttributeMixin, TimeMixin, metaclass=ABCMeta):
     def __init__(self, code: str, truncate: bool = False, type: str = "METAR") -> None:
         assert code != "", "code must be a non-empty string"
 
-        code = code.strip()
+        code = code.replace("=", "").strip()
         self._truncate = truncate
 
-        self._raw_code: str = re.sub(r"\s{2,}|\n+|\t+", " ", code)
-        self._raw_code = self._raw_code.replace("=", "")
+        self._raw_code: str = re.sub(r"\s+", " ", code)
         self._unparsed_groups: List[str] = []
         self._sections: List[str] = []
 
-- 
2.43.0


From 3d66410f667f29cb987a96afdd53542e8cb16623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 06/34] fix: no phantom groups from empty tokens

---
 aeromet_py/reports/models/base/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 7f66718..36a8c29 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -35,7 +35,7 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
     unparsed_groups: List[str] = []
     index: int = 0
 
-    for group in section.split(" "):
+    for group in section.split():
         unparsed_groups.append(group)
         counter = 0
 
-- 
2.43.0


From 1565312a1b74066ae10b9fd15491fab37beef1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 07/34] fix: accept only the eight compass directions in
 visibility groups

---
 aeromet_py/utils/metar_regexp.py | 4 ++--
 aeromet_py/utils/taf_regexp.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 1fa664f..df41814 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -25,14 +25,14 @@ class MetarRegExp:
 
     VISIBILITY = (
         r"^((?P<vis>\d{4}|////)"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/\d)?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
 
-    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NSEW]([EW])?)?$"
+    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NS][EW]?|[EW])?$"
 
     RUNWAY_RANGE = (
         r"^R(?P<name>\d{2}[RLC]?)/"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index bd14d77..f07cfc8 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -22,7 +22,7 @@ class TafRegExp:
 
     VISIBILITY = (
         r"^(?P<vis>\d{4})"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/\d)?"
         r"(?P<units>SM|KM|M|U)|"
-- 
2.43.0


From ba166bc658fc308a1f49fd7d6518cf8b6c0938a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 08/34] fix: a visibility fraction over zero is not a
 visibility group

---
 aeromet_py/utils/metar_regexp.py | 2 +-
 aeromet_py/utils/taf_regexp.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index df41814..e1d320d 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -27,7 +27,7 @@ class MetarRegExp:
         r"^((?P<vis>\d{4}|////)"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index f07cfc8..e58cd94 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -24,7 +24,7 @@ class TafRegExp:
         r"^(?P<vis>\d{4})"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK)$"
     )
-- 
2.43.0


From a8d58d80fae87c653232a8d187374b7d11c4be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 09/34] fix: fractions of kilometer in visibility groups

---
 aeromet_py/reports/models/metar/visibility.py | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/reports/models/metar/visibility.py b/aeromet_py/reports/models/metar/visibility.py
index e50df17..17ab0b0 100755
--- a/aeromet_py/reports/models/metar/visibility.py
+++ b/aeromet_py/reports/models/metar/visibility.py
@@ -139,8 +139,7 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
                     self._visibility = self._from_sea_miles(_integer, _fraction)
 
                 if _units == "KM":
-                    _in_meters = int(_integer) * 1000
-                    self._visibility = Distance("{:04d}".format(_in_meters))
+                    self._visibility = self._from_kilometers(_integer, _fraction)
 
             if _dir:
                 self._direction = Direction.from_cardinal(_dir)
@@ -166,6 +165,24 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
             integer (str | None): the integer value of visibility in METAR if provided.
             fraction (str | None): the fraction value of the visibility in METAR if provided.
         """
+        _vis: float = self._mixed_number(integer, fraction)
+
+        return Distance("{}".format(_vis * Conversions.SMI_TO_KM * Conversions.KM_TO_M))
+
+    def _from_kilometers(
+        self, integer: Optional[str], fraction: Optional[str]
+    ) -> Distance:
+        """Helper to handle the visibility from kilometers.
+        Args:
+            integer (str | None): the integer value of visibility in METAR if provided.
+            fraction (str | None): the fraction value of the visibility in METAR if provided.
+        """
+        _vis: float = self._mixed_number(integer, fraction)
+
+        return Distance("{}".format(_vis * Conversions.KM_TO_M))
+
+    def _mixed_number(self, integer: Optional[str], fraction: Optional[str]) -> float:
+        """Helper to get the number given by its integer and fraction parts."""
         _fraction: float
         if fraction:
             _items = fraction.split("/")
@@ -179,7 +196,7 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
             _integer: float = float(integer)
             _vis += _integer
 
-        return Distance("{}".format(_vis * Conversions.SMI_TO_KM * Conversions.KM_TO_M))
+        return _vis
 
     @property
     def cavok(self) -> bool:
-- 
2.43.0


From 81e634e746c846492ea438a063c172a4b482c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 10/34] fix: hour 24 in the time group of the reports

---
 aeromet_py/reports/models/base/time.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/time.py b/aeromet_py/reports/models/base/time.py
index 0cecbef..b11ffe4 100755
--- a/aeromet_py/reports/models/base/time.py
+++ b/aeromet_py/reports/models/base/time.py
@@ -1,6 +1,6 @@
 import re
 
-from datetime import datetime
+from datetime import datetime, timedelta
 from typing import Dict, Optional
 
 from .group import Group
@@ -43,6 +43,11 @@ class Time(Group):
             if minute is None:
                 minute = "00"
 
+            # Hour 24 is the midnight at the end of the day
+            next_day: bool = hour == "24"
+            if next_day:
+                hour = "00"
+
             generated_date: str = "{}{:02d}{}{}{}".format(
                 year,
                 month,
@@ -51,6 +56,8 @@ class Time(Group):
                 minute,
             )
             self._time = datetime.strptime(generated_date, "%Y%m%d%H%M")
+            if next_day:
+                self._time = self._time + timedelta(days=1)
 
     @classmethod
     def from_metar(
-- 
2.43.0


From d8d02a0f8208cd88e19b7bd4c927f74286d910c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 11/34] fix: TAF change groups with an unrecognised change
 indicator

---
 aeromet_py/reports/models/taf/change_forecast.py  | 7 +++----
 aeromet_py/reports/models/taf/change_indicator.py | 4 +++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index 01eafd8..ce64894 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -84,15 +84,14 @@ class TafChangesForecasted(GroupList[ChangeForecasted]):
 
                 last_change: ChangeForecasted = self._list.pop()
                 while True:
-                    if last_change.change_indicator.code.startswith(
-                        "PROB"
-                    ) or last_change.change_indicator.code.startswith("TEMPO"):
+                    last_code: str = last_change.change_indicator.code or ""
+                    if last_code.startswith("PROB") or last_code.startswith("TEMPO"):
                         temp_changes.append(last_change)
                         try:
                             last_change = self._list.pop()
                         except IndexError:
                             break
-                    elif last_change.change_indicator.code.startswith("FM"):
+                    elif last_code.startswith("FM"):
                         last_change.change_indicator.reset_until_period(
                             new_change.change_indicator.valid.period_from
                         )
diff --git a/aeromet_py/reports/models/taf/change_indicator.py b/aeromet_py/reports/models/taf/change_indicator.py
index 2cc4e5d..29f7326 100755
--- a/aeromet_py/reports/models/taf/change_indicator.py
+++ b/aeromet_py/reports/models/taf/change_indicator.py
@@ -44,7 +44,9 @@ class TafChangeIndicator(ChangeIndicator):
         """
         self._valid = Valid.from_taf(match, init_time.time)
 
-        if self._code.startswith("FM"):
+        if self._code is None:
+            self._code = self._valid.code
+        elif self._code.startswith("FM"):
             self._translation = f"{self._valid}"
         else:
             self._translation = f"{self._translation} {self._valid}"
-- 
2.43.0


From 05a55fdcea2a7cbdf4dace8ada5bf9b75bbb3b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 12/34] fix: a FM change period never ends before it begins

---
 aeromet_py/reports/models/taf/change_indicator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/taf/change_indicator.py b/aeromet_py/reports/models/taf/change_indicator.py
index 29f7326..9252e41 100755
--- a/aeromet_py/reports/models/taf/change_indicator.py
+++ b/aeromet_py/reports/models/taf/change_indicator.py
@@ -61,7 +61,12 @@ class TafChangeIndicator(ChangeIndicator):
             until (Time): the until time period that this change indicator
             applies to.
         """
-        until = Time(time=until.time - timedelta(hours=1))
+        if until.time <= self._valid.period_from.time:
+            return
+
+        until = Time(
+            time=max(until.time - timedelta(hours=1), self._valid.period_from.time)
+        )
         if self._code.startswith("FM"):
             self._valid = Valid(None, self._valid.period_from, until)
             self._translation = f"{self._valid}"
-- 
2.43.0


From 077ea356845039f7755055ddb7707a11ea3fb0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 13/34] fix: METAR trend times after an unrecognised trend
 indicator

---
 aeromet_py/reports/models/metar/trend_indicator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index ef5f9b3..fcbf8f0 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -31,7 +31,10 @@ class MetarTrendIndicator(ChangeIndicator):
 
     def add_period(self, match: re.Match) -> None:
         """Helper to add periods of time to the change indicator."""
-        self._code += f" {match.string}"
+        if self._code is None:
+            self._code = match.string
+        else:
+            self._code += f" {match.string}"
 
         # The middle time between self._init_period and self._end_period
         middle_time: datetime = self._init_period.time + timedelta(hours=1)
-- 
2.43.0


From 930cac845d93e46842debece0b41600407739d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 14/34] fix: anchor every alternative of the regular
 expressions

---
 aeromet_py/utils/metar_regexp.py |  2 +-
 aeromet_py/utils/taf_regexp.py   | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index e1d320d..d2acde5 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -93,7 +93,7 @@ class MetarRegExp:
         r"(?P<clrd>CLRD//))$"
     )
 
-    CHANGE_INDICATOR = r"^TEMPO|BECMG|NOSIG$"
+    CHANGE_INDICATOR = r"^(TEMPO|BECMG|NOSIG)$"
 
     TREND_TIME_PERIOD = (
         r"^(?P<prefix>FM|TL|AT)" r"(?P<hour>[01]\d|2[0-4])" r"(?P<min>[0-5]\d)$"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index e58cd94..6c60ef6 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -21,26 +21,26 @@ class TafRegExp:
     )
 
     VISIBILITY = (
-        r"^(?P<vis>\d{4})"
+        r"^((?P<vis>\d{4})"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
-        r"(?P<cavok>CAVOK)$"
+        r"(?P<cavok>CAVOK))$"
     )
 
     TEMPERATURE = (
-        r"T(?P<type>N|X)"
+        r"^T(?P<type>N|X)"
         r"(?P<sign>M)?"
         r"(?P<temp>\d{2})/"
         r"(?P<day>0[1-9]|[12][0-9]|3[01])"
-        r"(?P<hour>[0-1]\d|2[0-3])Z"
+        r"(?P<hour>[0-1]\d|2[0-3])Z$"
     )
 
     CHANGE_INDICATOR = (
-        r"^TEMPO|BECMG"
+        r"^(TEMPO|BECMG"
         r"|FM(?P<day>0[1-9]|[12][0-9]|3[01])"
         r"(?P<hour>[0-1]\d|2[0-3])"
         r"(?P<minute>[0-5]\d)"
-        r"|PROB[34]0(_TEMPO)?$"
+        r"|PROB[34]0(_TEMPO)?)$"
     )
-- 
2.43.0


From 261b8ae2f6e9903e48ab613aab2eb466a930fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 15/34] fix: TAF valid periods reaching more than a day after
 the issue time

---
 aeromet_py/reports/models/taf/valid.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/aeromet_py/reports/models/taf/valid.py b/aeromet_py/reports/models/taf/valid.py
index e45759b..3f84f93 100755
--- a/aeromet_py/reports/models/taf/valid.py
+++ b/aeromet_py/reports/models/taf/valid.py
@@ -44,17 +44,13 @@ class Valid(Group):
             _tlday: int = int(match.group("tlday"))
             _tlhour: int = int(match.group("tlhour"))
 
-            _from: datetime
-            _until: datetime
-            if _fmday == time.day:
-                _from = time
-            else:
-                _from = time + timedelta(days=1)
-
-            if _tlday == time.day:
-                _until = time
-            else:
-                _until = time + timedelta(days=1)
+            _from: datetime = time
+            while _fmday != _from.day:
+                _from = _from + timedelta(days=1)
+
+            _until: datetime = _from
+            while _tlday != _until.day:
+                _until = _until + timedelta(days=1)
 
             if _tlhour == 24:
                 _until = _until + timedelta(days=1)
-- 
2.43.0


From cdc1d6343ca908f079899b1bfa64cefbc7c5e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 16/34] fix: TAF temperatures expected more than a day after
 the issue time

---
 aeromet_py/reports/models/taf/temperature.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/reports/models/taf/temperature.py b/aeromet_py/reports/models/taf/temperature.py
index 096fb16..9531e11 100755
--- a/aeromet_py/reports/models/taf/temperature.py
+++ b/aeromet_py/reports/models/taf/temperature.py
@@ -32,11 +32,9 @@ class TafTemperature(Temperature, Group):
             _hour: int = int(match.group("hour"))
 
             time = time.replace(hour=_hour)
-            if _day == time.day:
-                self._time = Time(time=time)
-            else:
+            while _day != time.day:
                 time = time + timedelta(days=1)
-                self._time = Time(time=time)
+            self._time = Time(time=time)
 
     def __str__(self) -> str:
         if self._value is None:
-- 
2.43.0


From e7c81696bc8b08064421d2242c99c4cfe5544a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 17/34] fix: a vertical bar in the report is not a section
 separator

---
 aeromet_py/utils/split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/split.py b/aeromet_py/utils/split.py
index ab443c9..f432123 100755
--- a/aeromet_py/utils/split.py
+++ b/aeromet_py/utils/split.py
@@ -48,8 +48,8 @@ def split_sentence(
         pattern = re.compile(kw)
         sentence = re.sub(
             pattern,
-            "|" + kw.lstrip(),
+            lambda match: "\n" + match.group().lstrip(),
             sentence,
             count=count,
         )
-    return sentence.split("|")
+    return sentence.split("\n")
-- 
2.43.0


From f2092f317a682a13e286621b154202d821914340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 18/34] fix: station codes beginning with FM are not TAF change
 groups

---
 aeromet_py/reports/taf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 57c8de9..f07001b 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -193,7 +193,7 @@ class Taf(
             )
 
     def _handle_sections(self) -> None:
-        keywords: List[str] = ["FM", "TEMPO", "BECMG", "PROB"]
+        keywords: List[str] = [r"FM(?=\d)", "TEMPO", "BECMG", "PROB"]
         sanitized_code: str = sanitize_change_indicator(self._raw_code)
         if sanitized_code.startswith("TAF"):
             sanitized_code = sanitized_code.replace("TAF ", "TAF_")
-- 
2.43.0


From d45d966851042104478ee624ec870c040f35da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 19/34] fix: pressure in hundredths of inch given without units

---
 aeromet_py/reports/models/metar/pressure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/pressure.py b/aeromet_py/reports/models/metar/pressure.py
index da68079..59d12fc 100755
--- a/aeromet_py/reports/models/metar/pressure.py
+++ b/aeromet_py/reports/models/metar/pressure.py
@@ -28,7 +28,7 @@ class MetarPressure(Pressure, Group):
                 elif _units in ["Q", "QNH"]:
                     _pressure = _pressure * 1
                 elif _pressure > 2500.0:
-                    _pressure = _pressure * Conversions.INHG_TO_HPA
+                    _pressure = _pressure / 100.0 * Conversions.INHG_TO_HPA
                 else:
                     _pressure = _pressure * Conversions.MBAR_TO_HPA
 
-- 
2.43.0


From bf4a40826a69edb41c189fd2c4c10151cb6c2ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 20/34] fix: do not print while parsing the trend times

---
 aeromet_py/reports/models/metar/weather_trend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index 3bc09a2..7263f42 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -94,7 +94,6 @@ class ChangePeriod(Forecast):
         old_change_indicator = str(self._change_indicator)
         self._change_indicator.add_period(match)
         new_change_indicator = str(self._change_indicator)
-        print(self._change_indicator.period_at)
 
         self._string = self._string.replace(old_change_indicator, new_change_indicator)
 
-- 
2.43.0


From ed1262c2bfe78cc599a40d6cdc5e2a8e34822a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 21/34] fix: text of the TAF with the final periods of its FM
 changes

---
 aeromet_py/reports/taf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index f07001b..c835cdf 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -140,8 +140,6 @@ class Taf(
         cf: ChangeForecasted = ChangeForecasted(code, self._valid)
         self._changes_forecasted.add(cf)
 
-        self._concatenate_string(cf)
-
     @property
     def changes_forecasted(self) -> TafChangesForecasted:
         """Get the weather change periods data of the TAF if provided."""
@@ -182,6 +180,7 @@ class Taf(
                 self._handle_change_forecasted(change)
 
         for cp in self._changes_forecasted:
+            self._concatenate_string(cp)
             self._unparsed_groups += cp.unparsed_groups
 
         if self.unparsed_groups and self._truncate:
-- 
2.43.0


From fcff4365d6c9c8336e322b5565fde8d54904c693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 22/34] fix: text of temperatures and wave heights of zero

---
 aeromet_py/reports/models/metar/sea_state.py    | 4 ++--
 aeromet_py/reports/models/metar/temperatures.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/reports/models/metar/sea_state.py b/aeromet_py/reports/models/metar/sea_state.py
index 3fbf8d9..f41b3fd 100755
--- a/aeromet_py/reports/models/metar/sea_state.py
+++ b/aeromet_py/reports/models/metar/sea_state.py
@@ -64,12 +64,12 @@ class MetarSeaState(Group):
 
         s: str = ""
 
-        if self._temperature.value:
+        if self._temperature.value is not None:
             s += f"temperature {self._temperature}, "
         else:
             s += "no temperature, "
 
-        if self._height.value:
+        if self._height.value is not None:
             s += f"significant wave height {self._height}, "
         else:
             s += "no significant wave height, "
diff --git a/aeromet_py/reports/models/metar/temperatures.py b/aeromet_py/reports/models/metar/temperatures.py
index 62b3230..e520575 100755
--- a/aeromet_py/reports/models/metar/temperatures.py
+++ b/aeromet_py/reports/models/metar/temperatures.py
@@ -28,7 +28,7 @@ class MetarTemperatures(Group):
     def __str__(self) -> str:
         if self._temperature.value is None and self._dewpoint.value is None:
             return ""
-        elif self._temperature.value is None and self._dewpoint.value:
+        elif self._temperature.value is None and self._dewpoint.value is not None:
             return f"no temperature | dewpoint: {self._dewpoint}"
         elif self._temperature.value is not None and self._dewpoint.value is None:
             return f"temperature: {self._temperature} | no dewpoint"
-- 
2.43.0


From 822585775f4242fb3947b5baa5436f1e1ef0d509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 23/34] fix: text of cloud layers on the ground

---
 aeromet_py/reports/models/base/cloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index 61c0d68..a4b51ab 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -119,14 +119,14 @@ class Cloud(Group):
         )
 
     def __str__(self) -> str:
-        if self._type and self._height.value:
+        if self._type and self._height.value is not None:
             return "{} at {:.1f} feet of {}".format(
                 self._cover,
                 self.height_in_feet,
                 self._type,
             )
 
-        if self._height.value:
+        if self._height.value is not None:
             return "{} at {:.1f} feet".format(
                 self._cover,
                 self.height_in_feet,
-- 
2.43.0


From 2cef01864cac0ff939b21a1ed590559de202c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 24/34] fix: hour 24 in the METAR trend times

---
 aeromet_py/reports/models/metar/trend_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index fcbf8f0..1c15254 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -43,7 +43,7 @@ class MetarTrendIndicator(ChangeIndicator):
         hour: str = match.group("hour")
         minute: str = match.group("min")
 
-        hour_as_int: int = int(hour)
+        hour_as_int: int = int(hour) % 24
         min_as_int: int = int(minute)
 
         _time: datetime
-- 
2.43.0


From e5fc821fe59086af77f6b01309a65d7d9e4c2d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 25/34] fix: overcast layers written with a zero

---
 aeromet_py/reports/models/base/cloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index a4b51ab..2afc678 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -93,7 +93,7 @@ class Cloud(Group):
 
         if match is not None:
             _code = match.string
-            cover: str = match.group("cover")
+            cover: str = match.group("cover").replace("0VC", "OVC")
 
             _cover = SKY_COVER.get(cover, None)
             _oktas = _set_oktas(cover)
-- 
2.43.0


From 18bf378acd4e6c5097dc3372f61d6ba21547c76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:16 +0000
Subject: [PATCH 26/34] fix: keep the text of every remark of the METAR

---
 aeromet_py/reports/metar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index a1680ff..703b3fd 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -278,11 +278,11 @@ class Metar(
             ):
                 trend += section + " "
             elif section.startswith("RMK"):
-                remark = section
+                remark += section + " "
             else:
                 body = section
 
-        self._sections = [body, trend.strip(), remark]
+        self._sections = [body, trend.strip(), remark.strip()]
 
     def as_dict(self) -> Dict[str, Any]:
         d = super().as_dict()
-- 
2.43.0


From 45d90164e59eb94e88476bfb0b08f8e156de5377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 27/34] fix: TAF without time group in the given year and month

---
 aeromet_py/reports/taf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index c835cdf..b3e06fa 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -56,6 +56,9 @@ class Taf(
 
         self._handle_sections()
 
+        # Initialize the time with the given year and month
+        self._time = Time.from_metar(year=year, month=month)
+
         # Initialize mixins
         ModifierMixin.__init__(self)
         MetarWindMixin.__init__(self)
-- 
2.43.0


From 5ad61f4e522c70be47c1821682e21627ef111382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 28/34] fix: join the change indicator of every PROB TEMPO
 period

---
 aeromet_py/utils/parser.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index b91cea4..6601461 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -61,13 +61,11 @@ def sanitize_change_indicator(report: str) -> str:
     """
     fmt = r"PROB(?P<percent>[34]0)\sTEMPO"
     pattern = re.compile(fmt)
-    for _ in range(5):
+    match = pattern.search(report)
+    while match:
+        report = re.sub(
+            fmt, "PROB{}_TEMPO".format(match.group("percent")), report, count=1
+        )
         match = pattern.search(report)
-        if match:
-            report = re.sub(
-                fmt, "PROB{}_TEMPO".format(match.group("percent")), report, count=1
-            )
-        else:
-            break
 
     return report
-- 
2.43.0


From 9c9bab28b3015013cf7b25ea0cc37c94ff04a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:35 +0000
Subject: [PATCH 29/34] fix: default valid period of a TAF from its time of
 issue

---
 aeromet_py/reports/taf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index b3e06fa..97c3e1b 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -96,6 +96,7 @@ class Taf(
 
     def _handle_time(self, match: re.Match) -> None:
         self._time = Time.from_metar(match, self._year, self._month)
+        self._valid = Valid.from_taf(None, self._time.time)
 
         self._concatenate_string(self._time)
 
-- 
2.43.0


From 4832b4919952428f52f0eca5bd0749e2361c4d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 30/34] fix: state zero values and their units in the texts

---
 aeromet_py/reports/models/base/distance.py      | 2 +-
 aeromet_py/reports/models/base/pressure.py      | 2 +-
 aeromet_py/reports/models/base/temperature.py   | 2 +-
 aeromet_py/reports/models/base/wind.py          | 7 ++++---
 aeromet_py/reports/models/metar/runway_range.py | 2 +-
 aeromet_py/reports/models/metar/wind.py         | 2 +-
 6 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/aeromet_py/reports/models/base/distance.py b/aeromet_py/reports/models/base/distance.py
index 38075d6..38b88a0 100755
--- a/aeromet_py/reports/models/base/distance.py
+++ b/aeromet_py/reports/models/base/distance.py
@@ -22,7 +22,7 @@ class Distance(Numeric):
             super().__init__(_distance)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " m"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/pressure.py b/aeromet_py/reports/models/base/pressure.py
index 2e600a5..2e0673a 100755
--- a/aeromet_py/reports/models/base/pressure.py
+++ b/aeromet_py/reports/models/base/pressure.py
@@ -19,7 +19,7 @@ class Pressure(Numeric):
             super().__init__(_pressure)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " hPa"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/temperature.py b/aeromet_py/reports/models/base/temperature.py
index 000e7ca..015793f 100755
--- a/aeromet_py/reports/models/base/temperature.py
+++ b/aeromet_py/reports/models/base/temperature.py
@@ -26,7 +26,7 @@ class Temperature(Numeric):
             super().__init__(_temperature)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°C"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/wind.py b/aeromet_py/reports/models/base/wind.py
index 4eac983..c3c92aa 100755
--- a/aeromet_py/reports/models/base/wind.py
+++ b/aeromet_py/reports/models/base/wind.py
@@ -56,7 +56,7 @@ class Direction(Numeric):
         if self._variable:
             return "variable wind"
 
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°"
 
         return super().__str__()
@@ -152,7 +152,7 @@ class Speed(Numeric):
             super().__init__(_speed)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " kt"
 
         return super().__str__()
@@ -199,7 +199,8 @@ class Wind:
         cardinal: str = self.cardinal_direction if self.cardinal_direction else ""
 
         direction: str = str(self._direction)
-        direction = f"({self._direction})" if self._direction.value else direction
+        if self._direction.value is not None:
+            direction = f"({self._direction})"
 
         s: str = "{} {} {}".format(
             cardinal,
diff --git a/aeromet_py/reports/models/metar/runway_range.py b/aeromet_py/reports/models/metar/runway_range.py
index a9e0e95..04363bd 100755
--- a/aeromet_py/reports/models/metar/runway_range.py
+++ b/aeromet_py/reports/models/metar/runway_range.py
@@ -100,7 +100,7 @@ class MetarRunwayRange(Group):
         return "runway {} {}{}{}".format(
             self._name,
             self.low_range,
-            f" varying to {self.high_range}" if self._high_range.value else "",
+            f" varying to {self.high_range}" if self._high_range.value is not None else "",
             ", " + self._trend if self._trend else "",
         )
 
diff --git a/aeromet_py/reports/models/metar/wind.py b/aeromet_py/reports/models/metar/wind.py
index 1721bd8..476771c 100755
--- a/aeromet_py/reports/models/metar/wind.py
+++ b/aeromet_py/reports/models/metar/wind.py
@@ -29,7 +29,7 @@ class MetarWind(Wind, Group):
             self._gust = Speed(_gst)
 
     def __str__(self) -> str:
-        gust: str = " gust of " + str(self._gust) if self._gust.value else ""
+        gust: str = " gust of " + str(self._gust) if self._gust.value is not None else ""
 
         return super().__str__() + gust
 
-- 
2.43.0


From c6e812de897bdeb3ad8f61be5d68ebe944fa26fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:13 +0000
Subject: [PATCH 31/34] fix: text of TAF change periods with all their groups

---
 aeromet_py/reports/models/taf/change_forecast.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index ce64894..2941ce3 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -30,10 +30,7 @@ class ChangeForecasted(Forecast):
         self._parse()
 
     def __str__(self) -> str:
-        self._string = ""
-        self._concatenate_string(self._change_indicator)
-
-        return self._string
+        return f"{self._change_indicator}\n{self._string}".strip()
 
     def _handle_change_indicator(self, match: re.Match) -> None:
         self._change_indicator = TafChangeIndicator(match, self._valid)
-- 
2.43.0


From dbf9b7b4c202eb06777ea2956480f7dc18a06e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:24 +0000
Subject: [PATCH 32/34] fix: text of cloud layers with a type and no height

---
 aeromet_py/reports/models/base/cloud.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index 2afc678..637ad9f 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -132,17 +132,19 @@ class Cloud(Group):
                 self.height_in_feet,
             )
 
+        of_type: str = f" of {self._type}" if self._type else ""
+
         if self._cover in [SKY_COVER[item] for item in ["NSC", "NCD", "///"]]:
-            return self._cover
+            return self._cover + of_type
 
         if self._cover == SKY_COVER["VV"]:
             if self._height.value:
                 return self._cover + f" at {self.height_in_feet} feet"
-            return self._cover
+            return self._cover + of_type
 
         return "{} at undefined height".format(
             self._cover,
-        )
+        ) + of_type
 
     @property
     def cover(self) -> Optional[str]:
-- 
2.43.0


From 11a888bb275e4ea31bd2496445c08a975ad2b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:38 +0000
Subject: [PATCH 33/34] fix: join PROB30/PROB40 with TEMPO only where PROB is a
 word of its own

---
 aeromet_py/utils/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index 6601461..5f8a251 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -59,7 +59,7 @@ def sanitize_change_indicator(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    fmt = r"PROB(?P<percent>[34]0)\sTEMPO"
+    fmt = r"(?<!\S)PROB(?P<percent>[34]0)\sTEMPO"
     pattern = re.compile(fmt)
     match = pattern.search(report)
     while match:
-- 
2.43.0


From cd3eb1662ac5c4d90d9646d6205de13c24a29d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:21 +0000
Subject: [PATCH 34/34] fix: reports with a runway state could not be pickled

---
 aeromet_py/reports/models/metar/runway_state.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aeromet_py/reports/models/metar/runway_state.py b/aeromet_py/reports/models/metar/runway_state.py
index be9eefe..86dda36 100755
--- a/aeromet_py/reports/models/metar/runway_state.py
+++ b/aeromet_py/reports/models/metar/runway_state.py
@@ -71,7 +71,8 @@ class MetarRunwayState(Group):
     def __init__(self, match: Optional[re.Match]) -> None:
         self._snoclo: bool = False
         self._clrd: bool = False
-        self._match = match
+        # the match itself can't be pickled
+        self._groups = None if match is None else match.groupdict()
 
         if match is None:
             super().__init__(None)
@@ -126,8 +127,8 @@ class MetarRunwayState(Group):
 
     def _deposits_to_str(self) -> str:
         """Helper to convert deposits to string."""
-        deposit = self._match.group("deposit")
-        depth = self._match.group("depth")
+        deposit = self._groups["deposit"]
+        depth = self._groups["depth"]
 
         if deposit == "/":
             if depth == "99" or depth == "//":
@@ -155,7 +156,7 @@ class MetarRunwayState(Group):
 
     def _surface_friction_to_str(self) -> str:
         """Helper to convert the surface friction to string."""
-        friction = self._match.group("fric")
+        friction = self._groups["fric"]
 
         if friction is not None:
             try:
@@ -171,7 +172,7 @@ class MetarRunwayState(Group):
             return ""
 
     def __str__(self) -> str:
-        if self._match is None:
+        if self._groups is None:
             return ""
 
         if self.snoclo:
-- 
2.43.0

