From 0fa37f0412bf1f2195766350532c7957253387f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:58 +0000
Subject: [PATCH 01/10] fix: minutes_in_range with an end after the last
 calendar minute

The end of the range need not be a calendar minute, but an end later than
the last minute raised IndexError.
---
 trading_calendars/trading_calendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 40242a7..f2569ac 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -793,7 +793,8 @@ class TradingCalendar(with_metaclass(ABCMeta)):
         end_idx = searchsorted(self._trading_minutes_nanos,
                                end_minute.value)
 
-        if end_minute.value == self._trading_minutes_nanos[end_idx]:
+        if (end_idx < len(self._trading_minutes_nanos) and
+                end_minute.value == self._trading_minutes_nanos[end_idx]):
             # if the end minute is a market minute, increase by 1
             end_idx += 1
 
-- 
2.43.0


From 0dccbf501392a01660a9de8493a0b930e51fd1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:58 +0000
Subject: [PATCH 02/10] fix: clamp minutes_window at both ends of the calendar

A backwards window longer than the available minutes came back empty, and
a start after the last minute raised IndexError.
---
 trading_calendars/trading_calendar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index f2569ac..51383dd 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -665,13 +665,15 @@ class TradingCalendar(with_metaclass(ABCMeta)):
 
         # searchsorted finds the index of the minute **on or after** start_dt.
         # If the latter, push back to the prior minute.
-        if all_minutes_nanos[start_idx] != start_dt_nanos:
+        if (start_idx == len(all_minutes_nanos) or
+                all_minutes_nanos[start_idx] != start_dt_nanos):
             start_idx -= 1
 
         if start_idx < 0 or start_idx >= len(all_minutes_nanos):
             raise KeyError("Can't start minute window at {}".format(start_dt))
 
-        end_idx = start_idx + count
+        # Don't let a backwards window run past the first minute.
+        end_idx = max(start_idx + count, -1)
 
         if start_idx > end_idx:
             return self.all_minutes[(end_idx + 1):(start_idx + 1)]
-- 
2.43.0


From 0a084bd5e6770634e2b065051f9bfc9dca404d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:58 +0000
Subject: [PATCH 03/10] fix: minute_to_session_label('previous') outside the
 calendar

Before the first open it wrapped around to the last session, and after the
last close it raised IndexError instead of returning the last session.
---
 trading_calendars/trading_calendar.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 51383dd..530a3ea 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -979,6 +979,13 @@ class TradingCalendar(with_metaclass(ABCMeta)):
                 return self._minute_to_session_label_cache[1]
 
         idx = searchsorted(self.market_closes_nanos, dt)
+
+        if (direction == "previous" and
+                not self.is_open_on_minute(dt, ignore_breaks=True)):
+            if idx == 0:
+                raise ValueError("There is no session before the given dt.")
+            return self.schedule.index[idx - 1]
+
         current_or_next_session = self.schedule.index[idx]
 
         if direction == "next":
@@ -987,8 +994,7 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             )
             return current_or_next_session
         elif direction == "previous":
-            if not self.is_open_on_minute(dt, ignore_breaks=True):
-                return self.schedule.index[idx - 1]
+            return current_or_next_session
         elif direction == "none":
             if not self.is_open_on_minute(dt):
                 # if the exchange is closed, blow up
-- 
2.43.0


From 670bd87f7c6cd2ad9ae9ffb629354bfb6b5b95b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:58 +0000
Subject: [PATCH 04/10] fix: treat the break start minute as a market minute
 everywhere

all_minutes includes the minute on which a break starts, but
is_open_on_minute and the minute counts did not.
---
 trading_calendars/trading_calendar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 530a3ea..46188e5 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -276,8 +276,10 @@ class TradingCalendar(with_metaclass(ABCMeta)):
         close_to_open_diff = (
             self.schedule.market_close - self.schedule.market_open
         )
+        # The minutes at both ends of a break are market minutes.
         break_diff = (
             self.schedule.break_end - self.schedule.break_start
+            - pd.Timedelta(minutes=1)
         ).fillna(pd.Timedelta(seconds=0))
         diff = (close_to_open_diff - break_diff).astype("timedelta64[m]")
         return diff + 1
@@ -426,7 +428,7 @@ class TradingCalendar(with_metaclass(ABCMeta)):
                 self.market_break_starts_nanos[open_idx - 1]
             break_end_on_open_dt = self.market_break_ends_nanos[open_idx - 1]
             # NaT comparisions will result in False
-            if break_start_on_open_dt <= dt < break_end_on_open_dt:
+            if break_start_on_open_dt < dt < break_end_on_open_dt:
                 # we're in the middle of a break
                 return False
             else:
-- 
2.43.0


From f681ba1bb921564d4a3466a87c3a8849479fff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:58 +0000
Subject: [PATCH 05/10] fix: minute_index_to_session_labels error for minutes
 out of range

Building the error message for a minute after the last close raised
IndexError instead of the intended ValueError.
---
 trading_calendars/trading_calendar.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 46188e5..a1cd9e2 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -1044,16 +1044,19 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             example = index[bad_ix]
 
             prev_day = prev_opens[bad_ix]
-            prev_open, prev_close = (
-                self.schedule.iloc[prev_day].loc[
-                    ['market_open', 'market_close']
-                ]
-            )
-            next_open, next_close = (
-                self.schedule.iloc[prev_day + 1].loc[
-                    ['market_open', 'market_close']
-                ]
-            )
+            prev_open = prev_close = next_open = next_close = pd.NaT
+            if prev_day >= 0:
+                prev_open, prev_close = (
+                    self.schedule.iloc[prev_day].loc[
+                        ['market_open', 'market_close']
+                    ]
+                )
+            if prev_day + 1 < len(self.schedule):
+                next_open, next_close = (
+                    self.schedule.iloc[prev_day + 1].loc[
+                        ['market_open', 'market_close']
+                    ]
+                )
 
             raise ValueError(
                 "{num} non-market minutes in minute_index_to_session_labels:\n"
-- 
2.43.0


From 4893db96850a1a25bdc681eeb3472b2bb13be2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:58 +0000
Subject: [PATCH 06/10] fix: execution minutes of a range without sessions

An empty range raised ValueError from concatenate instead of returning no
minutes.
---
 trading_calendars/trading_calendar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index a1cd9e2..11d9671 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -652,6 +652,10 @@ class TradingCalendar(with_metaclass(ABCMeta)):
 
     def execution_minutes_for_sessions_in_range(self, start, stop):
         minutes = self.execution_minutes_for_session
+        if not len(self.sessions_in_range(start, stop)):
+            # Concatenate barfs if the input has length 0.
+            return self.all_minutes[:0]
+
         return pd.DatetimeIndex(
             np.concatenate([
                 minutes(session)
-- 
2.43.0


From afeffe9efc880583106bcd176c47158120c18d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:58 +0000
Subject: [PATCH 07/10] fix: restore the replaced entry when a forced alias is
 refused

Forcing an alias that turns out to be cyclic dropped the calendar that was
registered under that name before.
---
 trading_calendars/calendar_utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trading_calendars/calendar_utils.py b/trading_calendars/calendar_utils.py
index 79988e1..8fd5f83 100644
--- a/trading_calendars/calendar_utils.py
+++ b/trading_calendars/calendar_utils.py
@@ -309,6 +309,16 @@ class TradingCalendarDispatcher(object):
             If False, name collisions will raise an exception.
             Default is False.
         """
+        previous = [
+            (registry, registry[alias])
+            for registry in (
+                self._calendars,
+                self._calendar_factories,
+                self._aliases,
+            )
+            if alias in registry
+        ]
+
         if force:
             self.deregister_calendar(alias)
 
@@ -323,6 +333,8 @@ class TradingCalendarDispatcher(object):
             self.resolve_alias(alias)
         except CyclicCalendarAlias:
             del self._aliases[alias]
+            for registry, value in previous:
+                registry[alias] = value
             raise
 
     def resolve_alias(self, name):
-- 
2.43.0


From 32dae41c8d454deb21ffcd0d975e4aaf896cd5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:58 +0000
Subject: [PATCH 08/10] fix: XKLS early closes that fall on holidays

The calendar could not be built over ranges including these dates.
---
 trading_calendars/exchange_calendar_xkls.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trading_calendars/exchange_calendar_xkls.py b/trading_calendars/exchange_calendar_xkls.py
index 1f3c36f..2081896 100644
--- a/trading_calendars/exchange_calendar_xkls.py
+++ b/trading_calendars/exchange_calendar_xkls.py
@@ -132,6 +132,11 @@ class XKLSExchangeCalendar(TradingCalendar):
             pd.Timestamp('2002-02-11'),
             pd.Timestamp('2003-01-31'),
             pd.Timestamp('2004-01-21'),
+            # Collisions with Federal Territory Day, Thaipusam and the Eids
+            pd.Timestamp('1984-02-01'),
+            pd.Timestamp('2029-02-13'),
+            pd.Timestamp('2031-01-23'),
+            pd.Timestamp('2049-02-01'),
             # Eid al-Fitr Eve was a holiday in 2003
             pd.Timestamp('2003-11-24'),
         ]
-- 
2.43.0


From d821f4ac12d26d0212ed898f2bd72354dc929ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:58 +0000
Subject: [PATCH 09/10] fix: XIST early close that falls on a holiday

The calendar could not be built over ranges including 2029-04-23.
---
 trading_calendars/exchange_calendar_xist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading_calendars/exchange_calendar_xist.py b/trading_calendars/exchange_calendar_xist.py
index d8ae1f5..65b30e6 100644
--- a/trading_calendars/exchange_calendar_xist.py
+++ b/trading_calendars/exchange_calendar_xist.py
@@ -193,6 +193,8 @@ class XISTExchangeCalendar(TradingCalendar):
         collisions = [
             # CAYS Day on May 19
             pd.Timestamp('1994-05-19'),
+            # National Sovereignty and Children's Day on Apr 23
+            pd.Timestamp('2029-04-23'),
             # Day before Eid al Fitr observed as holiday in 2003
             pd.Timestamp('2003-11-24'),
         ]
-- 
2.43.0


From 1cbccab3e362a4715181e36344ba6e9fea5bfd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:35 +0000
Subject: [PATCH 10/10] fix: early close listed twice when two rules name the
 same session

On 2008-04-30 two early close rules of XSTO coincide (the eves of Labour Day
and of Ascension Day). The session was listed twice in early_closes.
---
 trading_calendars/trading_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 11d9671..af88669 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -194,11 +194,11 @@ class TradingCalendar(with_metaclass(ABCMeta)):
 
         self._late_opens = pd.DatetimeIndex(
             _special_opens.map(self.minute_index_to_session_labels)
-        )
+        ).unique()
 
         self._early_closes = pd.DatetimeIndex(
             _special_closes.map(self.minute_index_to_session_labels)
-        )
+        ).unique()
 
     @lazyval
     def day(self):
-- 
2.43.0

