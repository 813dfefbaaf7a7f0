"""Writes properties.jsonl (kept as a script so the texts are easy to edit)."""
import json, os
TC = "trading_calendars/trading_calendar.py"
CH = "trading_calendars/calendar_helpers.py"
CU = "trading_calendars/calendar_utils.py"
PU = "trading_calendars/utils/pandas_utils.py"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "The list of trading minutes is exactly the open minutes",
     "The list of all trading minutes of a calendar is strictly increasing and holds, for every session, each minute from its open to its close inclusive, except the minutes strictly between the start and the end of its lunch break. It holds nothing else.",
     ["inputs", "configurations"],
     "every calendar: any number of sessions, any opens/closes/breaks that are ordered and a whole number of minutes apart, break present or absent session by session",
     "Tests compare the minute list with recorded answers for a handful of dates; they never see single-minute sessions, back-to-back sessions, breaks touching the open or close, or sessions where only some have a break.",
     [TC, CH], [("minute list from opens, breaks and closes", CH + ":compute_all_minutes"), ("cached minute list", TC + ":all_minutes")])
prop("C02", "Open/closed verdict is right at every instant",
     "Asking whether a calendar is open at an instant answers yes exactly when that instant lies between some session's open and close (both included) and not strictly inside that session's lunch break. When breaks are to be ignored, the break is treated as open. The answer is never an error, also before the first open and after the last close.",
     ["inputs", "configurations"],
     "every instant (any nanosecond, in or out of the calendar's range) and every calendar schedule, with and without breaks",
     "Tests sample a few minutes per exchange and only the middle of the break; the exact boundaries and the instants outside the range are not sampled.",
     [TC], [("open verdict", TC + ":is_open_on_minute")])
prop("C03", "Next/previous open and close are the nearest ones",
     "The next open (or close) after an instant is the earliest open (close) strictly later than it, and the previous one is the latest strictly earlier. When the calendar has none, an error is raised; no other time is ever returned.",
     ["inputs", "configurations"],
     "every instant at nanosecond resolution and every calendar schedule with any number of sessions",
     "Tests step through recorded opens with a fixed 1-minute nudge in the middle of a calendar.",
     [TC, CH], [("next/previous open/close", TC + ":next_open,next_close,previous_open,previous_close"), ("boundary search", CH + ":next_divider_idx,previous_divider_idx")])
prop("C04", "Next/previous trading minute is the nearest one",
     "The next (previous) minute of an instant is the earliest (latest) trading minute strictly after (before) it, and an error is raised when there is none.",
     ["inputs", "configurations"],
     "every instant, on or off a minute, and every calendar",
     "Tests only use minutes at session edges of recorded sessions.",
     [TC, CH], [("minute navigation", TC + ":next_minute,previous_minute"), ("boundary search", CH + ":next_divider_idx,previous_divider_idx")])
prop("C05", "An instant is mapped to the right session in every direction mode",
     "An instant from a session's open to its close maps to that session under the 'next' and 'previous' rules; otherwise 'next' gives the first session that closes later, 'previous' gives the last session that closed earlier, and if there is no such session an error is raised. Under 'none' the session is returned when the calendar is open at that instant and an error is raised otherwise. An unknown rule raises an error.",
     ["inputs", "configurations"],
     "every instant (inside sessions, gaps, breaks, before the first and after the last session), every rule name and every calendar",
     "Tests check chosen gaps in the middle of a calendar; not the edges of the calendar nor odd nanoseconds.",
     [TC], [("minute to session", TC + ":minute_to_session_label")])
prop("C06", "Queries never influence later answers",
     "Every answer of a calendar depends only on the question: asking any sequence of questions, in any order and with any repetition, gives each question the same answer as on a fresh calendar. Queries do not change the schedule, the sessions, or the opens and closes.",
     ["histories", "inputs"],
     "every sequence of query calls on one calendar object, including alternating direction rules on one instant",
     "The one-entry memory of the last mapped minute only goes wrong under specific call sequences; tests build one calendar and ask unrelated questions.",
     [TC, "trading_calendars/utils/memoize.py"], [("last answer memory", TC + ":minute_to_session_label"), ("lazily computed attributes", "trading_calendars/utils/memoize.py:lazyval")],
     state=[{"name": "last answer", "meaning": "one-entry minute/session memory", "where": TC}])
prop("C07", "Bulk minute-to-session mapping agrees with the single mapping",
     "Mapping a sorted list of minutes to sessions gives, element by element, the session whose open-to-close span contains the minute. If any of the minutes lies outside every such span the whole call raises ValueError. Lists that are not sorted raise ValueError.",
     ["inputs", "configurations"],
     "every list of instants of any length (empty, repeated, out of range, unsorted) and every calendar",
     "Tests only map complete lists of valid minutes plus one bad example.",
     [TC], [("bulk minute to session", TC + ":minute_index_to_session_labels")])
prop("C08", "Session navigation is consistent",
     "Next and previous session step exactly one session in order and are inverse to each other; stepping off either end raises ValueError. Sessions in a range are exactly the sessions between two dates (both included), a window of N sessions is the N further (or earlier) sessions plus the start, cut off at the calendar's ends, and the distance between two sessions counts the sessions from one to the other, both ends included, negative when reversed. Being a session is true exactly for the labels in the list of sessions.",
     ["inputs", "configurations"],
     "every pair of dates (sessions or not, in or out of range), every window size positive or negative, every calendar",
     "Tests use fixed windows well inside the calendar; clamping at the ends and reversed or empty ranges are not covered.",
     [TC], [("session navigation", TC + ":next_session_label,previous_session_label,sessions_in_range,sessions_window,session_distance,is_session")])
prop("C09", "Minute ranges and windows return exactly the right minutes",
     "Minutes in a range are exactly the trading minutes between two instants, both included. A window of N minutes holds N minutes that begin (N positive) or end (N negative) with the last trading minute at or before the start instant, cut off at the calendar's ends. Minutes of a session, or of a range of sessions, are exactly the trading minutes from the first open to the last close of those sessions.",
     ["inputs", "configurations"],
     "every pair of instants (on or off minutes, in or out of range, reversed), every window size positive or negative, every session or session range",
     "Tests use ranges whose ends are exactly trading minutes, away from the ends of the calendar.",
     [TC], [("minute ranges", TC + ":minutes_in_range,minutes_window,minutes_for_session,minutes_for_sessions_in_range")])
prop("C10", "Minute counts agree with the minutes themselves",
     "The number of minutes reported for a range of sessions equals the number of trading minutes that the calendar lists for those sessions.",
     ["inputs", "configurations"],
     "every range of sessions, with special opens, special closes and lunch breaks anywhere in it",
     "The count is calculated from open/close arithmetic separately from the minute list; tests compare them on a few ranges of calendars without breaks.",
     [TC], [("minute count", TC + ":_minutes_per_session,minutes_count_for_sessions_in_range")])
prop("C11", "Per-session times match the schedule",
     "The open, close, break start and break end reported for a session are the ones in its schedule row, singly, in pairs, and for a range of sessions (row by row, in session order). A session without break reports no break times, and asking for a label that is not a session raises an error.",
     ["inputs", "configurations"],
     "every session label, every range of labels and every schedule",
     "Tests read the times of a few sessions.",
     [TC], [("per-session access", TC + ":session_open,session_close,session_break_start,session_break_end,open_and_close_for_session,break_start_and_end_for_session,session_opens_in_range,session_closes_in_range")])
prop("C12", "Opens and closes follow the exchange's local-time rules and exceptions",
     "Each session's open, close and break times are the exchange's local wall-clock times in force on that session's date (the entry with the latest start date not after it), shifted by the day offset and converted to UTC. On dates with a special open or close the special time replaces the regular one, and a session with a special close has no lunch break. A special date inside the calendar's range that is not a session makes construction fail with ValueError.",
     ["configurations", "inputs"],
     "every time zone, every list of time changes, every set of special opens/closes (rule-based and one-off), every offset and every date",
     "Each exchange fixes one configuration; rule changes on the boundary date, overlapping special dates, or breaks on special dates are not exercised by the recorded answers.",
     [TC, PU], [("effective-dated times", TC + ":_group_times,selection"), ("special dates", TC + ":_special_dates,_calculate_special_opens,_calculate_special_closes,_overwrite_special_dates,_remove_breaks_for_special_dates"), ("local to UTC", PU + ":days_at_time")])
prop("C13", "A session's times do not depend on the requested range",
     "Building the same calendar over two different date ranges gives the same sessions, and the same open, close and break times for each, on every date inside both ranges, including the first and last date of either.",
     ["configurations", "inputs"],
     "every pair of overlapping ranges, with special opens or closes on and around the range ends",
     "Tests build each calendar over one range.",
     [TC], [("restriction to the range", TC + ":_special_dates,__init__")])
prop("C14", "Local times of day convert to UTC per date",
     "For a list of dates, a local time of day, a time zone and a day offset, the result is for each date the UTC instant at which that zone's clock shows that time (hours, minutes, seconds) on the date shifted by the offset. The result has one entry per date in the same order, also for an empty list.",
     ["inputs", "configurations"],
     "every list of dates, time of day, offset and zone (daylight saving changes included)",
     "Tests check five dates in one zone.",
     [PU], [("local to UTC", PU + ":days_at_time")])
prop("C15", "Calendar lookup follows the registered names and aliases",
     "Looking up a name follows aliases to the end of the chain and returns the calendar registered under that name, or the one its registered type builds; the same object is returned on every later lookup until it is deregistered. An unknown name raises an invalid-name error. The list of names holds exactly the registered calendars, types and aliases.",
     ["histories", "inputs"],
     "every sequence of register, alias, deregister, clear and lookup calls with any names, alias chains of any length",
     "Tests use four names and short fixed sequences.",
     [CU], [("name registry", CU + ":TradingCalendarDispatcher.get_calendar,resolve_alias,has_calendar,get_calendar_names")],
     state=[{"name": "registry", "meaning": "registered calendars, types, aliases", "where": CU}])
prop("C16", "A refused registration changes nothing",
     "Registering a calendar, type or alias under a name already in use raises a collision error unless forced, and an alias that would close a loop raises a cyclic-alias error; after such an error the registry answers every lookup as before. A successful registration (forced or not) leaves the name bound only to the new entry and all other names unchanged, so alias chains never loop.",
     ["histories", "fault_sequences"],
     "every registry state reachable by the public operations, every name and every forced or unforced operation including failing ones",
     "Tests check that errors are raised, not what the registry answers afterwards.",
     [CU], [("registration", CU + ":TradingCalendarDispatcher.register_calendar,register_calendar_type,register_calendar_alias,deregister_calendar,clear_calendars,has_calendar")],
     state=[{"name": "registry", "meaning": "registered calendars, types, aliases", "where": CU}])
prop("C17", "Every default name resolves to a working calendar of its own",
     "Every name and alias in the default registry resolves in finitely many steps to a registered calendar type, alias names do not shadow calendar names, and separate registries created from the same defaults do not share changes. The calendars built have distinct names.",
     ["inputs", "histories"],
     "every default name and alias; every registration made on one registry while another one exists",
     "Tests look up a few default names and use one registry at a time.",
     [CU], [("default registry", CU + ":_default_calendar_factories,_default_calendar_aliases")])
prop("C18", "Lazily computed attributes are computed once per object",
     "A lazily computed attribute gives each object its own value, computed from that object on first use, at most once, and unchanged on later use, independently of any other object (objects are compared by identity). Attempts to set it are refused and reading it on the class gives the descriptor itself.",
     ["histories", "inputs"],
     "every interleaving of accesses over any number of objects, including computations that raise",
     "No test reads a lazy attribute from several objects in turn.",
     ["trading_calendars/utils/memoize.py"], [("memoised attribute", "trading_calendars/utils/memoize.py:lazyval")],
     state=[{"name": "memory", "meaning": "per-object memoised value", "where": "trading_calendars/utils/memoize.py"}])
prop("C19", "Calendars with recorded holidays refuse years they do not know",
     "A calendar whose holidays are recorded in tables can only be built when all its sessions lie in years that every table covers (from the year of its first to the year of its last holiday, both included); otherwise construction raises ValueError. A calendar with one such table, built without explicit dates, covers exactly those whole years.",
     ["inputs", "configurations"],
     "every holiday table and every start/end pair relative to it",
     "Tests try one bad start and one bad end per calendar.",
     ["trading_calendars/precomputed_trading_calendar.py", "trading_calendars/exchange_calendar_xhkg.py"], [("year guard", "trading_calendars/precomputed_trading_calendar.py:__init__"), ("year guard HK", "trading_calendars/exchange_calendar_xhkg.py:__init__")])
prop("C20", "The printed month calendar shows every day and marks closures",
     "The text calendar of a month shows every day of the month exactly once, in order, in the column of its weekday (weeks start on Sunday), and puts brackets around exactly the days that are not sessions.",
     ["inputs", "configurations"],
     "every year and month (all month lengths and first weekdays) and every pattern of sessions",
     "No test runs the text calendar.",
     ["trading_calendars/tcal.py"], [("month rendering", "trading_calendars/tcal.py:_render_month,_concat_lines,main")])
prop("C21", "Execution minutes are the trading minutes inside execution hours",
     "A session's execution minutes are exactly its trading minutes between its execution open and execution close; for the US futures calendar these are 12.5 hours after its open and 1 hour before its close, for other calendars the open and the close themselves. For a range of sessions they are the execution minutes of each session in order, and a range without sessions has none.",
     ["inputs", "configurations"],
     "every session and range of sessions (empty and reversed ranges included) of every calendar",
     "Tests check one range of one futures calendar.",
     [TC, "trading_calendars/us_futures_calendar.py"], [("execution hours", TC + ":execution_minutes_for_session,execution_minutes_for_sessions_in_range,execution_time_from_open,execution_time_from_close"), ("futures offsets", "trading_calendars/us_futures_calendar.py")])
prop("C22", "Holiday observance rules do what they document for every date",
     "Each rule that moves, drops or adds holidays according to the weekday or year (for example nearest Monday, four-day weekend, Sunday to Tuesday, following Tuesday every fourth year) returns what its description says for every date it is given.",
     ["inputs"],
     "every date of every year, alone and in lists of any length",
     "Recorded answers cover the weekdays a holiday happened to fall on in about 20 years.",
     ["trading_calendars/common_holidays.py", "trading_calendars/us_holidays.py", "trading_calendars/xtks_holidays.py", "trading_calendars/xbkk_holidays.py", "trading_calendars/exchange_calendar_xbud.py", "trading_calendars/exchange_calendar_xbue.py", "trading_calendars/exchange_calendar_xsgo.py", "trading_calendars/exchange_calendar_xtai.py", "trading_calendars/exchange_calendar_xmos.py", "trading_calendars/exchange_calendar_xphs.py", "trading_calendars/exchange_calendar_xwar.py", PU],
     [("observance rules", "exchange_calendar_*.py / *_holidays.py observance functions")])
prop("C23", "The list of sessions is the working days that are not holidays",
     "A calendar's sessions are exactly the dates from its start to its end, in order, that fall on a working weekday of the exchange and are neither a regular nor a one-off holiday. The first and last session reported are the first and last of them, and a range without any session is refused with an error.",
     ["configurations", "inputs"],
     "every set of regular and one-off holidays, every working-week pattern, every range",
     "Tests fix one configuration per exchange.",
     [TC], [("session list", TC + ":__init__,day,first_trading_session,last_trading_session,first_session,last_session,opens,closes")])
prop("C24", "Late opens and early closes are exactly the special-time sessions",
     "The list of early closes (late opens) holds exactly the sessions, in the calendar's range, whose close (open) was replaced by a special time, each once and in order.",
     ["configurations", "inputs"],
     "every set of special opens and closes, inside and outside the range, with any time of day and day offset",
     "Tests check a few named early closes.",
     [TC], [("special session list", TC + ":__init__,late_opens,early_closes")])
prop("C25", "Every shipped calendar builds over its supported years and is well formed",
     "Every calendar in the default registry can be built over any date range it supports without an internal contradiction. In the result each open is before its close, breaks lie between them, each close is before the next open, and all times are whole minutes.",
     ["inputs", "configurations"],
     "all registered calendars and all date ranges from 1960 to 2060 (or the years the calendar documents)",
     "Tests build each calendar over about 1990-2020 and never the years outside it, where tables of special closes collide with holidays.",
     [TC, "trading_calendars/exchange_calendar_xkls.py", "trading_calendars/exchange_calendar_xist.py"], [("exchange definitions", "trading_calendars/exchange_calendar_*.py")])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
