"""C25: conversions of times and comparisons of units are exact."""
import datetime
import itertools
import os
import time

import numpy as np

from mc import load
from mc.core import Violation

ID = "C25"
LEVEL = "exploration"
RULE = (
    "a case is one day converted at every listed time of day in every resolution of datetime64 in one local time zone (compared with "
    "proleptic Gregorian day counting), or one string compared with every other string of the bounded set as units; all are distinct"
)
ASSUMPTIONS = [
    "years 1 to 9999, as datetime.datetime; nanoseconds are rounded to a neighbouring microsecond in any direction",
]
ZONES = ("UTC", "America/Los_Angeles", "XXX-5:30", "AAA+11BBB,M3.2.0,M11.1.0")
UNITS = ("D", "h", "m", "s", "ms", "us", "ns")
SECONDS = (0, 1, 59, 60, 3599, 3600, 7199, 43200, 86399)
MICROS = (0, 1, 2, 3, 1000, 499999, 500000, 500001, 999000, 999998, 999999)
SIZE = {"D": 86400 * 10 ** 6, "h": 3600 * 10 ** 6, "m": 60 * 10 ** 6, "s": 10 ** 6, "ms": 10 ** 3, "us": 1}


def jobs(tier, seed):
    return ([{"what": "dates", "zone": z, "part": k, "parts": 4} for z in ZONES for k in range(4)]
            + [{"what": "edges"}] + [{"what": "units", "part": k, "parts": 4} for k in range(4)])


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_from_1970():
    """Yields (days since 1970-01-01, (year, month, day)) for every day of years 1 to 9999."""
    n = sum(366 if is_leap(y) else 365 for y in range(1, 1970))
    k = -n
    for y in range(1, 10000):
        for m, length in enumerate((31, 29 if is_leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31), 1):
            for d in range(1, length + 1):
                yield k, (y, m, d)
                k += 1


def chosen(deep):
    for k, (y, m, d) in days_from_1970():
        dense = y in (1, 1582, 1969, 1970, 1972, 2000, 2016, 2038, 9999)
        sparse = m in (1, 2, 3, 12) and d in (1, 28, 29, 31) and (deep or y % 7 == 0 or y % 100 == 0)
        if dense or sparse or 1899 < y < 2101 and d in (1, 28, 29, 30, 31):
            yield k, (y, m, d)


def run_job(job, rec):
    util = load.util()
    globals()["job_" + job["what"]](job, rec, util)


def want(k, date, us):
    s, us = divmod(us, 10 ** 6)
    return (*date, s // 3600, s // 60 % 60, s % 60, us)


def fields(d):
    return (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)


def job_dates(job, rec, util):
    os.environ["TZ"] = job["zone"]
    time.tzset()
    deep = job["tier"] == "thorough"
    for i, (k, date) in enumerate(chosen(deep)):
        if i % job["parts"] != job["part"]:
            continue

        def go():
            for j, (s, u) in enumerate(itertools.product(SECONDS, MICROS)):
                if not deep and j and (j + i) % 5:
                    continue
                us = s * 10 ** 6 + u
                total = k * 86400 * 10 ** 6 + us
                for unit in UNITS:
                    if unit == "ns":
                        if not -9 * 10 ** 15 < total < 9 * 10 ** 15:
                            continue
                        values = [(total * 1000 + n, us, n) for n in (0, 1, 500, 999)]
                    else:
                        values = [(total // SIZE[unit], (total // SIZE[unit]) * SIZE[unit] - k * 86400 * 10 ** 6, 0)]
                    for count, rest, n in values:
                        t = np.datetime64(count, unit)
                        got = util.datetime64_to_datetime(t)
                        ok = [want(k, date, rest)] + ([fields(datetime.datetime(*want(k, date, rest)) + datetime.timedelta(microseconds=1))] if n else [])
                        if not isinstance(got, datetime.datetime) or got.tzinfo is not None or fields(got) not in ok:
                            raise Violation(f"{t!r} converted to {got!r} in time zone {job['zone']}")
                        rec.transitions += 1

        rec.case({"zone": job["zone"], "day": date}, go)


def job_edges(job, rec, util):
    for name, t in (("not a time", np.datetime64("NaT")), ("year 10000", np.datetime64("10000-01-01", "s")),
                    ("year 0", np.datetime64("0000-12-31", "s"))):
        def go():
            try:
                got = util.datetime64_to_datetime(t)
            except Exception:
                return
            raise Violation(f"{name} ({t!r}) was converted to {got!r}")
        rec.case({"edge": name}, go)


def job_units(job, rec, util):
    deep = job["tier"] == "thorough"
    alphabet = ("m", "s", "M", "/", " ", "\t", "-1")
    strings = ["".join(p) for n in range(5 if deep else 4) for p in itertools.product(alphabet, repeat=n)]
    for i, a in enumerate(strings):
        if i % job["parts"] != job["part"]:
            continue

        def go():
            for b in strings:
                same = a.strip(" \t") == b.strip(" \t")
                got = util.units_are_equal(a, b)
                if bool(got) != same:
                    raise Violation(f"units {a!r} and {b!r}: equal is {got!r}")
                try:
                    r = util.ensure_equal_units(a, b)
                except util.UnitsError:
                    if same:
                        raise Violation(f"equal units {a!r} and {b!r} were refused")
                else:
                    if not same or r is not None:
                        raise Violation(f"units {a!r} and {b!r} were accepted ({r!r})")
                rec.transitions += 1

        rec.case({"units": a}, go)
