"""Published data tables, read from the snapshot in vf/golden (never from the code under test)."""
import functools
import gzip
import json
import os

_G = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden")


@functools.lru_cache(None)
def _load(name):
    with gzip.open(os.path.join(_G, name), "rb") as f:
        return json.loads(f.read())


def climate():
    return _load("climate.json.gz")


def shapes():
    return _load("shapes.json.gz")


def maps():
    return _load("maps.json.gz")


def perf_samples():
    return _load("perf.json.gz")


RHO_CP = 8.353535
KBTUH_PER_KW = 3.412142
MONTH_DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def month_of_day(day):
    day %= 365
    m = 0
    while day >= MONTH_DAYS[m]:
        day -= MONTH_DAYS[m]
        m += 1
    return m


def month_of_hour(h):
    return month_of_day(h // 24)
