"""Reference tariff: what each hour of the year costs, straight from the user's definition."""
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
NAMES = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
MONTH = [m for m, d in enumerate(DAYS) for _ in range(d * 24)]
CALENDAR = [(m, d + 1, h) for m, n in enumerate(DAYS) for d in range(n) for h in range(24)]
assert len(MONTH) == 8760


def covered(h, a, b):
    """Whole clock hours h within [a, b); b before a wraps over midnight."""
    return (a <= h < b) if b >= a else (h >= a or h < b)


class Tariff:
    """hour -> (energy rate, group, demand rate, kind); hours share a demand period exactly when their group is equal."""

    def __init__(self, energy, group, demand, kind, base):
        self.energy, self.group, self.demand, self.kind, self.base = energy, group, demand, kind, base


def from_seasons(case):
    e, g, d, k = [], [], [], []
    season = {}
    for i, (a, b) in enumerate(zip(case["start_month"], case["end_month"])):
        for m in range(a, b):
            season[m] = i
    for (m, day, h) in CALENDAR:
        i = season[m]
        if covered(h, case["pk_start_hour"][i], case["pk_end_hour"][i]):
            kind = "peak"
        elif case.get("discount") and covered(h, case["discount"]["start"][i], case["discount"]["end"][i]):
            kind = "discount"
        else:
            kind = "off"
        rates = {"peak": ("pk_energy_charge", "pk_demand_charge"), "off": ("off_pk_energy_charge", "off_pk_demand_charge")}
        if kind == "discount":
            e.append(case["discount"]["energy"][i])
            d.append(case["discount"]["demand"][i])
        else:
            e.append(case[rates[kind][0]][i])
            d.append(case[rates[kind][1]][i])
        g.append((m, kind))
        k.append(kind)
    return Tariff(e, g, d, k, case["base"])


def from_rows(rows, base):
    """rows: (period, energy or None, demand or None); blanks repeat the first rates of that period."""
    first = {}
    e, g, d, k = [], [], [], []
    for p, en, de in rows:
        if p not in first:
            first[p] = (en, de)
        e.append(en if en is not None else first[p][0])
        d.append(first[p][1])
        g.append(p)
        k.append("peak" if p % 2 == 1 else "off")
    return Tariff(e, g, d, k, base)
