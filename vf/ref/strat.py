"""Geometry of the stratified profile T(x) = clamp(slope*x + b, cold, hot), x in percent of height."""


def clampv(v, lo, hi):
    return lo if v < lo else hi if v > hi else v


def temp(x, slope, b, cold, hot):
    return clampv(slope * x + b, cold, hot) if cold <= hot else max(cold, min(hot, slope * x + b))


def integral(x0, x1, slope, b, cold, hot):
    """Exact integral of the clamped profile between two heights (percent)."""
    if x1 <= x0:
        return 0.0
    xc = (cold - b) / slope
    xh = (hot - b) / slope
    pts = sorted({x0, x1, clampv(xc, x0, x1), clampv(xh, x0, x1)})
    s = 0.0
    for p, q in zip(pts, pts[1:]):
        s += 0.5 * (temp(p, slope, b, cold, hot) + temp(q, slope, b, cold, hot)) * (q - p)
    return s


def avg_draw(gal, vol, slope, b, cold, hot):
    """Volume-average temperature of the top `gal` gallons."""
    gal = min(gal, vol)
    if gal <= 0:
        return hot
    x0 = max(0.0, 100.0 - gal / vol * 100.0)
    if x0 >= 100.0:
        return hot
    return integral(x0, 100.0, slope, b, cold, hot) / (100.0 - x0)


def usable_supply_gal_per_100(on_fract, on_temp, slope, supply, storage, inlet):
    """Supply-temperature gallons a 100-gal tank still holds above the sensor when the sensor sits at on_temp.

    Profile through (on_fract, on_temp) with the given slope, capped at storage; counted from the sensor
    (or from the height where supply temperature is reached, if higher) to the top."""
    on = 100.0 * on_fract
    b = on_temp - slope * on
    start = max(on, (supply - b) / slope)
    if start >= 100.0:
        return 0.0
    i = integral(start, 100.0, slope, b, -1e9, storage)
    return (i - inlet * (100.0 - start)) / (supply - inlet)
