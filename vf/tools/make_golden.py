"""Writes vf/golden/: a snapshot of the published data tables (climate, load shapes, heater registry)
as shipped at the pinned commit.  Run once; the checks only read the result, never this script."""
import csv, gzip, json, os, sys
SRC = "/repo/src/ecoengine/data"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden")

def cols(name):
    with open(f"{SRC}/climate_data/{name}", newline="") as f:
        r = csv.reader(f); head = next(r); rows = [list(map(float, row[:96])) for row in r]
    return [[row[c] for row in rows] for c in range(96)]

clim = {"oat": cols("DryBulbTemperatures_ByClimateZone.csv"), "inlet": cols("InletWaterTemperatures_ByClimateZone.csv")}
for key, name, k in (("zip", "ZipCode_ClimateZone_Lookup.csv", "Zip Code"), ("station", "WeatherStation_ClimateZone_Lookup.csv", "Weather Station")):
    t = []
    with open(f"{SRC}/climate_data/{name}", newline="") as f:
        for row in csv.DictReader(f):
            t.append([row[k].strip(), int(row["Building CZ"])])
    clim[key] = t
shapes = {}
for fn in sorted(os.listdir(f"{SRC}/load_shapes")):
    if fn.endswith(".json"):
        shapes[fn[:-5]] = json.load(open(f"{SRC}/load_shapes/{fn}"))
maps = json.load(open(f"{SRC}/preformanceMaps/maps.json"))

def dump(name, obj):
    with open(f"{OUT}/{name}", "wb") as raw, gzip.GzipFile("", "wb", 9, raw, mtime=0) as f:
        f.write(json.dumps(obj, separators=(",", ":")).encode())
dump("climate.json.gz", clim); dump("shapes.json.gz", shapes); dump("maps.json.gz", maps)
print({k: len(v) for k, v in clim.items()}, len(clim["oat"][0]), len(clim["inlet"][0]), list(shapes), len(maps))

# performance samples: what the shipped maps say at fixed points (evaluated by the reference, which agrees with the tree)
sys.path[:0] = ["/repo/src", os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))]
import random
from vf.ref import perf
samples = {}
for name in maps:
    rng = random.Random(name)
    rows = []
    m = perf.Model(name)
    for k in range(60):
        oat = round(rng.choice([rng.uniform(-25, 120), rng.uniform(20, 90), rng.choice(m.edges() or [50.0])]), 2)
        out = round(rng.uniform(110, 170), 2)
        inl = round(rng.uniform(38, 80 if not name.endswith("MP") else 130), 2)
        how, c, w = m.query(oat, out, inl)
        rows.append([oat, out, inl, float(f"{c:.10g}"), float(f"{w:.10g}")])
    samples[name] = rows
dump("perf.json.gz", samples)
