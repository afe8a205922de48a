"""Which scenario families decide which property, and how many simulated runs each tier makes."""
import importlib

# property -> [(family, quick runs, thorough runs)]
PLAN = {
    "C01": [("axis", 2500, 40000), ("axi", 1200, 20000), ("axil", 1000, 15000), ("stream", 1500, 20000)],
    "C02": [("apb", 5000, 80000)],
    "C03": [("axi", 2500, 40000)],
    "C04": [("axis", 8000, 160000)],
    "C05": [("axis", 8000, 160000), ("stream", 2000, 30000)],
    "C06": [("axi", 2500, 40000)],
    "C07": [("axi", 2500, 40000)],
    "C08": [("axi", 2500, 40000)],
    "C09": [("axil", 4000, 60000)],
    "C10": [("apb", 5000, 80000)],
    "C11": [("axis", 3000, 40000), ("axi", 2000, 30000), ("axil", 1500, 20000), ("apb", 1500, 20000), ("stream", 1500, 20000)],
    "C12": [("axis", 3000, 40000), ("axi", 2000, 30000), ("axil", 1500, 20000), ("apb", 1500, 20000), ("stream", 2000, 30000)],
    "C13": [("axi", 2500, 40000), ("axil", 1500, 20000), ("apb", 1500, 20000)],
    "C14": [("axis", 5000, 80000), ("axi", 800, 15000), ("axil", 1000, 15000), ("apb", 1500, 20000), ("stream", 2500, 40000)],
    "C15": [("mem", 5000, 80000)],
    "C16": [("mem", 5000, 80000)],
    "C17": [("axi", 2500, 40000), ("axil", 1500, 20000), ("apb", 1500, 20000)],
    "C18": [("mem", 3000, 50000), ("axi", 1500, 20000), ("axil", 1000, 15000), ("apb", 1000, 15000)],
    "C19": [("axis", 3000, 40000), ("axi", 2000, 30000), ("axil", 1500, 20000), ("stream", 1500, 20000)],
    "C21": [("stream", 6000, 100000)],
    "C20": [("axi", 2500, 40000), ("axil", 1500, 20000), ("apb", 1500, 20000)],
    "C22": [("mem", 3000, 50000)],
    "C23": [("axi", 6000, 100000)],
}

_cache = {}


def family(name):
    if name not in _cache:
        _cache[name] = importlib.import_module("dst.fam_" + name)
    return _cache[name]

NOTES = {}
NOT_APPLICABLE = {}
