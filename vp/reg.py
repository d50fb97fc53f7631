"""Registry: property -> facets (generator + executable oracle + case counts)."""
PROPS = {}
# the quick tier is scaled to roughly half a minute to a minute and a half per property on 8 cores
SCALE = {"P11": 4, "P12": 4, "P13": 3, "P18": 3, "P20": 5, "P05": 3, "P04": 2, "P06": 2, "P07": 3, "P08": 3, "P09": 3, "P10": 3,
         "P03": 2, "P14": 2, "P16": 2, "P17": 2, "P24": 3, "P23": 2, "P15": 2, "P01": 2, "P02": 2}


def prop(pid, rule, assumptions, facets):
    for f in facets:
        f["quick"] = min(f["quick"] * SCALE.get(pid, 1), f["thorough"])
    PROPS[pid] = {"rule": rule, "assumptions": assumptions, "facets": facets}


def F(name, g, quick, thorough, facet=None, **k):
    d = {"name": name, "facet": facet or name, "gen": g, "quick": quick, "thorough": thorough}
    d.update(k)
    return d


def scale_for(t):
    return {"Cloglog": 0.4, "Scobit": 0.7}.get(t, 1.0)
