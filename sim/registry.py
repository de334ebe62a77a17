"""property id -> (module, quick runs, thorough runs)"""
import importlib

TABLE = {}


def reg(prop, module, quick, thorough, level="exploration"):
    TABLE[prop] = dict(module=module, quick=quick, thorough=thorough, level=level)


for _p, _n in dict(W01=30000, W02=30000, W03=30000, W04=20000, W05=20000, W06=20000, W07=20000, W08=30000, W09=15000,
                   W10=20000).items():
    reg(_p, "scn.web", _n, _n * 40)

for _p in ("D01", "D02", "D03", "D04", "D05"):
    reg(_p, "scn.lm", 10000, 400000)

for _p in ("K01", "K02", "K03", "K04", "K05", "K06", "K07", "K08"):
    reg(_p, "scn.kel", 1500, 80000)


for _p in ("R01", "R02", "R03", "R04"):
    reg(_p, "scn.rpy", 1500, 100000)


def make(prop):
    return importlib.import_module(TABLE[prop]["module"]).make(prop)

for _p in ("M01", "M02", "M03", "M04", "M05"):
    reg(_p, "scn.kram", 1500, 100000)

for _p in ("T01", "T02", "T03", "T04", "T05", "T06"):
    reg(_p, "scn.tel", 1500, 80000)

for _p in ("H01", "H02", "H03", "H04", "H05"):
    reg(_p, "scn.hab", 1500, 60000)

for _p in ("P01", "P02", "P03"):
    reg(_p, "scn.parse", 3000, 200000)

for _p in ("X01", "X02", "X03", "X04"):
    reg(_p, "scn.xchg", 1200, 60000)

for _p in ("Q01", "Q02", "Q03"):
    reg(_p, "scn.qry", 900, 40000)

for _p in ("G01", "G02", "G03"):
    reg(_p, "scn.grp", 900, 40000)

for _p in ("C01", "C02"):
    reg(_p, "scn.iss", 900, 40000)
