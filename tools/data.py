# the checks: the harness binary which decides the property and how it is built
CHECKS = {}


def _c(pid, binary, race=False, level="exploration", **kw):
    CHECKS[pid] = dict(bin=binary, race=race, level=level, **kw)


for _p in ("D01", "D02", "D03", "D04", "D05", "D07", "D08", "R01", "M01", "M03", "M04"):
    _c(_p, "vhstore")
for _p in ("D06", "R02", "R03", "R04", "M02"):
    _c(_p, "vhstore", race=True)
for _p in ("Q01", "Q02", "Q03", "Q04", "Q05", "L14"):
    _c(_p, "vhql")
for _p in ("K01", "L01", "L03", "L05", "L09", "L11", "L12", "L13"):
    _c(_p, "vhlib")
for _p in ("K02", "K03", "L02", "L04", "L06", "L07", "L08", "L10"):
    _c(_p, "vhlib", race=True)
for _p in ("A01", "A02", "A03", "A04", "A05"):
    _c(_p, "vhapi", race=True)
NOT_APPLICABLE = {}
