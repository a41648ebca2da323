"""Which harness package decides which property, and how many cases each tier generates."""
CHECKS = {}

def c(pid, pkg, quick, thorough, level="exploration", **kw):
    CHECKS[pid] = dict(pkg=pkg, quick=quick, thorough=thorough, level=level, **kw)

c("T01", "light", 8000, 400000)
c("T02", "light", 20000, 1000000)
c("T06", "light", 8000, 300000)
c("T07", "light", 20000, 1000000)
c("L01", "light", 6000, 200000)
c("L02", "light", 6000, 200000)

NOT_APPLICABLE = {}

c("M01", "msgs", 20000, 800000)
c("M02", "msgs", 30000, 1500000)
c("M03", "msgs", 20000, 800000)

c("A01", "act", 4000, 150000)
c("A02", "act", 4000, 150000)
c("A03", "act", 4000, 150000)
c("A05", "act", 3000, 120000)
c("A10", "act", 4000, 200000)
c("A06", "act", 4000, 150000)
c("A07", "act", 4000, 150000)
c("A04", "act", 20000, 1000000)
c("A09", "act", 8000, 300000)
c("A08", "act", 4000, 150000)
c("A11", "act", 4000, 150000)
c("L03", "ps", 1500, 60000)
c("L04", "ps", 3000, 100000)
c("L05", "ps", 3000, 100000)
c("S01", "sys", 3000, 100000)
c("S02", "sys", 3000, 100000)
c("S03", "sys", 3000, 100000)
c("S07", "sys", 3000, 100000)
c("S08", "sys", 3000, 100000)
c("S06", "sys", 3000, 100000)
c("S09", "sys", 3000, 100000)
c("S04", "clu", 6000, 100000)
c("S05", "clu", 600, 20000)
c("G01", "rpc", 8000, 300000)
c("G02", "rpc", 3000, 40000)
c("T03", "light", 8000, 300000)
c("T05", "red", 8000, 150000)
c("T08", "light", 4000, 150000)
c("T10", "light", 2000, 100000)
c("T11", "light", 4000, 150000)
c("T09", "mdb", 12000, 400000)
c("T04", "clu", 3000, 60000)
