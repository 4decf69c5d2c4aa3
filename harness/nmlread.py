"""Reads an INDATA namelist with f90nml: scalars and vectors by name, boundary tables as {(n, m): value}."""
import f90nml, io
TABLES = ("rbc", "zbs", "rbs", "zbc")
def read(text):
    g = f90nml.Parser().reads(text)["indata"]
    d, t = {}, {}
    for k in g:
        v = g[k]
        if k in TABLES:
            si = g.start_index[k]; e = {}
            for j, row in enumerate(v):
                if not isinstance(row, list): row = [row]
                for i, x in enumerate(row):
                    if x is not None: e[si[0] + i, si[1] + j] = float(x)
            t[k] = e
        else: d[k] = v
    return d, t
