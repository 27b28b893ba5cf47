from vfe import Ob, Api
LEVEL = "proof"
OBS = [Ob("table", "values.cpp", "c_table", [], unwind=24, timeout=120, reach=False)]
OBS += [Ob("value_nv%d_h%d" % (n, h), "values.cpp", "c_value", [n, h], unwind=24, timeout=400, weight=n, reach=False, tier=t)
        for n, h, t in ((1, 0, "quick"), (1, 1, "quick"), (1, 3, "quick"), (1, 5, "quick"), (5, 0, "quick"), (5, 1, "thorough"), (5, 3, "thorough"), (5, 5, "thorough"))]
API = [Api("api_sv", "api_data.cpp", "api_sv", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "all value bit patterns and all special-value tables of one record; table setup by c_table; whole files by bounded stand-in"
ASSUME = ['the two objects start from any pair of coupled states (same last key, same key ranges) that the API can establish; rec_init shows that a symbol starts coupled']
