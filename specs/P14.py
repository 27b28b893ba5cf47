from vfe import Ob, Api
LEVEL = "proof"
M = 2147483647
# every value read: acronyms are mapped, everything else passes; the list of acronyms (any length) by its contract
OBS = [Ob("pass", "acro.cpp", "c_pass", [], unwind=20, timeout=200, reach=False)]
OBS += [Ob("remap%d" % k, "acro.cpp", "c_remap", [k, M, M, 1], unwind=20, timeout=200, reach=False) for k in (0, 1, 2)]
OBS += [Ob("remap%d_unit" % k, "acro.cpp", "c_remap", [k, 100, 100, 0], unwind=20, timeout=200, reach=False, bounded="the real acronym unit, numbers up to 100") for k in (0, 1, 2)]
OBS += [Ob("number_%d_%d" % (k, l), "acro.cpp", "c_number", [k, l], unwind=20, timeout=400, tier=t, bounded="acronym numbers from %d to %d" % (k, l))
        for k, l, t in ((-5, 10, "quick"), (1, 300, "quick"), (1, 65535, "thorough"))]
# the list behind it, short lists with arbitrary contents
OBS += [Ob("find%d" % k, "acrolist.cpp", "c_find", [k], unwind=20, timeout=200, reach=False, bounded="%d entries" % k) for k in (0, 1, 3)]
OBS += [Ob("getmap%d" % k, "acrolist.cpp", "c_getmap", [k], unwind=20, timeout=200, reach=False, bounded="%d entries" % k) for k in (0, 3)]
OBS += [Ob("setmap%d" % k, "acrolist.cpp", "c_setmap", [k, 1], unwind=20, timeout=250, weight=2, reach=False, tier=t, bounded="%d entries" % k) for k, t in ((1, "thorough"), (2, "quick"), (3, "thorough"))]
API = [Api("api_acro", "api_tab.cpp", "api_acro", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "mapping of every value read, for all numbers and lists of any length (list by contract); list operations for short lists with arbitrary contents (bounded); files by bounded stand-in"
ASSUME = ['the acronym unit is taken as a power of two where all acronym numbers are covered (the code uses it only as a factor and divisor); with the real unit numbers are covered up to the stated bound']
