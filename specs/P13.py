from vfe import Ob, Api
LEVEL = "proof"
# reporting a failure / asking for it, from every error state
OBS = [Ob("record%d" % k, "errors.cpp", "c_record", [k], unwind=12, timeout=120, reach=False) for k in (0, 1, 2)]
OBS += [Ob("query%d" % k, "errors.cpp", "c_query", [k], unwind=12, timeout=120, reach=False) for k in (0, 1)]
# the list of refused records: one more record on a list of h records
OBS += [Ob("list_%d_d%d" % (h, d), "errors.cpp", "c_list", [h, d], unwind=40, timeout=250, weight=2, reach=False, tier=t)
        for h, d, t in ((0, 0, "quick"), (0, 1, "quick"), (1, 3, "quick"), (11, 1, "quick"), (5, 2, "thorough"), (10, 1, "thorough"), (2, 20, "thorough"))]
API = [Api("api_err", "api_text.cpp", "api_err", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "one-step contracts of reporting and querying from every error state, of the error list for list lengths 0, 1 and at its limit; histories by bounded stand-in"
ASSUME = []
