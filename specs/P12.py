from vfe import Ob, Api
LEVEL = "proof"
OBS = [Ob(n, "maps.cpp", n, [], unwind=36, timeout=300, defs=["VF_WATCH"], reach=False, bounded=b) for n, b in (("c_bitset", "at most 30 doubling steps of one growth"), ("c_filter", None))]
# a mapped read: the number of every key is looked up, and the filter or the growth rule of its position decides (d, records left out before, first changed positions, rule per position; -1 = all rules)
OBS += [Ob("mapped_d%d_skip%d_%d" % k[:3], "readmeth.cpp", "c_mapped", k, unwind=90, timeout=300, weight=2, reach=False, tier=t, bounded="%d records left out before the delivered one" % k[1] if k[1] else None)
        for k, t in (((1, 0, 0, -1), "quick"), ((1, 0, 1, -1), "quick"), ((2, 0, 0, -1), "quick"), ((2, 0, 1, -1), "quick"), ((2, 0, 2, -1), "quick"), ((3, 0, 0, -1), "quick"), ((6, 0, 4, -1), "thorough"),
                     ((1, 1, 1 + 1 * 32, -1), "quick"), ((2, 1, 1 + 1 * 32, -1), "quick"), ((2, 1, 1 + 2 * 32, -1), "thorough"), ((2, 2, 1 + 2 * 32 + 2 * 1024, -1), "thorough"))]
API = [Api("api_filter", "api_tab.cpp", "api_filter", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "membership of a filter for all numbers; one mapped read for all records, numbers and filters; whole symbols by bounded stand-in"
ASSUME = ['heap blocks of any size are represented by one arbitrary watched slot (universal generalisation); malloc does not fail', 'the record decoder, the number maps and the error list are assumed by their contracts in the mapped read (P01, P05, P13)']
