from vfe import Ob, Api
LEVEL = "proof"
# equality of names: every pair of names of up to 63 characters (the documented maximum)
OBS = [Ob("equal", "tables.cpp", "c_equal", [63], unwind=68, timeout=150)]
# look-up and entering in a chain of any length, any number of entries, hash and equality through their contracts
OBS += [Ob("chain_find", "tables.cpp", "c_chain", [0, 1], unwind=68, timeout=150, reach=False)]
OBS += [Ob("chain_add_len%d" % k, "tables.cpp", "c_chain", [1, k], unwind=68, timeout=200, weight=2, reach=False, tier=t) for k, t in ((0, "thorough"), (1, "quick"), (8, "thorough"), (63, "quick"))]
# the number of an element: next free one, the requested one, or refused; tables and maps of any size
OBS += [Ob(("user_known", "user_string", "user_number")[k], "uel.cpp", "c_user", [k], unwind=12, timeout=100, reach=False) for k in range(3)]
# the hash function respects equality
OBS += [Ob("hash_%d_len%d" % k[::-1], "tables.cpp", "c_hash", k, unwind=68, timeout=300, tier=t, bounded="every pair of equal names of %d characters, table size %d" % k)
       for k, t in (((1, 997), "quick"), ((2, 9973), "quick"), ((3, 997), "quick"), ((8, 999979), "thorough"), ((20, 99991), "thorough"))]
# look-up, insertion and renaming on a chained table with the given number of entries: all names, hash replaced by its contract
OBS += [Ob("%s_n%d_%d" % ((("find", "add", "rename")[k[0]],) + k[1:]), "tables.cpp", "c_table", k, unwind=12, timeout=400, weight=w, reach=False, tier=t,
           bounded="%d entries with names of up to 2 characters" % k[1])
        for k, t, w in (((0, 2, 0), "quick", 1), ((0, 3, 0), "quick", 1), ((2, 2, 1), "quick", 2), ((2, 2, 2), "quick", 2),
                        ((2, 3, 2), "thorough", 3), ((1, 1, 2), "thorough", 3))]
API = [Api("api_uel", "api_tab.cpp", "api_uel", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "equality of names (all names), look-up and entering of a name in tables of any size and the numbers given to elements are proved; hash coherence and renaming by bounded obligations (short names, few entries, all contents); growth of the table and the file by bounded stand-in through the API"
ASSUME = ["malloc does not fail", "strcasecmp folds the ASCII letters only (C locale)", "induction over a chain: the state at the third entry is that at the second (both arbitrary)"]
