from vfe import Ob, Api
LEVEL = "proof"
# a record goes behind the last one of a list of any length, with its keys and values, and widens the key range the sort relies on
OBS = [Ob("add_d%d" % k, "sortlist.cpp", "c_add", [k], unwind=24, timeout=150, reach=False, tier="quick" if k in (0, 1, 3, 20) else "thorough") for k in range(0, 21)]
# reading the sorted list back: the record of the cell, and on with the next cell
OBS += [Ob("readsorted_d%d" % k, "readmeth.cpp", "c_sorted", [k], unwind=90, timeout=200, reach=False, tier="quick" if k in (1, 20) else "thorough") for k in (1, 3, 20)]
# the sort itself: bounded (length of the list, dimension and key range as named), all contents
OBS += [Ob("sort_d%d_n%d_r%d" % k, "sortlist.cpp", "c_sort", k, unwind=20, timeout=300, reach=False, weight=3, tier=t, bounded="dimension %d, %d records, keys 1..%d, all contents" % k)
        for k, t in (((1, 3, 3), "quick"), ((2, 2, 2), "quick"), ((2, 3, 2), "quick"), ((3, 2, 2), "thorough"), ((1, 4, 3), "thorough"))]
API = [Api("api_sorted", "api_data.cpp", "api_sorted", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "insertion for lists of any length and all keys; the sorting pass bounded to short lists (all contents); long lists by bounded stand-in through the API"
ASSUME = ['malloc does not fail']
