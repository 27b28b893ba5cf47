from vfe import Ob, Api
LEVEL = "proof"
# raw reads: every record the reader delivers, with its keys and value, and the first changed position
OBS = [Ob("raw_d%d_c%d" % k, "readmeth.cpp", "c_raw", k, unwind=90, timeout=200, reach=False, tier=t)
       for k, t in (((0, 0), "quick"), ((1, 1), "quick"), ((2, 2), "thorough"), ((3, 2), "quick"), ((6, 4), "thorough"), ((20, 7), "quick"), ((20, 20), "thorough"))]
# reads of a sorted list: the record and the first changed position
OBS += [Ob("sorted_d%d" % k, "readmeth.cpp", "c_sorted", [k], unwind=90, timeout=200, reach=False, tier="quick" if k in (1, 3, 20) else "thorough") for k in (1, 2, 3, 6, 12, 20)]
API = [Api("api_slice", "api_slice.cpp", "api_slice", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "per record of raw and of sorted mapped reads, for all keys, values and previous records; slices, filtered callback reads and whole symbols by bounded stand-in"
ASSUME = ['the record decoder is assumed here by its contract (decoded keys and value, first changed position); P01 and P02 prove that contract']
