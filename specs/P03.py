from vfe import Ob, Api
LEVEL = "proof"
OBS = [Ob("reject_d%d" % d, "record.cpp", "rec_reject", [d], unwind=24, timeout=300, weight=d, reach=False, covers=d == 1, tier="quick" if d in (1, 2, 3, 20) else "thorough") for d in range(1, 21)]
API = [Api("api_order", "api_data.cpp", "api_order", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "rejection of duplicate / out-of-order / out-of-domain raw records for all states and keys, per dimension; string and mapped writes by bounded stand-in"
ASSUME = ['the two objects start from any pair of coupled states (same last key, same key ranges) that the API can establish; rec_init shows that a symbol starts coupled']
