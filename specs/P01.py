from vfe import Ob, Api
LEVEL = "proof"
# one record of every dimension: the writer accepts it, the reader gives back the same keys and value, the coupling holds again
OBS = [Ob("record_d%d" % d, "record.cpp", "rec_step", [d, 1, 0, 0], unwind=24, timeout=400 if d > 10 else 150, weight=d, covers=d < 2,
          solver="minisat2", reach=False, tier="quick" if d in (0, 1, 2, 6, 20) else "thorough") for d in range(0, 21)]
# a symbol's data section starts with writer and reader coupled
OBS += [Ob("start_d%d" % d, "recinit.cpp", "rec_init", [d], unwind=24, timeout=120, weight=1, reach=False, tier="quick" if d in (0, 1, 3, 20) else "thorough") for d in range(0, 21)]
# value part of a record (see P02 for the special values)
OBS += [Ob("value_nv1", "values.cpp", "c_value", [1, 0], unwind=24, timeout=200, reach=False)]
API = [Api("api_rt", "api_data.cpp", "api_rt", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "per record and per dimension, for all keys, key ranges, previous keys and value bits; the stream between writer and reader is a ghost byte tape (its contract is P08); whole files by bounded stand-in"
ASSUME = ['the two objects start from any pair of coupled states (same last key, same key ranges) that the API can establish; rec_init shows that a symbol starts coupled']
