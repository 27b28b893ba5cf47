from vfe import Ob, Api
LEVEL = "proof"
OBS = [Ob("start_d%d" % d, "recinit.cpp", "rec_init", [d], unwind=24, timeout=120, weight=1, reach=False, tier="quick" if d in (0, 1, 3, 20) else "thorough") for d in range(0, 21)]
OBS += [Ob("record_d%d" % d, "record.cpp", "rec_step", [d, 1, 0, 0], unwind=24, timeout=200, weight=d, covers=d == 1, solver="minisat2", reach=False, tier="quick" if d in (1, 3) else "thorough") for d in (1, 3, 6)]
S = dict(unwind=12, timeout=150)
OBS += [Ob("swap%d" % k, "codec.cpp", "c_order", [k], **S) for k in range(4)]
OBS += [Ob("header%d" % k, "codec.cpp", "c_detect", [k], **S) for k in range(8)]
OBS += [Ob("badheader%d" % k, "codec.cpp", "c_badorder", [k], **S) for k in range(3)]
API = [Api("api_fmt", "api_file.cpp", "api_fmt", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "byte layout of the record section header and of the records; recognition of the byte order and swapping of every primitive value; whole files against an independent decoder by bounded stand-in"
ASSUME = ['the two objects start from any pair of coupled states (same last key, same key ranges) that the API can establish; rec_init shows that a symbol starts coupled']
