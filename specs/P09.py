from vfe import Ob, Api
LEVEL = "proof"
S = dict(unwind=12, timeout=150)
OBS = [Ob("prim%d" % k, "codec.cpp", "c_prim", [k], **S) for k in range(7)]
OBS += [Ob("packed_int", "codec.cpp", "c_gmsint", [], **S), Ob("packed_double", "codec.cpp", "c_gmsdbl", [], **S)]
OBS += [Ob("packed_special_%d" % k, "codec.cpp", "c_gmssv", [k], **S) for k in (1, 2, 3, 4, 5, 10, 70, 1230)]
OBS += [Ob("string", "codec.cpp", "c_string", [257], unwind=266, timeout=400, weight=3, flags=["--max-field-sensitivity-array-size", "300"])]
API = [Api("api_codec", "api_stream.cpp", "api_codec", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "every value of every primitive type, all texts up to two characters beyond the limit, over a ghost byte tape (contract of the stream below: P08)"
ASSUME = []
