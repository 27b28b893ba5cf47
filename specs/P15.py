from vfe import Ob, Api
LEVEL = "proof"
F = ["--max-field-sensitivity-array-size", "300"]
OBS = [Ob("copy_16", "text.cpp", "c_copy", [20, 16, 1], unwind=266, timeout=200, flags=F), Ob("copy_256", "text.cpp", "c_copy", [257, 256, 256], unwind=266, timeout=400, flags=F, weight=3),
       Ob("copylen_0", "text.cpp", "c_copylen", [257, 256, 0], unwind=266, timeout=200, flags=F), Ob("copylen_1", "text.cpp", "c_copylen", [257, 256, 1], unwind=266, timeout=200, flags=F)]
API = [Api("api_buf", "api_text.cpp", "api_buf", runs=12000, secs=12, par=4, san=True, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "the bounded copies into caller buffers, all texts up to and beyond the buffer size; every API entry by bounded stand-in with address sanitizer"
ASSUME = []
