from vfe import Ob, Api
LEVEL = "proof"
OBS = [Ob("mode_f%d" % f, "modes.cpp", "c_mode", [f], unwind=24, timeout=200, weight=2, reach=False) for f in range(0, 38)]
API = [Api("api_mode", "api_mode.cpp", "api_mode", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "38 API functions, every mode outside the allowed ones, any pending error state; effects in the allowed modes and whole call sequences by bounded stand-in"
ASSUME = ['text written to the trace stream is not modelled', 'environment variable GDXCOMPRESS arbitrary']
