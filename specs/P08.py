from vfe import Ob, Api
LEVEL = "proof"
W = dict(defs=["VF_WATCHP"], reach=False)
OBS = [Ob("ctor", "block.cpp", "c_ctor", [], unwind=8, timeout=200, **W), Ob("block", "block.cpp", "c_block", [], unwind=8, timeout=300, weight=2, **W)]
OBS += [Ob("read%d_%d" % (k, m), "stream.cpp", "c_read", [k, m], unwind=k + 3, timeout=600, weight=5 - m, tier="quick" if k == 1 else "thorough", bounded="one call of at most %d buffers" % k, **W) for k in (1, 2) for m in (0, 1)]
OBS += [Ob("write%d" % k, "stream.cpp", "c_write", [k], unwind=k + 3, timeout=600, weight=4, tier="quick" if k == 1 else "thorough", bounded="one call of at most %d buffers" % k, **W) for k in (1, 2)]
OBS += [Ob("position%d" % k, "stream.cpp", "c_pos", [k], unwind=8, timeout=200, **W) for k in range(3)]
OBS += [Ob("password_%d" % n, "stream.cpp", "c_password", [n, 4], unwind=12, timeout=300, bounded="passwords of %d characters, chunks of up to 4 bytes, positions below 2^34" % n, tier="quick" if n in (1, 2, 3, 5, 8) else "thorough") for n in (1, 2, 3, 4, 5, 6, 7, 8)]
API = [Api("api_stream", "api_stream.cpp", "api_stream", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "one stream operation from any state satisfying the stream invariant, over a ghost file of any size and content (one watched position stands for all), one call up to one buffer (32 KiB; thorough: two); compressed block transfer for any block; the compressor is a contract; whole histories by bounded stand-in"
ASSUME = ['operating system file calls (p3FileRead, p3FileWrite, p3FileSetPointer, p3FileOpen) behave as a byte array with a position; errors are not modelled', 'zlib compress / uncompress restore the data (assumed contract, the room they need is checked)', 'positioning beyond the end of the file is outside the contract']
