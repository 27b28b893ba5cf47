from vfe import Ob, Api
LEVEL = "proof"
F = ["--max-field-sensitivity-array-size", "310"]
# what is reported of a symbol, its domains, set texts and comments is what its entry holds, for tables of any size and every number asked for
OBS = [Ob(n[2:] + "".join(map(str, p)), "meta.cpp", n, p, unwind=310, timeout=400, flags=F, reach=False) for n, p in (("c_info", []), ("c_domain", [0]), ("c_domain", [1]), ("c_settext", []), ("c_comment", []), ("c_getcomment", []))]
# texts in the file, and what an explanatory text becomes
OBS += [Ob("string", "codec.cpp", "c_string", [257], unwind=266, timeout=400, weight=3, flags=["--max-field-sensitivity-array-size", "300"])]
OBS += [Ob("expltext", "text.cpp", "c_expltext", [255], unwind=266, timeout=400, weight=3, flags=["--max-field-sensitivity-array-size", "300"])]
API = [Api("api_meta", "api_file.cpp", "api_meta", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "queries of symbols, domains, set texts and comments for tables of any size; texts of up to 257 characters through the file; the sections of whole files, aliases and appending by bounded stand-in"
ASSUME = ['the symbol and text tables are used through their contract (P04 proves it for the same hash table class)', 'the list of comments keeps what is added to it']
