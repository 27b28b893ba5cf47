from vfe import Ob, Api
LEVEL = "proof"
F = ["--max-field-sensitivity-array-size", "300"]
OBS = [Ob(n, "text.cpp", n, [l], unwind=266, timeout=400, flags=F, weight=3) for n, l in (("c_expltext", 255), ("c_ident", 70), ("c_label", 255), ("c_trim", 255))]
API = [Api("api_text", "api_text.cpp", "api_text", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "all texts of up to 255 characters (the documented limit; 70 for identifiers, 7 beyond their limit); application at every API entry by bounded stand-in"
ASSUME = ['C locale character classes']
