from vfe import Ob, Api
LEVEL = "proof"
OBS = [Ob("intmap", "maps.cpp", "c_intmap", [], unwind=36, timeout=300, defs=["VF_WATCH"], reach=False)]
# the number of an element: next free one, the requested one, or refused; exactly one pair is added; any table, any map
OBS += [Ob(("user_known", "user_string", "user_number")[k], "uel.cpp", "c_user", [k], unwind=12, timeout=100, reach=False) for k in range(3)]
# whether numbers grow with the elements (decides the order in which a mapped read delivers)
OBS += [Ob("status_n%d" % k, "uel.cpp", "c_status", [k], unwind=12, timeout=100, reach=False, bounded="%d elements, all numbers" % k) for k in (2, 3, 5)]
API = [Api("api_umap", "api_tab.cpp", "api_umap", runs=12000, secs=12, par=4, san=False, bounded="up to 12000 seeded random histories of real API calls, 12 s, 4 processes")]
NOTE = "the number map and the registration functions for all histories (one-step contracts over arbitrary contents); the order status bounded to 5 elements; the file and reading by bounded stand-in"
ASSUME = ['heap blocks of any size are represented by one arbitrary watched slot (universal generalisation); malloc does not fail']
