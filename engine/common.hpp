// Included first by every harness: opens the classes of /repo for specification access and declares the contract vocabulary.
#pragma once
#include "vf.hpp"
#include <algorithm>
#include <array>
#include <cassert>
#include <cctype>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <zlib.h>
#include "gdx.hpp"
#include "gxfile.hpp"
#include "gdlib/gmsstrm.hpp"
#include "gdlib/gmsobj.hpp"
#include "gdlib/gmsdata.hpp"
#include "gdlib/strhash.hpp"
#include "gdlib/datastorage.hpp"
#include "gdlib/utils.hpp"
#include "gdlib/strutilx.hpp"
#include "rtl/p3utils.hpp"
#include "rtl/p3io.hpp"
#include "rtl/sysutils_p3.hpp"
using namespace gdx;
using gdlib::gmsstrm::TMiBufferedStream;
#ifdef VF_NATIVE
#define VF_OBJ( T, name, ... ) T &name = *new T( __VA_ARGS__ )
#else
#define VF_OBJ( T, name, ... ) extern T name; vf_havoc( (void*)&name )
#endif
template<typename T>
union NoDtor
{
   T v;
   NoDtor() : v() {}
   ~NoDtor() {}
};
