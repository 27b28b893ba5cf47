// real libstdc++ bodies of the out-of-line std::string members
#include <string>
template class std::basic_string<char>;
