// the library's own out-of-line std::string functions (libstdc++ keeps them in its shared object), instantiated from its headers
#include <string>
template class std::basic_string<char>;
