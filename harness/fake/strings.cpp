// the string class of the C++ library, as bitcode
#include <string>
template class std::basic_string<char>;
