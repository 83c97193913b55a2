

#include <boost/metaparse/debug_parsing_error.hpp>
#include <boost/metaparse/int_.hpp>
#include <boost/metaparse/string.hpp>

#include <type_traits>

using namespace boost::metaparse;

debug_parsing_error<int_, BOOST_METAPARSE_STRING("not an int")> do_debugging;

int main() {}




