

#define BOOST_METAPARSE_LIMIT_STRING_SIZE 8
#include <boost/metaparse/string_value.hpp>

constexpr auto s = BOOST_METAPARSE_STRING_VALUE("Hello");

