

#include <boost/metaparse/build_parser.hpp>
#include <boost/metaparse/int_.hpp>
#include <boost/metaparse/string.hpp>

using namespace boost::metaparse;

using string_to_int = build_parser<int_>::type;

static_assert(
  string_to_int::apply<BOOST_METAPARSE_STRING("1113")>::type::value == 1113,
  "string_to_int should be a metafunction turning a string into an int"
);

