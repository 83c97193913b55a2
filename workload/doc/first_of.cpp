

#include <boost/metaparse/first_of.hpp>
#include <boost/metaparse/int_.hpp>
#include <boost/metaparse/lit_c.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/is_error.hpp>
#include <boost/metaparse/get_result.hpp>

#include <type_traits>

using namespace boost::metaparse;

using int_with_semicolon = first_of<int_, lit_c<';'>>;

static_assert(
  is_error<
    int_with_semicolon::apply<BOOST_METAPARSE_STRING("13"), start>
  >::type::value,
  "int without semicolon is rejected"
);

static_assert(
  get_result<
    int_with_semicolon::apply<BOOST_METAPARSE_STRING("13;"), start>
  >::type::value,
  "the result is the result of the first parser"
);

