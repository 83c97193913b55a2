

#include <boost/metaparse/one_char.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/get_result.hpp>
#include <boost/metaparse/get_remaining.hpp>
#include <boost/metaparse/is_error.hpp>

#include <type_traits>

using namespace boost::metaparse;

static_assert(
  get_result<
    one_char::apply<BOOST_METAPARSE_STRING("foo"), start>
  >::type::value == 'f',
  "the result of parsing should be the first character of the input"
);

static_assert(
  std::is_same<
    BOOST_METAPARSE_STRING("oo"),
    get_remaining<one_char::apply<BOOST_METAPARSE_STRING("foo"), start>>::type
  >::type::value,
  "one_char should consume the first character of the input"
);

static_assert(
  is_error<one_char::apply<BOOST_METAPARSE_STRING(""), start>>::type::value,
  "it should return an error for empty input"
);

