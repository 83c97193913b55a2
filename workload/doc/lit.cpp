

#include <boost/metaparse/lit.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/is_error.hpp>
#include <boost/metaparse/get_result.hpp>

#include <type_traits>

using namespace boost::metaparse;

static_assert(
  is_error<
    lit<std::integral_constant<char, 'x'>>
      ::apply<BOOST_METAPARSE_STRING("a"), start>
  >::type::value,
  "a different character should be an error"
);

static_assert(
  is_error<
    lit<std::integral_constant<char, 'x'>>
      ::apply<BOOST_METAPARSE_STRING(""), start>
  >::type::value,
  "empty input should be an error"
);

static_assert(
  get_result<
    lit<std::integral_constant<char, 'x'>>
      ::apply<BOOST_METAPARSE_STRING("x"), start>
  >::type::value == 'x',
  "result of parsing should be the accepted character"
);

