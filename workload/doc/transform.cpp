

#include <boost/metaparse/transform.hpp>
#include <boost/metaparse/digit.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/is_error.hpp>
#include <boost/metaparse/get_result.hpp>

#include <boost/metaparse/util/digit_to_int.hpp>

using namespace boost::metaparse;

using digit_value = transform<digit, util::digit_to_int<>>;

static_assert(
  !is_error<
    digit_value::apply<BOOST_METAPARSE_STRING("0"), start>
  >::type::value,
  "digit_val should accept a digit"
);

static_assert(
  is_error<digit_value::apply<BOOST_METAPARSE_STRING("x"), start>>::type::value,
  "digit_val should reject a character"
);

static_assert(
  get_result<
    digit_value::apply<BOOST_METAPARSE_STRING("0"), start>
  >::type::value == 0,
  "the result of parsing should be the int value"
);

