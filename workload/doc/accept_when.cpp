

#include <boost/metaparse/accept_when.hpp>
#include <boost/metaparse/one_char.hpp>
#include <boost/metaparse/util/is_digit.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/is_error.hpp>
#include <boost/metaparse/get_result.hpp>
#include <boost/metaparse/define_error.hpp>

using namespace boost::metaparse;

BOOST_METAPARSE_DEFINE_ERROR(digit_expected, "Digit expected");

using accept_digit = accept_when<one_char, util::is_digit<>, digit_expected>;

static_assert(
  !is_error<
    accept_digit::apply<BOOST_METAPARSE_STRING("0"), start>
  >::type::value,
  "accept_digit should accept a digit"
);

static_assert(
  get_result<
    accept_digit::apply<BOOST_METAPARSE_STRING("0"), start>
  >::type::value == '0',
  "the result of parsing should be the character value"
);

static_assert(
  is_error<
    accept_digit::apply<BOOST_METAPARSE_STRING("x"), start>
  >::type::value,
  "accept_digit should reject a character that is not a digit"
);

