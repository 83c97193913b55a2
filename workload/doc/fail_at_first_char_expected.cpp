

#include <boost/metaparse/fail_at_first_char_expected.hpp>
#include <boost/metaparse/int_.hpp>
#include <boost/metaparse/lit_c.hpp>
#include <boost/metaparse/foldl_start_with_parser.hpp>
#include <boost/metaparse/first_of.hpp>
#include <boost/metaparse/last_of.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/is_error.hpp>
#include <boost/metaparse/get_result.hpp>

#include <boost/mpl/lambda.hpp>
#include <boost/mpl/plus.hpp>

using namespace boost::metaparse;

using plus_int = last_of<lit_c<'+'>, int_>;

using plus_exp =
  first_of<
    foldl_start_with_parser<
      plus_int,
      int_,
      boost::mpl::lambda<boost::mpl::plus<boost::mpl::_1, boost::mpl::_2>>::type
    >,
    fail_at_first_char_expected<plus_int>
  >;

static_assert(
  get_result<
    plus_exp::apply<BOOST_METAPARSE_STRING("1+2+3"), start>
  >::type::value == 6,
  "it should accept the input when it is a list of '+' separated ints"
);

static_assert(
  is_error<
    plus_exp::apply<BOOST_METAPARSE_STRING("1+2+3+"), start>
  >::type::value,
  "it should reject the input when it has an extra +"
);

