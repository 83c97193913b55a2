

#include <boost/metaparse/sequence.hpp>
#include <boost/metaparse/token.hpp>
#include <boost/metaparse/int_.hpp>
#include <boost/metaparse/lit_c.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/is_error.hpp>
#include <boost/metaparse/get_result.hpp>

#include <boost/mpl/at.hpp>

using namespace boost::metaparse;

using int_token = token<int_>;
using plus_token = token<lit_c<'+'>>;

using a_plus_b = sequence<int_token, plus_token, int_token>;

static_assert(
  boost::mpl::at_c<
    get_result<a_plus_b::apply<BOOST_METAPARSE_STRING("1 + 2"), start>>::type,
    0
  >::type::value == 1,
  "the first element of the sequence should be the first number"
);

static_assert(
  boost::mpl::at_c<
    get_result<a_plus_b::apply<BOOST_METAPARSE_STRING("1 + 2"), start>>::type,
    1
  >::type::value == '+',
  "the second element of the sequence should be the plus"
);

static_assert(
  boost::mpl::at_c<
    get_result<a_plus_b::apply<BOOST_METAPARSE_STRING("1 + 2"), start>>::type,
    2
  >::type::value == 2,
  "the third element of the sequence should be the second number"
);

static_assert(
  is_error<a_plus_b::apply<BOOST_METAPARSE_STRING("1 +"), start>>::type::value,
  "when not all of the parsers accept the input, sequence should fail"
);

