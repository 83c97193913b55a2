

#include <boost/metaparse/repeated.hpp>
#include <boost/metaparse/digit_val.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/get_result.hpp>

#include <boost/mpl/equal.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/int.hpp>

using namespace boost::metaparse;

using digits = repeated<digit_val>;

static_assert(
  boost::mpl::equal<
    get_result<digits::apply<BOOST_METAPARSE_STRING("1234"), start>>::type,
    boost::mpl::vector<
      boost::mpl::int_<1>,
      boost::mpl::int_<2>,
      boost::mpl::int_<3>,
      boost::mpl::int_<4>
    >
  >::type::value,
  "the result of parsing should be the list of digit values"
);

static_assert(
  boost::mpl::equal<
    get_result<digits::apply<BOOST_METAPARSE_STRING("x"), start>>::type,
    boost::mpl::vector<>
  >::type::value,
  "repeated should accept the input when it can't parse anything with digit_val"
);

