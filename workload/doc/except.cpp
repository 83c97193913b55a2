

#include <boost/metaparse/except.hpp>
#include <boost/metaparse/int_.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/get_result.hpp>
#include <boost/metaparse/get_message.hpp>
#include <boost/metaparse/define_error.hpp>

#include <type_traits>

using namespace boost::metaparse;

BOOST_METAPARSE_DEFINE_ERROR(
  number_is_not_allowed,
  "numbers are not allowed here"
);

using except_int =
  except<int_, std::integral_constant<int, 1>, number_is_not_allowed>;

static_assert(
  get_result<
    except_int::apply<BOOST_METAPARSE_STRING("foo"), start>
  >::type::value == 1,
  "it should accept the input when it is not an integer"
);

static_assert(
  std::is_same<
    number_is_not_allowed,
    get_message<except_int::apply<BOOST_METAPARSE_STRING("13"), start>>::type
  >::type::value,
  "it should reject the input when it is an integer"
);

