

#define BOOST_METAPARSE_LIMIT_STRING_SIZE 8
#include <boost/metaparse/string.hpp>

#include <type_traits>

using namespace boost::metaparse;

using hello1 = string<'H','e','l','l','o'>;
using hello2 = BOOST_METAPARSE_STRING("Hello");

static_assert(
  std::is_same<
    string<'H', 'e', 'l', 'l', 'o'>,
    BOOST_METAPARSE_STRING("Hello")
  >::type::value,
  "The type generated by the macro should be identical to the hand-crafted one."
);

#undef BOOST_METAPARSE_LIMIT_STRING_SIZE
#define BOOST_METAPARSE_LIMIT_STRING_SIZE 32

static_assert(
  std::is_same<
    string<
      'A', ' ', 'l', 'o', 'n', 'g', 'e', 'r',
      ' ', 's', 't', 'r', 'i', 'n', 'g'
    >,
    BOOST_METAPARSE_STRING("A longer string")
  >::type::value,
  "The type generated by the macro should be identical to the hand-crafted one."
);

