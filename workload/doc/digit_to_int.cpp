

#include <boost/metaparse/util/digit_to_int.hpp>

#include <type_traits>

using namespace boost::metaparse;

struct nullary_metafunction_returning_4
{
  using type = std::integral_constant<char, '4'>;
};

static_assert(
  util::digit_to_int<std::integral_constant<char, '0'>>::type::value == 0,
  "it should convert a character to the corresponding integer value"
);

static_assert(
  util::digit_to_int<>::type
    ::apply<std::integral_constant<char, '7'>>::type::value == 7,
  "it should support currying"
);

static_assert(
  util::digit_to_int<nullary_metafunction_returning_4>::type::value == 4,
  "it should support lazy evaluation"
);

