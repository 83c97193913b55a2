

#include <boost/metaparse/util/is_letter.hpp>

#include <type_traits>

using namespace boost::metaparse;

struct returns_char
{
  using type = std::integral_constant<char, 'A'>;
};

static_assert(
  util::is_letter<std::integral_constant<char, 'A'>>::type::value,
  "A should be a letter"
);

static_assert(
  !util::is_letter<std::integral_constant<char, '0'>>::type::value,
  "a number should not be a letter"
);

static_assert(
  util::is_letter<>::type
    ::apply<std::integral_constant<char, 'A'>>::type::value,
  "it should support currying"
);

static_assert(
  util::is_letter<returns_char>::type::value,
  "it should support lazy evaluation"
);

