

#include <boost/metaparse/util/is_whitespace_c.hpp>

#include <type_traits>

using namespace boost::metaparse;

static_assert(
  util::is_whitespace_c<' '>::type::value,
  "a space should be a whitespace character"
);

static_assert(
  !util::is_whitespace_c<'0'>::type::value,
  "a number should not be a whitespace character"
);


