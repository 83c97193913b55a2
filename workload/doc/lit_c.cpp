

#include <boost/metaparse/lit_c.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/is_error.hpp>
#include <boost/metaparse/get_result.hpp>

using namespace boost::metaparse;

static_assert(
  is_error<lit_c<'x'>::apply<BOOST_METAPARSE_STRING("a"), start>>::type::value,
  "a different character should be an error"
);

static_assert(
  is_error<lit_c<'x'>::apply<BOOST_METAPARSE_STRING(""), start>>::type::value,
  "empty input should be an error"
);

static_assert(
  get_result<
    lit_c<'x'>::apply<BOOST_METAPARSE_STRING("x"), start>
  >::type::value == 'x',
  "result of parsing should be the accepted character"
);

