

#include <boost/metaparse/last_of.hpp>
#include <boost/metaparse/int_.hpp>
#include <boost/metaparse/lit_c.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/is_error.hpp>
#include <boost/metaparse/get_result.hpp>

#include <type_traits>

using namespace boost::metaparse;

using comma_int = last_of<lit_c<','>, int_>;

static_assert(
  is_error<comma_int::apply<BOOST_METAPARSE_STRING("13"), start>>::type::value,
  "int without comma is rejected"
);

static_assert(
  get_result<
    comma_int::apply<BOOST_METAPARSE_STRING(",13"), start>
  >::type::value,
  "the result is the result of the last parser"
);

