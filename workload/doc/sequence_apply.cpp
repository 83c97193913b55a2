

#include <boost/metaparse/sequence_apply.hpp>
#include <boost/metaparse/int_.hpp>
#include <boost/metaparse/middle_of.hpp>
#include <boost/metaparse/lit_c.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/get_result.hpp>

#include <boost/type_traits/is_same.hpp>

using namespace boost::metaparse;

template <int Real, int Imaginary>
struct complex_c { typedef complex_c type; };

template <class Real, class Imaginary>
struct complex : complex_c<Real::type::value, Imaginary::type::value> {};

typedef
  sequence_apply2<complex, int_, middle_of<lit_c<'+'>, int_, lit_c<'i'>>>
  complex_parser;

static_assert(
  boost::is_same<
    complex_c<1, 2>,
    get_result<
      complex_parser::apply<BOOST_METAPARSE_STRING("1+2i"), start>
    >::type::type
  >::type::value,
  "the result of parsing should be the list of digit values"
);

