

#include <boost/metaparse/one_char_except.hpp>
#include <boost/metaparse/lit_c.hpp>
#include <boost/metaparse/middle_of.hpp>
#include <boost/metaparse/repeated.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/get_result.hpp>

#include <boost/mpl/vector.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/equal.hpp>

#include <type_traits>

using namespace boost::metaparse;

using string_literal_parser =
  middle_of<
    lit_c<'"'>,
    repeated<one_char_except<std::integral_constant<char, '"'>>>,
    lit_c<'"'>
  >;

static_assert(
  boost::mpl::equal<
    boost::mpl::vector<
      boost::mpl::char_<'h'>,
      boost::mpl::char_<'e'>,
      boost::mpl::char_<'l'>,
      boost::mpl::char_<'l'>,
      boost::mpl::char_<'o'>
    >,
    get_result<
      string_literal_parser::apply<BOOST_METAPARSE_STRING("\"hello\""), start>
    >::type
  >::type::value,
  "it should return the content of the string literal"
);

