// The user side of the generated programs: uninterpreted result terms, error
// messages and functors.  Uses nothing of Boost.Metaparse.
#ifndef VERIF_TERMS_HPP
#define VERIF_TERMS_HPP

#include <boost/mpl/bool.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/integral_c.hpp>

#include <cstdio>
#include <string>

#if __cplusplus >= 201103L
#include <type_traits>
#endif

namespace boost { namespace metaparse {} }
namespace mp = boost::metaparse;
namespace mpl = boost::mpl;

namespace vr
{
  inline void num(std::string& o, long long n)
  {
    char b[32];
    std::sprintf(b, "%lld", n);
    o += b;
  }

  // ------------------------------------------------------------ boxed values
  // what the documentation calls a boxed value: value and type, nothing else
  template <class T, T V> struct box
  {
    typedef box type;
    static const T value = V;
  };
  template <class T, T V> const T box<T, V>::value;

#if __cplusplus >= 201103L
  template <class T, T V> using stdbox = std::integral_constant<T, V>;
#else
  template <class T, T V> struct stdbox : mpl::integral_c<T, V> {};
#endif

  // ------------------------------------------------------------- free terms
  // Uninterpreted constructors: a result built from these records exactly
  // which values were combined, in which order and grouping.
  template <int K> struct atom { typedef atom type; };
  template <int K, class A> struct t1 { typedef t1 type; };
  template <int K, class A, class B> struct t2 { typedef t2 type; };
  template <class A> struct seq1 { typedef seq1 type; };
  template <class A, class B> struct seq2 { typedef seq2 type; };
  template <class A, class B, class C> struct seq3 { typedef seq3 type; };
  template <class A, class B, class C, class D> struct seq4
  { typedef seq4 type; };
  template <class A0, class A1, class A2, class A3, class A4>
  struct seq5 { typedef seq5 type; };
  template <class A0, class A1, class A2, class A3, class A4, class A5>
  struct seq6 { typedef seq6 type; };
  template <class A0, class A1, class A2, class A3, class A4, class A5, class A6>
  struct seq7 { typedef seq7 type; };
  template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7>
  struct seq8 { typedef seq8 type; };
  template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8>
  struct seq9 { typedef seq9 type; };
  template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9>
  struct seq10 { typedef seq10 type; };
  template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10>
  struct seq11 { typedef seq11 type; };
  template <int K> struct msg
  {
    typedef msg type;
    static std::string get_value()
    {
      std::string o = "m";
      num(o, K);
      return o;
    }
  };
  template <int K, class M> struct wrapped_msg
  {
    typedef wrapped_msg type;
    static std::string get_value()
    {
      std::string o = "w";
      num(o, K);
      return o + "(" + M::get_value() + ")";
    }
  };

  // ------------------------------------------------ user-defined functors
  template <int K> struct fwrap
  {
    typedef fwrap type;
    template <class A> struct apply { typedef t1<K, A> type; };
  };
  template <int K> struct fop
  {
    typedef fop type;
    template <class A, class B> struct apply { typedef t2<K, A, B> type; };
  };
  template <int K> struct fmsg
  {
    typedef fmsg type;
    template <class M> struct apply { typedef wrapped_msg<K, M> type; };
  };
  template <char From, char To> struct pred_between
  {
    typedef pred_between type;
    // like the example in the documentation of predicates
    template <class C> struct apply
    {
      typedef apply type;
      static const bool value =
        (From <= C::value && C::value <= To);
    };
  };
  template <bool B> struct pred_const
  {
    typedef pred_const type;
    template <class> struct apply : mpl::bool_<B> {};
  };
}

#endif
