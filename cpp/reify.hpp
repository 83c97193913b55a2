// Reification layer: turns the outcome of compile-time parser executions into
// a run-time event log on stdout.  Uses only the public, documented interface
// of Boost.Metaparse and Boost.MPL.  Valid C++98 .. C++17, g++ and clang++.
//
// Log lines (fields separated by one space):
//   C <case> A <value> R <hex of remaining> P <line> <col> <prev>
//   C <case> E <hex of message>             P <line> <col> <prev>
//   S <case> <spy> R <hex of string seen>   P <line> <col> <prev>
//   V <case> <key> <value>
#ifndef VERIF_REIFY_HPP
#define VERIF_REIFY_HPP

#include <boost/metaparse.hpp>
#include <boost/metaparse/string_value.hpp>

#include "terms.hpp"

#include <boost/mpl/advance.hpp>
#include <boost/mpl/at.hpp>
#include <boost/mpl/back.hpp>
#include <boost/mpl/back_inserter.hpp>
#include <boost/mpl/begin_end.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/clear.hpp>
#include <boost/mpl/comparison.hpp>
#include <boost/mpl/copy.hpp>
#include <boost/mpl/count_if.hpp>
#include <boost/mpl/deref.hpp>
#include <boost/mpl/distance.hpp>
#include <boost/mpl/deque.hpp>
#include <boost/mpl/empty.hpp>
#include <boost/mpl/equal.hpp>
#include <boost/mpl/eval_if.hpp>
#include <boost/mpl/find_if.hpp>
#include <boost/mpl/front.hpp>
#include <boost/mpl/front_inserter.hpp>
#include <boost/mpl/has_xxx.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/is_sequence.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/list_c.hpp>
#include <boost/mpl/next.hpp>
#include <boost/mpl/placeholders.hpp>
#include <boost/mpl/pop_back.hpp>
#include <boost/mpl/prior.hpp>
#include <boost/mpl/push_back.hpp>
#include <boost/mpl/pop_front.hpp>
#include <boost/mpl/push_front.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/vector_c.hpp>
#include <boost/type_traits/is_same.hpp>

#include <cstdio>
#include <string>

namespace mp = boost::metaparse;
namespace mpl = boost::mpl;

namespace vr
{
  // ---------------------------------------------------------------- printing
  inline void hex1(std::string& o, int c)
  {
    char b[8];
    std::sprintf(b, "%02x", static_cast<unsigned>(static_cast<unsigned char>(c)));
    o += b;
  }

  inline void hexs(std::string& o, const std::string& s)
  {
    if (s.empty()) o += "-";
    for (std::string::size_type i = 0; i != s.size(); ++i) hex1(o, s[i]);
  }

  inline void emit(const std::string& s)
  {
    std::fwrite(s.data(), 1, s.size(), stdout);
    std::fputc('\n', stdout);
  }

  // what a "here" parser saw
  template <class S, class Pos> struct seen { typedef seen type; };

  // ------------------------------------------------------------------ dump
  BOOST_MPL_HAS_XXX_TRAIT_NAMED_DEF(has_tag_, tag, false)

  template <class T>
  struct has_value_
  {
    typedef char yes;
    typedef char (&no)[2];
    template <long long N> struct box;
    template <class U> static yes test(box<static_cast<long long>(U::value)>*);
    template <class U> static no test(...);
    static const bool value = sizeof(test<T>(0)) == sizeof(yes);
  };

  template <class T, bool HasValue, bool HasTag> struct dump_impl;
  template <class T> struct dump :
    dump_impl<T, has_value_<T>::value, has_tag_<T>::value>
  {};

  template <class T, bool HasTag> struct dump_impl<T, true, HasTag>
  {
    static void go(std::string& o) { num(o, static_cast<long long>(T::value)); }
  };

  template <class It, class End> struct dump_range
  {
    static void go(std::string& o, bool first)
    {
      if (!first) o += ",";
      dump<typename mpl::deref<It>::type>::go(o);
      dump_range<typename mpl::next<It>::type, End>::go(o, false);
    }
  };
  template <class End> struct dump_range<End, End>
  {
    static void go(std::string&, bool) {}
  };

  template <class T, bool IsSeq> struct dump_tagged
  {
    static void go(std::string& o)
    {
      o += "[";
      dump_range<
        typename mpl::begin<T>::type, typename mpl::end<T>::type
      >::go(o, true);
      o += "]";
    }
  };
  template <class T> struct dump_tagged<T, false>
  {
    static void go(std::string& o) { o += "?"; }
  };

  template <class T> struct dump_impl<T, false, true> :
    dump_tagged<T, mpl::is_sequence<T>::value>
  {};
  template <class T> struct dump_impl<T, false, false>
  {
    static void go(std::string& o) { o += "?"; }
  };

  template <> struct dump<void>
  {
    static void go(std::string& o) { o += "void"; }
  };

  template <int K> struct dump<atom<K> >
  {
    static void go(std::string& o) { o += "a"; num(o, K); }
  };
  template <int K, class A> struct dump<t1<K, A> >
  {
    static void go(std::string& o)
    {
      o += "t"; num(o, K); o += "("; dump<A>::go(o); o += ")";
    }
  };
  template <int K, class A, class B> struct dump<t2<K, A, B> >
  {
    static void go(std::string& o)
    {
      o += "u"; num(o, K); o += "("; dump<A>::go(o); o += ",";
      dump<B>::go(o); o += ")";
    }
  };
  template <class A> struct dump<seq1<A> >
  {
    static void go(std::string& o) { o += "q("; dump<A>::go(o); o += ")"; }
  };
  template <class A, class B> struct dump<seq2<A, B> >
  {
    static void go(std::string& o)
    {
      o += "q("; dump<A>::go(o); o += ","; dump<B>::go(o); o += ")";
    }
  };
  template <class A, class B, class C> struct dump<seq3<A, B, C> >
  {
    static void go(std::string& o)
    {
      o += "q("; dump<A>::go(o); o += ","; dump<B>::go(o); o += ",";
      dump<C>::go(o); o += ")";
    }
  };
  template <class A, class B, class C, class D> struct dump<seq4<A, B, C, D> >
  {
    static void go(std::string& o)
    {
      o += "q("; dump<A>::go(o); o += ","; dump<B>::go(o); o += ",";
      dump<C>::go(o); o += ","; dump<D>::go(o); o += ")";
    }
  };
  template <class A0, class A1, class A2, class A3, class A4>
  struct dump<seq5<A0, A1, A2, A3, A4> >
  {
    static void go(std::string& o)
    {
      o += "q("; dump<A0>::go(o); o += ",";
      dump<A1>::go(o); o += ",";
      dump<A2>::go(o); o += ",";
      dump<A3>::go(o); o += ",";
      dump<A4>::go(o); o += ")";
    }
  };
  template <class A0, class A1, class A2, class A3, class A4, class A5>
  struct dump<seq6<A0, A1, A2, A3, A4, A5> >
  {
    static void go(std::string& o)
    {
      o += "q("; dump<A0>::go(o); o += ",";
      dump<A1>::go(o); o += ",";
      dump<A2>::go(o); o += ",";
      dump<A3>::go(o); o += ",";
      dump<A4>::go(o); o += ",";
      dump<A5>::go(o); o += ")";
    }
  };
  template <class A0, class A1, class A2, class A3, class A4, class A5, class A6>
  struct dump<seq7<A0, A1, A2, A3, A4, A5, A6> >
  {
    static void go(std::string& o)
    {
      o += "q("; dump<A0>::go(o); o += ",";
      dump<A1>::go(o); o += ",";
      dump<A2>::go(o); o += ",";
      dump<A3>::go(o); o += ",";
      dump<A4>::go(o); o += ",";
      dump<A5>::go(o); o += ",";
      dump<A6>::go(o); o += ")";
    }
  };
  template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7>
  struct dump<seq8<A0, A1, A2, A3, A4, A5, A6, A7> >
  {
    static void go(std::string& o)
    {
      o += "q("; dump<A0>::go(o); o += ",";
      dump<A1>::go(o); o += ",";
      dump<A2>::go(o); o += ",";
      dump<A3>::go(o); o += ",";
      dump<A4>::go(o); o += ",";
      dump<A5>::go(o); o += ",";
      dump<A6>::go(o); o += ",";
      dump<A7>::go(o); o += ")";
    }
  };
  template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8>
  struct dump<seq9<A0, A1, A2, A3, A4, A5, A6, A7, A8> >
  {
    static void go(std::string& o)
    {
      o += "q("; dump<A0>::go(o); o += ",";
      dump<A1>::go(o); o += ",";
      dump<A2>::go(o); o += ",";
      dump<A3>::go(o); o += ",";
      dump<A4>::go(o); o += ",";
      dump<A5>::go(o); o += ",";
      dump<A6>::go(o); o += ",";
      dump<A7>::go(o); o += ",";
      dump<A8>::go(o); o += ")";
    }
  };
  template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9>
  struct dump<seq10<A0, A1, A2, A3, A4, A5, A6, A7, A8, A9> >
  {
    static void go(std::string& o)
    {
      o += "q("; dump<A0>::go(o); o += ",";
      dump<A1>::go(o); o += ",";
      dump<A2>::go(o); o += ",";
      dump<A3>::go(o); o += ",";
      dump<A4>::go(o); o += ",";
      dump<A5>::go(o); o += ",";
      dump<A6>::go(o); o += ",";
      dump<A7>::go(o); o += ",";
      dump<A8>::go(o); o += ",";
      dump<A9>::go(o); o += ")";
    }
  };
  template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10>
  struct dump<seq11<A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10> >
  {
    static void go(std::string& o)
    {
      o += "q("; dump<A0>::go(o); o += ",";
      dump<A1>::go(o); o += ",";
      dump<A2>::go(o); o += ",";
      dump<A3>::go(o); o += ",";
      dump<A4>::go(o); o += ",";
      dump<A5>::go(o); o += ",";
      dump<A6>::go(o); o += ",";
      dump<A7>::go(o); o += ",";
      dump<A8>::go(o); o += ",";
      dump<A9>::go(o); o += ",";
      dump<A10>::go(o); o += ")";
    }
  };

  // ------------------------------------------------------- character strings
  template <class It, class End> struct chars_range
  {
    static void go(std::string& o)
    {
      o += static_cast<char>(mpl::deref<It>::type::value);
      chars_range<typename mpl::next<It>::type, End>::go(o);
    }
  };
  template <class End> struct chars_range<End, End>
  {
    static void go(std::string&) {}
  };
  // every MPL sequence of characters
  template <class S> struct chars
  {
    static void go(std::string& o)
    {
      chars_range<
        typename mpl::begin<S>::type, typename mpl::end<S>::type
      >::go(o);
    }
  };
#if BOOST_METAPARSE_STD >= 2011
  // the same, without the quadratic number of instantiations
  template <char... Cs> struct chars<mp::string<Cs...> >
  {
    static void go(std::string& o)
    {
      const char b[] = {Cs..., 0};
      o.append(b, sizeof...(Cs));
    }
  };
  template <char... Cs> struct dump<mp::string<Cs...> >
  {
    static void go(std::string& o)
    {
      std::string s;
      chars<mp::string<Cs...> >::go(s);
      o += "[";
      for (std::string::size_type i = 0; i != s.size(); ++i)
      {
        if (i) o += ",";
        num(o, s[i]);
      }
      o += "]";
    }
  };
#endif

  template <class S> void print_chars(std::string& o)
  {
    std::string t;
    chars<typename S::type>::go(t);
    hexs(o, t);
  }

  template <class Pos> void print_pos(std::string& o)
  {
    o += " P ";
    num(o, static_cast<long long>(mp::get_line<Pos>::type::value));
    o += " ";
    num(o, static_cast<long long>(mp::get_col<Pos>::type::value));
    o += " ";
    num(o, static_cast<long long>(mp::get_prev_char<Pos>::type::value));
  }

  template <class S, class Pos> struct dump<seen<S, Pos> >
  {
    static void go(std::string& o)
    {
      o += "h(";
      print_chars<S>(o);
      o += ":";
      num(o, static_cast<long long>(mp::get_line<Pos>::type::value));
      o += ":";
      num(o, static_cast<long long>(mp::get_col<Pos>::type::value));
      o += ":";
      num(o, static_cast<long long>(mp::get_prev_char<Pos>::type::value));
      o += ")";
    }
  };

  // ------------------------------------------------------------ cases (runs)
  template <class R, bool Error> struct print_result
  {
    static void go(std::string& o)
    {
      o += " A ";
      dump<typename mp::get_result<R>::type>::go(o);
      o += " R ";
      print_chars<typename mp::get_remaining<R>::type>(o);
      print_pos<typename mp::get_position<R>::type>(o);
    }
  };
  template <class R> struct print_result<R, true>
  {
    static void go(std::string& o)
    {
      o += " E ";
      hexs(o, mp::get_message<R>::type::get_value());
      print_pos<typename mp::get_position<R>::type>(o);
    }
  };

  template <class R> void case_result(int id)
  {
    std::string o = "C ";
    num(o, id);
    print_result<R, mp::is_error<R>::type::value>::go(o);
    emit(o);
  }

  template <class P, class S, class Pos> void run(int id)
  {
    case_result<typename P::template apply<S, Pos>::type>(id);
  }

  // ------------------------------------------------- monitors: spies, "here"
  template <int* P> struct force {};

  template <int Case, int Id, class S, class Pos> struct event
  {
    static int log()
    {
      std::string o = "S ";
      num(o, Case);
      o += " ";
      num(o, Id);
      o += " R ";
      print_chars<S>(o);
      print_pos<Pos>(o);
      emit(o);
      return 1;
    }
    static int reg;
  };
  template <int Case, int Id, class S, class Pos>
  int event<Case, Id, S, Pos>::reg = event<Case, Id, S, Pos>::log();

  // transparent wrapper around a parser recording every application of it
  template <int Case, int Id, class P> struct spy
  {
    typedef spy type;
    template <class S, class Pos> struct apply
    {
      typedef force<&event<Case, Id, S, Pos>::reg> force_;
      typedef typename P::template apply<S, Pos>::type type;
    };
  };

  // accepts everything, consumes nothing, the result is what it was given
  struct here
  {
    typedef here type;
    template <class S, class Pos> struct apply
    {
      typedef mp::accept<
        seen<typename S::type, typename Pos::type>, S, Pos> result_;
      typedef typename result_::type type;
    };
  };

  // --------------------------------------------------- user-defined parsers
  // one character C, written by hand against the documented parser concept
  template <char C, int K> struct uchar
  {
    typedef uchar type;
  private:
    template <class S, class Pos> struct nonempty :
      mpl::eval_if_c<
        mpl::front<S>::type::value == C,
        mp::accept<
          atom<K>, mpl::pop_front<S>,
          mpl::eval_if_c<
            (C == '\r')
              || (C == '\n' && mp::get_prev_char<Pos>::type::value != '\r'),
            mp::next_line<Pos, mpl::char_<C> >,
            mp::next_char<Pos, mpl::char_<C> >
          >
        >,
        mp::reject<msg<K>, Pos>
      >
    {};
  public:
    template <class S, class Pos> struct apply
    {
      typedef typename mpl::eval_if<
        typename mpl::empty<S>::type,
        mp::reject<msg<K>, Pos>,
        nonempty<S, Pos>
      >::type type;
    };
  };

  // a parser (function, predicate) that is ill-formed for every argument:
  // compiling a program that has one proves that it was never applied
  template <class T> struct ill_formed
  { typedef typename T::this_parser_must_not_be_applied_here type; };
  struct unreached
  {
    typedef unreached type;
    template <class S, class Pos> struct apply : ill_formed<S> {};
  };
  struct unreached_fn
  {
    typedef unreached_fn type;
    template <class A, class B = int> struct apply : ill_formed<A> {};
  };

  // ---------------------------------------------------- user-defined functors
  template <int K> struct ferr
  {
    typedef ferr type;
    template <class E> struct apply :
      mp::reject<
        wrapped_msg<K, typename mp::get_message<E>::type>,
        mp::get_position<E>
      >
    {};
  };
  // the same for a user who takes the reject value apart
  template <int K> struct ferrp
  {
    typedef ferrp type;
    template <class E> struct apply;
    template <class M, class Pos> struct apply<mp::reject<M, Pos> > :
      mp::reject<wrapped_msg<K, M>, Pos>
    {};
  };
  // turns every error into acceptance of a fixed string at a fixed place
  template <int K, class S, class Pos> struct frecover
  {
    typedef frecover type;
    template <class E> struct apply : mp::accept<atom<K>, S, Pos> {};
  };
  // ------------------------------------------------------------- value logs
  inline void val(int id, const char* key, long long v)
  {
    std::string o = "V ";
    num(o, id);
    o += " ";
    o += key;
    o += " ";
    num(o, v);
    emit(o);
  }
  inline void valx(int id, const char* key, const std::string& s)
  {
    std::string o = "V ";
    num(o, id);
    o += " ";
    o += key;
    o += " ";
    hexs(o, s);
    emit(o);
  }
  template <class T> void vald(int id, const char* key)
  {
    std::string o = "V ";
    num(o, id);
    o += " ";
    o += key;
    o += " ";
    dump<T>::go(o);
    emit(o);
  }
  template <class Pos> void valp(int id, const char* key)
  {
    std::string o = "V ";
    num(o, id);
    o += " ";
    o += key;
    o += " ";
    num(o, static_cast<long long>(mp::get_line<Pos>::type::value));
    o += ":";
    num(o, static_cast<long long>(mp::get_col<Pos>::type::value));
    o += ":";
    num(o, static_cast<long long>(mp::get_prev_char<Pos>::type::value));
    emit(o);
  }

  // --------------------------------------------- all characters, one parser
  // W <case> <byte> A <value> <remaining length> <l> <c> <p>
  // W <case> <byte> E <hex of message> <l> <c> <p>
  inline void wrow(int id, int b, bool err, long long v, long long rem,
                   const std::string& m, long long l, long long c, long long p)
  {
    std::string o = "W ";
    num(o, id);
    o += " ";
    num(o, b);
    if (err) { o += " E "; hexs(o, m); }
    else { o += " A "; num(o, v); o += " "; num(o, rem); }
    o += " "; num(o, l);
    o += " "; num(o, c);
    o += " "; num(o, p);
    emit(o);
  }
  template <class R, bool Error> struct wres
  {
    typedef typename mp::get_position<R>::type pos;
    static void go(int id, int b)
    {
      wrow(id, b, false, mp::get_result<R>::type::value,
        mpl::size<typename mp::get_remaining<R>::type>::type::value, "",
        mp::get_line<pos>::type::value, mp::get_col<pos>::type::value,
        mp::get_prev_char<pos>::type::value);
    }
  };
  template <class R> struct wres<R, true>
  {
    typedef typename mp::get_position<R>::type pos;
    static void go(int id, int b)
    {
      wrow(id, b, true, 0, 0, mp::get_message<R>::type::get_value(),
        mp::get_line<pos>::type::value, mp::get_col<pos>::type::value,
        mp::get_prev_char<pos>::type::value);
    }
  };
  template <class P, class Pos, char Next, int I> struct wsweep
  {
    static void go(int id)
    {
      typedef typename P::template apply<
        mp::string<static_cast<char>(I), Next>, Pos>::type r;
      wres<r, mp::is_error<r>::type::value>::go(id, I);
      wsweep<P, Pos, Next, I - 1>::go(id);
    }
  };
  template <class P, class Pos, char Next> struct wsweep<P, Pos, Next, -1>
  {
    static void go(int) {}
  };
  template <class P, class Pos, char Next> void sweep(int id)
  {
    wsweep<P, Pos, Next, 255>::go(id);
  }

  // a predicate over all characters: V <case> <key> 0101...
  template <class F, int I> struct psweep
  {
    static void go(std::string& o)
    {
      psweep<F, I - 1>::go(o);
      o += F::template apply<mpl::char_<static_cast<char>(I)> >::type::value
        ? "1" : "0";
    }
  };
  template <class F> struct psweep<F, -1>
  {
    static void go(std::string&) {}
  };
  template <class F> void pred(int id, const char* key)
  {
    std::string o = "V ";
    num(o, id);
    o += " ";
    o += key;
    o += " ";
    psweep<F, 255>::go(o);
    emit(o);
  }

  // ------------------------------------------------ every observer of string
  template <class Begin, class It> struct back_range
  {
    static void go(std::string& o)
    {
      typedef typename mpl::prior<It>::type prev;
      o += static_cast<char>(mpl::deref<prev>::type::value);
      back_range<Begin, prev>::go(o);
    }
  };
  template <class Begin> struct back_range<Begin, Begin>
  {
    static void go(std::string&) {}
  };
  template <class S, int N> struct at_all
  {
    static void go(std::string& o)
    {
      at_all<S, N - 1>::go(o);
      o += static_cast<char>(mpl::at_c<S, N - 1>::type::value);
    }
  };
  template <class S> struct at_all<S, 0>
  {
    static void go(std::string&) {}
  };
  template <class S, bool Empty> struct ends
  {
    static void go(std::string& o)
    {
      o += "|f="; num(o, mpl::front<S>::type::value);
      o += "|b="; num(o, mpl::back<S>::type::value);
    }
  };
  template <class S> struct ends<S, true>
  {
    static void go(std::string& o) { o += "|f=|b="; }
  };
  template <class S> void str(int id, const char* key)
  {
    typedef typename mpl::begin<S>::type b;
    typedef typename mpl::end<S>::type e;
    const int n = mpl::size<S>::type::value;
    std::string o = "V ", t;
    num(o, id); o += " "; o += key; o += " n="; num(o, n);
    o += "|e="; num(o, mpl::empty<S>::type::value);
    o += "|d="; num(o, mpl::distance<b, e>::type::value);
    chars_range<b, e>::go(t);
    o += "|>"; hexs(o, t); t.clear();
    back_range<b, e>::go(t);
    o += "|<"; hexs(o, t); t.clear();
    at_all<S, n>::go(t);
    o += "|@"; hexs(o, t); t.clear();
    ends<S, mpl::empty<S>::type::value>::go(o);
    // n characters and the terminator; reading past the array is caught
    const char* volatile p = mpl::c_str<S>::type::value;
    for (int i = 0; i <= n; ++i) t += p[i];
    o += "|c="; hexs(o, t);
    emit(o);
  }

#if BOOST_METAPARSE_STD >= 2011
  // exactly string<...>, its characters and its c_str
  template <class S> struct exact_string
  {
    static void go(std::string& o) { o += "other-type"; }
  };
  template <char... Cs> struct exact_string<mp::string<Cs...> >
  {
    static void go(std::string& o)
    {
      const char b[] = {Cs..., 0};
      o += "string:";
      num(o, sizeof...(Cs));
      o += ":";
      hexs(o, std::string(b, sizeof...(Cs)));
      const char* volatile p = mpl::c_str<mp::string<Cs...> >::type::value;
      std::string t;
      for (unsigned i = 0; i <= sizeof...(Cs); ++i) t += p[i];
      o += ":";
      hexs(o, t);
    }
  };
  template <class S> void lit(int id, const char* key)
  {
    std::string o = "V ";
    num(o, id);
    o += " ";
    o += key;
    o += " ";
    exact_string<S>::go(o);
    emit(o);
  }
  template <class S> void litv(int id, const char* key, const S&)
  {
    lit<S>(id, key);
  }
#endif

  // -------------------------------------------------------------- laziness
  // a nullary metafunction N levels away from T
  template <int N, class T> struct lazy { typedef typename lazy<N - 1, T>::type type; };
  template <class T> struct lazy<0, T> { typedef T type; };
  // instantiating its ::type is an error
  template <class T> struct trap { typedef typename T::must_not_be_evaluated type; };

  // ------------------------------------------------------- input carriers
  template <char C, class T> struct cons :
    mpl::push_front<typename T::type, mpl::char_<C> >
  {};
  typedef mpl::list<> nil;
}

#endif
