#include "num.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P07";
  char const * const RULE = "every (stored scalar, conversion) pair: stored values are every kind of the universe, all integers around 0 and around every power of two and ten, all reals around 0, around every power of two (whole, half and adjacent doubles) and special values, and complex numbers pairing them with zero / non-zero / NaN imaginary parts; the result is compared with an exact 128-bit oracle and the container is read back after each call";

  template <class T> static void one_int( GCN const & g, Val const & v, char const * what, std::function<T()> f ) {
    T e{}; bool ok = to_integer<T>( v, e );
    T r{}; bool t = throws( [&]{ r = f(); } );
    REQ( t != ok, what << " of " << show(v) << (t ? " throws although representable" : " returns a value although not representable") );
    if ( ok ) REQ( r == e, what << " of " << show(v) << " = " << std::to_string(r) << ", expected " << std::to_string(e) );
    REQ_EQ( g, v, string(what) + " changed the container" );
  }
  // an unchanged output variable is not required when get_value throws, a returned value is
  static void all( Runner & R, Val const & v, string const & where ) {
    if ( R.skip() ) return;
    R.run( [&]{ return "conversions of " + show(v) + " where='" + where + "'"; }, [&]{
      GCN g0; build( g0, v ); GCN const & g = g0;
      string_view w = where;
      one_int<int_type>( g, v, "get_as_int", [&]{ return g.get_as_int(w); } );
      one_int<uint_type>( g, v, "get_as_uint", [&]{ return g.get_as_uint(w); } );
      one_int<long_type>( g, v, "get_as_long", [&]{ return g.get_as_long(w); } );
      one_int<ulong_type>( g, v, "get_as_ulong", [&]{ return g.get_as_ulong(w); } );
      one_int<int_type>( g, v, "get_value<int>", [&]{ int_type x = 77; g.get_value(x,w); return x; } );
      one_int<uint_type>( g, v, "get_value<uint>", [&]{ uint_type x = 77; g.get_value(x,w); return x; } );
      one_int<long_type>( g, v, "get_value<long>", [&]{ long_type x = 77; g.get_value(x,w); return x; } );
      one_int<ulong_type>( g, v, "get_value<ulong>", [&]{ ulong_type x = 77; g.get_value(x,w); return x; } );
      double e = 0; bool ok = to_double( v, e );
      { double r = 0; bool t = throws( [&]{ g.get_value(r,w); } );
        REQ( t != ok, "get_value<double> " << (t?"throws":"does not throw") );
        if ( ok ) REQ( same_num(r,e), "get_value<double> = " << r << " expected " << e );
        REQ_EQ( g, v, "get_value<double> changed the container" ); }
      { float r = 0; bool t = throws( [&]{ g.get_value(r,w); } );
        REQ( t != ok, "get_value<float> " << (t?"throws":"does not throw") );
        if ( ok ) { float ef = v.k == BOOL || v.k == INT || v.k == LONG ? float(int64_t(v.w[0])) : float(e); REQ( same_num(r,ef), "get_value<float> = " << r << " expected " << ef ); }
        REQ_EQ( g, v, "get_value<float> changed the container" ); }
      { double r = 0; bool t = throws( [&]{ r = g.get_number(w); } );
        if ( v.k == COMPLEX ) { if ( !t ) REQ( ok && same_num(r,e), "get_number = " << r << " of a complex" ); }
        else { REQ( t != ok, "get_number " << (t?"throws":"does not throw") ); if ( ok ) REQ( same_num(r,e), "get_number = " << r << " expected " << e ); }
        REQ_EQ( g, v, "get_number changed the container" ); }
      { cplx r; bool num = is_numeric(v.k); bool t = throws( [&]{ r = g.get_complex_number(w); } );
        REQ( t != num, "get_complex_number " << (t?"throws":"does not throw") );
        if ( num ) REQ( same_num(r,as_cplx(v)), "get_complex_number = " << r << " expected " << as_cplx(v) );
        double re = 0, im = 0; t = throws( [&]{ g.get_complex_number(re,im); } );
        REQ( t != num, "get_complex_number(re,im) " << (t?"throws":"does not throw") );
        if ( num ) REQ( same_num(cplx(re,im),as_cplx(v)), "get_complex_number(re,im) = " << re << "," << im );
        REQ_EQ( g, v, "get_complex_number changed the container" ); }
      R.trans(13); R.state(v);
    } );
  }

  void enumerate( Runner & R ) {
    vector<string> W{ "", "call site" };
    R.family("every kind");
    for ( auto & v : values_medium() ) for ( auto & w : W ) all( R, v, w );
    for ( auto & v : scalars_edge() ) for ( auto & w : W ) all( R, v, w );
    R.family("integers");
    for ( int64_t i : dense_ints( R.thorough ) ) {
      all( R, vlong(i), "" );
      if ( i >= INT32_MIN && i <= INT32_MAX ) all( R, vint(int32_t(i)), "" );
      all( R, vreal(double(i)), "" );
      all( R, vcplx(double(i),0), "" );
    }
    R.family("reals");
    vector<double> I{ 0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 4.9e-324, -4.9e-324, 2.2e-16, 1e-9, 1e-12, -1e-15, 1e300, std::nan(""), HUGE_VAL };
    for ( double d : dense_reals( R.thorough ) ) {
      all( R, vreal(d), "" );
      for ( double im : I ) all( R, vcplx(d,im), "" );
    }
    R.family("after other content"); // a conversion reads the current scalar, not an earlier one
    auto S = scalars_edge();
    for ( auto & a : S ) for ( auto & b : values_one_per_shape() ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return show(a) + " stored over " + show(b); }, [&]{
        GCN g; build( g, b ); build( g, a );
        one_int<int_type>( g, a, "get_as_int", [&]{ return g.get_as_int(); } );
        one_int<ulong_type>( g, a, "get_as_ulong", [&]{ return g.get_as_ulong(); } );
        double e; bool ok = to_double(a,e); double r; if ( a.k != COMPLEX ) { REQ( throws([&]{ r = g.get_number(); }) != ok, "get_number" ); if ( ok ) REQ( same_num(r,e), "get_number = " << r ); }
        R.trans(3);
      } );
    }
    R.family("large members of every shape");
    for ( auto & v : values_large( 1100 ) ) all( R, v, "w" );
  }
}
