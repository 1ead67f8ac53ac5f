#include "core.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P01";
  char const * const RULE = "every (previous content, value, store operation) combination within the value universe: after the store all accessors of the stored kind return the value bit for bit and all const accessors of other kinds throw";

  struct Store { char const * name; std::function<void(GCN&,Val const &)> f; };

  static double rr( Val const & v ) { return bitsd(v.w[0]); }
  static cplx   cc( Val const & v ) { return cplx(bitsd(v.w[0]),bitsd(v.w[1])); }
  static bool nonul( string const & s ) { return s.find('\0') == string::npos; }

  template <class M> M mat_of( Val const & v );
  template <> mat_int_type mat_of<mat_int_type>( Val const & v ) { mat_int_type m(v.nr,v.nc); for ( size_t i=0; i<v.w.size(); ++i ) m[i] = int32_t(int64_t(v.w[i])); return m; }
  template <> mat_long_type mat_of<mat_long_type>( Val const & v ) { mat_long_type m(v.nr,v.nc); for ( size_t i=0; i<v.w.size(); ++i ) m[i] = int64_t(v.w[i]); return m; }
  template <> mat_real_type mat_of<mat_real_type>( Val const & v ) { mat_real_type m(v.nr,v.nc); for ( size_t i=0; i<v.w.size(); ++i ) m[i] = bitsd(v.w[i]); return m; }
  template <> mat_complex_type mat_of<mat_complex_type>( Val const & v ) { mat_complex_type m(v.nr,v.nc); for ( size_t i=0; i<v.size(); ++i ) m[i] = cplx(bitsd(v.w[2*i]),bitsd(v.w[2*i+1])); return m; }
  template <class V> V vec_of( Val const & v ) { V r; for ( auto x : v.w ) r.push_back( static_cast<typename V::value_type>(int64_t(x)) ); return r; }
  template <> vec_pointer_type vec_of<vec_pointer_type>( Val const & v ) { vec_pointer_type r; for ( auto x : v.w ) r.push_back( reinterpret_cast<void*>(x) ); return r; }
  template <> vec_bool_type vec_of<vec_bool_type>( Val const & v ) { vec_bool_type r; for ( auto x : v.w ) r.push_back( x != 0 ); return r; }
  template <> vec_real_type vec_of<vec_real_type>( Val const & v ) { vec_real_type r; for ( auto x : v.w ) r.push_back( bitsd(x) ); return r; }
  template <> vec_complex_type vec_of<vec_complex_type>( Val const & v ) { vec_complex_type r; for ( size_t i=0; i<v.size(); ++i ) r.emplace_back( bitsd(v.w[2*i]), bitsd(v.w[2*i+1]) ); return r; }

  // all operations that store a value of kind v.k
  static vector<Store> stores( Val const & v ) {
    vector<Store> S;
    auto add = [&]( char const * n, std::function<void(GCN&,Val const &)> f ) { S.push_back({n,f}); };
    add( "generic build", []( GCN & g, Val const & x ){ build(g,x); } );
    switch ( v.k ) {
    case NOTYPE: add( "clear", []( GCN & g, Val const & ){ g.clear(); } ); break;
    case POINTER:
      add( "set(ptr)", []( GCN & g, Val const & x ){ g.set( reinterpret_cast<void*>(x.w[0]) ); } );
      add( "=ptr", []( GCN & g, Val const & x ){ g = reinterpret_cast<void*>(x.w[0]); } );
      add( "=GC(ptr)", []( GCN & g, Val const & x ){ g = GCN( reinterpret_cast<void*>(x.w[0]) ); } );
      add( "set_pointer ref", []( GCN & g, Val const & x ){ g.set_pointer(nullptr) = reinterpret_cast<void*>(x.w[0]); } );
      break;
    case BOOL:
      add( "set", []( GCN & g, Val const & x ){ g.set( bool(x.w[0]) ); } );
      add( "=", []( GCN & g, Val const & x ){ g = bool(x.w[0]); } );
      add( "ctor", []( GCN & g, Val const & x ){ g = GCN( bool(x.w[0]) ); } );
      add( "ref", []( GCN & g, Val const & x ){ g.set_bool(!x.w[0]) = bool(x.w[0]); } );
      break;
    case INT: {
      add( "set", []( GCN & g, Val const & x ){ g.set( int32_t(int64_t(x.w[0])) ); } );
      add( "=", []( GCN & g, Val const & x ){ g = int32_t(int64_t(x.w[0])); } );
      add( "ctor", []( GCN & g, Val const & x ){ g = GCN( int32_t(int64_t(x.w[0])) ); } );
      add( "ref", []( GCN & g, Val const & x ){ g.set_int(3) = int32_t(int64_t(x.w[0])); } );
      if ( int64_t(v.w[0]) >= 0 ) {
        add( "set(uint)", []( GCN & g, Val const & x ){ g.set( uint32_t(x.w[0]) ); } );
        add( "=uint", []( GCN & g, Val const & x ){ g = uint32_t(x.w[0]); } );
        add( "ctor(uint)", []( GCN & g, Val const & x ){ g = GCN( uint32_t(x.w[0]) ); } );
      }
      break; }
    case LONG:
      add( "set", []( GCN & g, Val const & x ){ g.set( int64_t(x.w[0]) ); } );
      add( "=", []( GCN & g, Val const & x ){ g = int64_t(x.w[0]); } );
      add( "ctor", []( GCN & g, Val const & x ){ g = GCN( int64_t(x.w[0]) ); } );
      add( "ref", []( GCN & g, Val const & x ){ g.set_long(3) = int64_t(x.w[0]); } );
      if ( int64_t(v.w[0]) >= 0 ) {
        add( "set(ulong)", []( GCN & g, Val const & x ){ g.set( uint64_t(x.w[0]) ); } );
        add( "=ulong", []( GCN & g, Val const & x ){ g = uint64_t(x.w[0]); } );
        add( "ctor(ulong)", []( GCN & g, Val const & x ){ g = GCN( uint64_t(x.w[0]) ); } );
        if ( v.w[0] > uint64_t(INT32_MAX) && v.w[0] <= 0xFFFFFFFFull ) {
          // unsigned values beyond the int range are kept as long integers
          add( "set(uint)", []( GCN & g, Val const & x ){ g.set( uint32_t(x.w[0]) ); } );
          add( "=uint", []( GCN & g, Val const & x ){ g = uint32_t(x.w[0]); } );
          add( "ctor(uint)", []( GCN & g, Val const & x ){ g = GCN( uint32_t(x.w[0]) ); } );
        }
      }
      break;
    case REAL:
      add( "set", []( GCN & g, Val const & x ){ g.set( rr(x) ); } );
      add( "=", []( GCN & g, Val const & x ){ g = rr(x); } );
      add( "ctor", []( GCN & g, Val const & x ){ g = GCN( rr(x) ); } );
      add( "ref", []( GCN & g, Val const & x ){ g.set_real(3) = rr(x); } );
      if ( std::fabs(rr(v)) < 1e30 && dbits(double(float(rr(v)))) == v.w[0] ) {
        add( "set(float)", []( GCN & g, Val const & x ){ g.set( float(rr(x)) ); } );
        add( "=float", []( GCN & g, Val const & x ){ g = float(rr(x)); } );
        add( "ctor(float)", []( GCN & g, Val const & x ){ g = GCN( float(rr(x)) ); } );
      }
      break;
    case COMPLEX:
      add( "set", []( GCN & g, Val const & x ){ g.set( cc(x) ); } );
      add( "=", []( GCN & g, Val const & x ){ g = cc(x); } );
      add( "ctor", []( GCN & g, Val const & x ){ g = GCN( cc(x) ); } );
      add( "set_complex(c)", []( GCN & g, Val const & x ){ g.set_complex( cc(x) ); } );
      add( "ref", []( GCN & g, Val const & x ){ g.set_complex( 1, 2 ) = cc(x); } );
      if ( std::fabs(cc(v).real()) < 1e30 && std::fabs(cc(v).imag()) < 1e30 && dbits(double(float(cc(v).real()))) == v.w[0] && dbits(double(float(cc(v).imag()))) == v.w[1] ) {
        add( "set(cfloat)", []( GCN & g, Val const & x ){ g.set( std::complex<float>(float(cc(x).real()),float(cc(x).imag())) ); } );
        add( "=cfloat", []( GCN & g, Val const & x ){ g = std::complex<float>(float(cc(x).real()),float(cc(x).imag())); } );
        add( "ctor(cfloat)", []( GCN & g, Val const & x ){ g = GCN( std::complex<float>(float(cc(x).real()),float(cc(x).imag())) ); } );
      }
      break;
    case STRING:
      add( "set(view)", []( GCN & g, Val const & x ){ g.set( string_view(x.s[0]) ); } );
      add( "=string", []( GCN & g, Val const & x ){ g = x.s[0]; } );
      add( "=view", []( GCN & g, Val const & x ){ g = string_view(x.s[0]); } );
      add( "=view of a longer text", []( GCN & g, Val const & x ){ string t = x.s[0] + "tail"; g = string_view(t.data(),x.s[0].size()); } );
      add( "set(view of a longer text)", []( GCN & g, Val const & x ){ string t = x.s[0] + "7"; g.set( string_view(t.data(),x.s[0].size()) ); g.set_string( string_view(t.data(),x.s[0].size()) ); } );
      add( "ctor(view of a longer text)", []( GCN & g, Val const & x ){ string t = x.s[0] + "7"; g = GCN( string_view(t.data(),x.s[0].size()) ); } );
      add( "ctor(string)", []( GCN & g, Val const & x ){ g = GCN( x.s[0] ); } );
      add( "ctor(view)", []( GCN & g, Val const & x ){ g = GCN( string_view(x.s[0]) ); } );
      add( "ref", []( GCN & g, Val const & x ){ g.set_string("zz") = x.s[0]; } );
      if ( nonul(v.s[0]) ) {
        add( "set(char*)", []( GCN & g, Val const & x ){ g.set( x.s[0].c_str() ); } );
        add( "=char*", []( GCN & g, Val const & x ){ g = x.s[0].c_str(); } );
        add( "ctor(char*)", []( GCN & g, Val const & x ){ g = GCN( x.s[0].c_str() ); } );
      }
      break;
    #define VEC(K,T,SETTER) \
    case K: \
      add( "resize+fill", []( GCN & g, Val const & x ){ T t = vec_of<T>(x); auto & r = g.SETTER( unsigned(t.size()) ); REQ( r.size() == t.size(), "wrong size " << r.size() ); for ( size_t i=0; i<t.size(); ++i ) r[i] = t[i]; } ); \
      add( "resize(long)+fill", []( GCN & g, Val const & x ){ T t = vec_of<T>(x); auto & r = g.SETTER( long(t.size()) ); REQ( r.size() == t.size(), "wrong size " << r.size() ); for ( size_t i=0; i<t.size(); ++i ) r[i] = t[i]; } ); \
      add( "append", []( GCN & g, Val const & x ){ T t = vec_of<T>(x); auto & r = g.SETTER(); for ( auto e : t ) r.push_back(e); } );
    VEC(VPOINTER,vec_pointer_type,set_vec_pointer) break;
    VEC(VBOOL,vec_bool_type,set_vec_bool)
      add( "=", []( GCN & g, Val const & x ){ g = vec_of<vec_bool_type>(x); } ); break;
    VEC(VINT,vec_int_type,set_vec_int)
      add( "=", []( GCN & g, Val const & x ){ g = vec_of<vec_int_type>(x); } ); break;
    VEC(VLONG,vec_long_type,set_vec_long)
      add( "=", []( GCN & g, Val const & x ){ g = vec_of<vec_long_type>(x); } ); break;
    VEC(VREAL,vec_real_type,set_vec_real)
      add( "=", []( GCN & g, Val const & x ){ g = vec_of<vec_real_type>(x); } ); break;
    VEC(VCOMPLEX,vec_complex_type,set_vec_complex)
      add( "=", []( GCN & g, Val const & x ){ g = vec_of<vec_complex_type>(x); } ); break;
    case VSTRING:
      add( "resize+fill", []( GCN & g, Val const & x ){ auto & r = g.set_vec_string( unsigned(x.s.size()) ); REQ( r.size() == x.s.size(), "wrong size" ); for ( size_t i=0; i<x.s.size(); ++i ) r[i] = x.s[i]; } );
      add( "append", []( GCN & g, Val const & x ){ auto & r = g.set_vec_string(); for ( auto & e : x.s ) r.push_back(e); } );
      add( "=", []( GCN & g, Val const & x ){ g = x.s; } ); break;
    #define MAT(K,T,SETTER) \
    case K: \
      add( "=", []( GCN & g, Val const & x ){ g = mat_of<T>(x); } ); \
      add( "resize+fill", []( GCN & g, Val const & x ){ T m = mat_of<T>(x); T & r = g.SETTER( x.nr, x.nc ); REQ( r.num_rows() == x.nr && r.num_cols() == x.nc, "wrong shape" ); for ( unsigned j=0; j<x.nc; ++j ) for ( unsigned i=0; i<x.nr; ++i ) r(i,j) = m[i+j*x.nr]; } ); \
      break;
    MAT(MINT,mat_int_type,set_mat_int)
    MAT(MLONG,mat_long_type,set_mat_long)
    MAT(MREAL,mat_real_type,set_mat_real)
    MAT(MCOMPLEX,mat_complex_type,set_mat_complex)
    case VECTOR:
      add( "set_vector+index", []( GCN & g, Val const & x ){ auto & r = g.set_vector( unsigned(x.ch.size()) ); REQ( r.size() == x.ch.size(), "wrong size" ); for ( unsigned i=0; i<x.ch.size(); ++i ) build( g[i], x.ch[i] ); } );
      add( "set_vector+grow", []( GCN & g, Val const & x ){ g.set_vector(); for ( unsigned i=0; i<x.ch.size(); ++i ) build( g[i], x.ch[i] ); } );
      break;
    case MAP:
      add( "set_map+[]", []( GCN & g, Val const & x ){ g.set_map(); for ( size_t i=0; i<x.ch.size(); ++i ) build( g[x.s[i]], x.ch[i] ); } );
      add( "set_map+[] reversed", []( GCN & g, Val const & x ){ g.set_map(); for ( size_t i=x.ch.size(); i-- > 0; ) build( g[x.s[i]], x.ch[i] ); } );
      break;
    }
    return S;
  }

  // const accessors of every kind: name and action
  struct Acc { int k; char const * name; std::function<void(GCN const &)> f; };
  static vector<Acc> const & accessors() {
    static vector<Acc> A = {
      { POINTER, "get_pvoid", []( GCN const & g ){ (void)g.get_pvoid(); } },
      { POINTER, "get_ppvoid", []( GCN const & g ){ (void)g.get_ppvoid(); } },
      { POINTER, "get_pointer<>", []( GCN const & g ){ (void)g.get_pointer<void*>(); } },
      { BOOL, "get_bool", []( GCN const & g ){ (void)g.get_bool(); } },
      { INT, "get_int", []( GCN const & g ){ (void)g.get_int(); } },
      { LONG, "get_long", []( GCN const & g ){ (void)g.get_long(); } },
      { REAL, "get_real", []( GCN const & g ){ (void)g.get_real(); } },
      { COMPLEX, "get_complex", []( GCN const & g ){ (void)g.get_complex(); } },
      { STRING, "get_string", []( GCN const & g ){ (void)g.get_string(); } },
      { VPOINTER, "get_vec_pointer", []( GCN const & g ){ (void)g.get_vec_pointer(); } },
      { VBOOL, "get_vec_bool", []( GCN const & g ){ (void)g.get_vec_bool(); } },
      { VINT, "get_vec_int", []( GCN const & g ){ (void)g.get_vec_int(); } },
      { VLONG, "get_vec_long", []( GCN const & g ){ (void)g.get_vec_long(); } },
      { VREAL, "get_vec_real", []( GCN const & g ){ (void)g.get_vec_real(); } },
      { VCOMPLEX, "get_vec_complex", []( GCN const & g ){ (void)g.get_vec_complex(); } },
      { VSTRING, "get_vec_string", []( GCN const & g ){ (void)g.get_vec_string(); } },
      { MINT, "get_mat_int", []( GCN const & g ){ (void)g.get_mat_int(); } },
      { MLONG, "get_mat_long", []( GCN const & g ){ (void)g.get_mat_long(); } },
      { MREAL, "get_mat_real", []( GCN const & g ){ (void)g.get_mat_real(); } },
      { MCOMPLEX, "get_mat_complex", []( GCN const & g ){ (void)g.get_mat_complex(); } },
      { VECTOR, "get_vector", []( GCN const & g ){ (void)g.get_vector(); } },
      { MAP, "get_map", []( GCN const & g ){ (void)g.get_map(); } },
    };
    return A;
  }

  // read the value back through the mutable getters and the other access paths
  static void other_paths( GCN & g, Val const & v ) {
    GCN const & c = g;
    size_t n = v.size();
    switch ( v.k ) {
    case POINTER:
      REQ( reinterpret_cast<uint64_t>( g.get_pointer<void*>() ) == v.w[0], "get_pointer<>" );
      REQ( reinterpret_cast<uint64_t>( *c.get_ppvoid() ) == v.w[0], "get_ppvoid" );
      REQ( reinterpret_cast<uint64_t>( c.get_pointer<char*>() ) == v.w[0], "const get_pointer<>" );
      break;
    case BOOL: REQ( g.get_bool() == (v.w[0]!=0), "mutable get_bool" ); break;
    case INT: {
      REQ( g.get_int() == int64_t(v.w[0]), "mutable get_int" );
      REQ( *c.get_int_pointer() == int64_t(v.w[0]) && *g.get_int_pointer() == int64_t(v.w[0]), "get_int_pointer" );
      int32_t x = 0; c.get_value(x); REQ( x == int64_t(v.w[0]), "get_value<int>" );
      REQ( c.get_as_int() == int64_t(v.w[0]), "get_as_int" );
      break; }
    case LONG: {
      REQ( g.get_long() == int64_t(v.w[0]), "mutable get_long" );
      REQ( *c.get_long_pointer() == int64_t(v.w[0]) && *g.get_long_pointer() == int64_t(v.w[0]), "get_long_pointer" );
      int64_t x = 0; c.get_value(x); REQ( x == int64_t(v.w[0]), "get_value<long>" );
      REQ( c.get_as_long() == int64_t(v.w[0]), "get_as_long" );
      break; }
    case REAL: {
      REQ( dbits(g.get_real()) == v.w[0], "mutable get_real" );
      REQ( dbits(*c.get_real_pointer()) == v.w[0] && dbits(*g.get_real_pointer()) == v.w[0], "get_real_pointer" );
      double x = 0; c.get_value(x); REQ( dbits(x) == v.w[0], "get_value<double>" );
      REQ( dbits(c.get_number()) == v.w[0], "get_number" );
      break; }
    case COMPLEX: {
      cplx z = g.get_complex(); REQ( dbits(z.real()) == v.w[0] && dbits(z.imag()) == v.w[1], "mutable get_complex" );
      z = *c.get_complex_pointer(); REQ( dbits(z.real()) == v.w[0] && dbits(z.imag()) == v.w[1], "get_complex_pointer" );
      z = *g.get_complex_pointer(); REQ( dbits(z.real()) == v.w[0] && dbits(z.imag()) == v.w[1], "mutable get_complex_pointer" );
      z = c.get_complex_number(); REQ( dbits(z.real()) == v.w[0] && dbits(z.imag()) == v.w[1], "get_complex_number" );
      double re = 0, im = 0; c.get_complex_number( re, im ); REQ( dbits(re) == v.w[0] && dbits(im) == v.w[1], "get_complex_number(re,im)" );
      break; }
    case STRING: { REQ( g.get_string() == v.s[0], "mutable get_string" ); break; }
    case VPOINTER: REQ( g.get_vec_pointer() == vec_of<vec_pointer_type>(v), "mutable get_vec_pointer" ); break;
    case VBOOL: REQ( g.get_vec_bool() == vec_of<vec_bool_type>(v), "mutable get_vec_bool" ); break;
    case VINT: REQ( g.get_vec_int() == vec_of<vec_int_type>(v), "mutable get_vec_int" );
      for ( size_t i=0; i<n; ++i ) REQ( c.get_int_pointer()[i] == int64_t(v.w[i]) && g.get_int_pointer()[i] == int64_t(v.w[i]), "int pointer " << i ); break;
    case VLONG: REQ( g.get_vec_long() == vec_of<vec_long_type>(v), "mutable get_vec_long" );
      for ( size_t i=0; i<n; ++i ) REQ( c.get_long_pointer()[i] == int64_t(v.w[i]) && g.get_long_pointer()[i] == int64_t(v.w[i]), "long pointer " << i ); break;
    case VREAL: { auto & t = g.get_vec_real(); REQ( t.size() == n, "mutable get_vec_real size" ); for ( size_t i=0; i<n; ++i ) REQ( dbits(t[i]) == v.w[i] && dbits(c.get_real_pointer()[i]) == v.w[i] && dbits(g.get_real_pointer()[i]) == v.w[i], "real element " << i ); break; }
    case VCOMPLEX: { auto & t = g.get_vec_complex(); REQ( t.size() == n, "mutable get_vec_complex size" ); for ( size_t i=0; i<n; ++i ) REQ( dbits(t[i].real()) == v.w[2*i] && dbits(c.get_complex_pointer()[i].imag()) == v.w[2*i+1] && dbits(g.get_complex_pointer()[i].imag()) == v.w[2*i+1], "complex element " << i ); break; }
    case VSTRING: REQ( g.get_vec_string() == v.s, "mutable get_vec_string" ); break;
    case MINT: { auto & m = g.get_mat_int(); REQ( m.num_rows() == v.nr && m.num_cols() == v.nc, "shape" ); for ( size_t i=0; i<n; ++i ) REQ( m[i] == int64_t(v.w[i]) && c.get_int_pointer()[i] == int64_t(v.w[i]) && g.get_int_pointer()[i] == int64_t(v.w[i]), "element " << i ); break; }
    case MLONG: { auto & m = g.get_mat_long(); REQ( m.num_rows() == v.nr && m.num_cols() == v.nc, "shape" ); for ( size_t i=0; i<n; ++i ) REQ( m[i] == int64_t(v.w[i]) && c.get_long_pointer()[i] == int64_t(v.w[i]) && g.get_long_pointer()[i] == int64_t(v.w[i]), "element " << i ); break; }
    case MREAL: { auto & m = g.get_mat_real(); REQ( m.num_rows() == v.nr && m.num_cols() == v.nc, "shape" ); for ( size_t i=0; i<n; ++i ) REQ( dbits(m[i]) == v.w[i] && dbits(c.get_real_pointer()[i]) == v.w[i] && dbits(g.get_real_pointer()[i]) == v.w[i], "element " << i ); break; }
    case MCOMPLEX: { auto & m = g.get_mat_complex(); REQ( m.num_rows() == v.nr && m.num_cols() == v.nc, "shape" ); for ( size_t i=0; i<n; ++i ) REQ( dbits(m[i].real()) == v.w[2*i] && dbits(c.get_complex_pointer()[i].imag()) == v.w[2*i+1] && dbits(g.get_complex_pointer()[i].imag()) == v.w[2*i+1], "element " << i ); break; }
    case VECTOR: { auto & t = g.get_vector(); REQ( t.size() == n, "get_vector size" ); break; }
    case MAP: { auto & t = g.get_map(); REQ( t.size() == n, "get_map size" ); break; }
    }
    REQ( readback(g) == v, "container changed by reading it: " << show(readback(g)) );
  }

  static void one( Runner & R, Val const & prior, Val const & v, bool deep ) {
    for ( auto const & S : stores(v) ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return string(S.name) + " of " + show(v) + " over " + show(prior); }, [&]{
        auto g = std::make_unique<GCN>();
        build( *g, prior );
        S.f( *g, v );
        REQ( g->get_type() == to_gct(v.k), "wrong kind " << g->get_type_name() );
        REQ_EQ( *g, v, "stored value" );
        REQ( g->get_num_elements() == v.size(), "get_num_elements " << g->get_num_elements() );
        if ( !is_mat(v.k) ) { unsigned const nr = v.k == NOTYPE ? 0 : 1; REQ( g->num_rows() == nr && g->num_cols() == v.size() && g->get_numRows() == nr && g->get_numCols() == v.size(), "one row: rows/cols " << g->num_rows() << " x " << g->num_cols() ); }
        if ( is_mat(v.k) ) REQ( g->num_rows() == v.nr && g->num_cols() == v.nc && g->get_numRows() == v.nr && g->get_numCols() == v.nc, "rows/cols " << g->num_rows() << ' ' << g->num_cols() );
        other_paths( *g, v );
        if ( deep ) {
          for ( auto const & A : accessors() ) {
            bool t = throws( [&]{ A.f(*g); } );
            REQ( t == (A.k != v.k), A.name << (t?" throws":" accepted") << " on " << kname(v.k) );
          }
          REQ_EQ( *g, v, "after rejected accesses" );
        }
        R.trans(2); R.state(v);
      } );
    }
  }

  void enumerate( Runner & R ) {
    auto P = values_one_per_shape();
    R.family("all kinds over all kinds");
    for ( auto & p : P ) for ( auto & v : P ) one( R, p, v, true );
    R.family("edge scalars");
    for ( auto & v : scalars_edge() ) { one( R, vnone(), v, true ); one( R, distinct_vec(VSTRING,2), v, false ); one( R, v.k == STRING ? vstr("another string, longer than usual ........") : vstr("x"), v, false ); }
    R.family("scalar over scalar of the same kind");
    for ( int k=POINTER; k<=STRING; ++k ) { auto e = scalars_of(k,k!=COMPLEX && k!=REAL && k!=LONG); if ( k == COMPLEX ) for ( Val const & z : { vcplx(0,0), vcplx(-0.0,0), vcplx(0,-0.0), vcplx(-0.0,-0.0) } ) e.push_back(z); for ( auto & a : e ) for ( auto & b : e ) one( R, a, b, false ); }
    R.family("all lengths");
    for ( auto & v : vectors_of_all_lengths( R.thorough ? 600 : 260 ) ) { one( R, vnone(), v, false ); }
    R.family("length over length");
    { int L = R.thorough ? 24 : 10; vector<Val> A = vectors_of_all_lengths(L); for ( auto & a : A ) for ( auto & b : A ) if ( a.k == b.k ) one( R, a, b, false ); }
    { unsigned L = R.thorough ? 200 : 70; for ( unsigned a=0; a<=L; ++a ) for ( unsigned b=0; b<=L; ++b ) one( R, distinct_vec(VBOOL,a), distinct_vec(VBOOL,b), false );
      for ( int k : { VINT, VREAL, VSTRING } ) for ( unsigned a=0; a<=40; ++a ) for ( unsigned b=0; b<=40; b+=(R.thorough?1:3) ) one( R, distinct_vec(k,a), distinct_vec(k,b), false ); }
    R.family("element over element");
    for ( int k : { VBOOL, VINT, VLONG, VREAL, VCOMPLEX, VSTRING } ) { vector<Val> e = scalars_of( elem_kind(k), k != VCOMPLEX ); if ( k == VCOMPLEX ) for ( Val const & z : { vcplx(0,0), vcplx(-0.0,0), vcplx(0,-0.0), vcplx(-0.0,-0.0) } ) e.push_back(z);
      for ( auto & a : e ) for ( auto & b : e ) { one( R, vvec(k,{a}), vvec(k,{b}), false ); if ( k == VREAL || k == VCOMPLEX || k == VINT || k == VLONG ) { int m = k == VREAL ? MREAL : k == VCOMPLEX ? MCOMPLEX : k == VINT ? MINT : MLONG; one( R, vmat(m,1,1,{a}), vmat(m,1,1,{b}), false ); } one( R, vvec(k,{e[0],a}), vvec(k,{e[0],b}), false ); } }
    R.family("content that differs from the earlier one in a single place");
    for ( int k=VPOINTER; k<=VSTRING; ++k ) for ( unsigned n : { 2u, 3u, 5u, 8u } ) for ( unsigned p=0; p<n; ++p ) {
      vector<Val> e, f; for ( unsigned i=0; i<n; ++i ) e.push_back( distinct_elem( elem_kind(k), i ) ); f = e; f[p] = k == VBOOL ? vbool( !( e[p] == vbool(true) ) ) : distinct_elem( elem_kind(k), n+3 );
      one( R, vvec(k,e), vvec(k,f), false ); one( R, vgen(e), vgen(f), false );
      int m = k == VREAL ? MREAL : k == VCOMPLEX ? MCOMPLEX : k == VINT ? MINT : k == VLONG ? MLONG : 0;
      if ( m ) { one( R, vmat(m,n,1,e), vmat(m,n,1,f), false ); one( R, vmat(m,1,n,e), vmat(m,1,n,f), false ); one( R, vmat(m,n,1,e), vmat(m,1,n,e), false ); if ( n == 8 ) { one( R, vmat(m,4,2,e), vmat(m,4,2,f), false ); one( R, vmat(m,4,2,e), vmat(m,2,4,e), false ); } }
    }
    for ( unsigned n : { 2u, 3u, 15u, 16u, 17u, 40u } ) for ( unsigned p=0; p<n; ++p ) for ( char c : { '\0', 'Z', ' ' } ) { string s, t; for ( unsigned i=0; i<n; ++i ) s += char('a'+i%26); t = s; t[p] = c; one( R, vstr(s), vstr(t), false ); one( R, vmap({{s,vint(1)}}), vmap({{t,vint(1)}}), false ); one( R, vvec(VSTRING,{vstr(s),vstr("e")}), vvec(VSTRING,{vstr(t),vstr("e")}), false ); }
    R.family("matrix shapes");
    { unsigned L = R.thorough ? 6 : 4; for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned a=0; a<=L; ++a ) for ( unsigned b=0; b<=L; ++b ) for ( unsigned c=0; c<=L; ++c ) for ( unsigned d=0; d<=L; ++d ) one( R, distinct_mat(k,a,b), distinct_mat(k,c,d), false );
      for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned n : {17u,64u,255u,256u,257u} ) { one( R, vnone(), distinct_mat(k,n,1), false ); one( R, vnone(), distinct_mat(k,1,n), false ); one( R, vnone(), distinct_mat(k,n,3), false ); one( R, vnone(), distinct_mat(k,7,n), false ); } }
    R.family("strings: all 1 and 2 byte texts");
    for ( int a=0; a<256; ++a ) { one( R, vnone(), vstr(string(1,char(a))), false ); one( R, vnone(), vmap({{string(1,char(a)),vint(a)}}), false ); }
    for ( int a=0; a<256; ++a ) for ( int b=0; b<256; b += (R.thorough?1:5) ) { string s; s += char(a); s += char(b); one( R, vnone(), vstr(s), false ); }
    R.family("string lengths");
    for ( int n=0; n<(R.thorough?2100:600); ++n ) { string s; for ( int i=0; i<n; ++i ) s += char(32+(i*31)%90); one( R, vstr("q"), vstr(s), false ); }
    R.family("nested");
    for ( auto & v : values_nested( 2, { vnone(), vint(3), vstr("") } ) ) one( R, vnone(), v, false );
    if ( R.thorough ) for ( auto & v : values_nested( 2, { vreal(1), distinct_vec(VINT,2), distinct_mat(MREAL,1,2) } ) ) one( R, vmap({{"z",vint(1)}}), v, false );
    for ( int d=1; d<=(R.thorough?200:60); ++d ) { Val t = vint(d); for ( int i=0; i<d; ++i ) t = (i&1) ? vgen({vstr("e"),t}) : vmap({{"k",t}}); one( R, vnone(), t, false ); }
    R.family("large members of every shape");
    for ( auto & v : values_large( 70000 ) ) one( R, vnone(), v, false ); for ( auto & v : values_large( 300 ) ) for ( auto & p : values_one_per_shape() ) one( R, p, v, false );
  }
}
