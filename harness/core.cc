#include "core.hh"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace H {
  using namespace GC_namespace;

  static char const * KN[] = { "none","ptr","bool","int","long","real","complex","string",
    "vec_ptr","vec_bool","vec_int","vec_long","vec_real","vec_complex","vec_string",
    "mat_int","mat_long","mat_real","mat_complex","vector","map" };
  char const * kname( int k ) { return k >= 0 && k < NKIND ? KN[k] : "?"; }

  GC_type to_gct( int k ) {
    switch ( k ) {
    case NOTYPE: return GC_type::NOTYPE;      case POINTER: return GC_type::POINTER;
    case BOOL: return GC_type::BOOL;          case INT: return GC_type::INTEGER;
    case LONG: return GC_type::LONG;          case REAL: return GC_type::REAL;
    case COMPLEX: return GC_type::COMPLEX;    case STRING: return GC_type::STRING;
    case VPOINTER: return GC_type::VEC_POINTER; case VBOOL: return GC_type::VEC_BOOL;
    case VINT: return GC_type::VEC_INTEGER;   case VLONG: return GC_type::VEC_LONG;
    case VREAL: return GC_type::VEC_REAL;     case VCOMPLEX: return GC_type::VEC_COMPLEX;
    case VSTRING: return GC_type::VEC_STRING; case MINT: return GC_type::MAT_INTEGER;
    case MLONG: return GC_type::MAT_LONG;     case MREAL: return GC_type::MAT_REAL;
    case MCOMPLEX: return GC_type::MAT_COMPLEX; case VECTOR: return GC_type::VECTOR;
    case MAP: return GC_type::MAP;
    }
    return GC_type::NOTYPE;
  }
  int from_gct( GC_type t ) { for ( int k=0; k<NKIND; ++k ) if ( to_gct(k) == t ) return k; return -1; }

  size_t Val::size() const {
    if ( k == NOTYPE ) return 0;
    if ( k == STRING || k == VSTRING ) return s.size();
    if ( k == COMPLEX || k == VCOMPLEX || k == MCOMPLEX ) return w.size()/2;
    if ( k == VECTOR || k == MAP ) return ch.size();
    return w.size();
  }
  Val const * Val::find( string const & key ) const {
    auto it = std::lower_bound( s.begin(), s.end(), key );
    if ( it == s.end() || *it != key ) return nullptr;
    return &ch[size_t(it-s.begin())];
  }
  Val * Val::find( string const & key ) { return const_cast<Val*>( static_cast<Val const *>(this)->find(key) ); }
  Val & Val::put( string const & key ) {
    auto it = std::lower_bound( s.begin(), s.end(), key );
    size_t pos = size_t(it-s.begin());
    if ( it == s.end() || *it != key ) { s.insert( it, key ); ch.insert( ch.begin()+long(pos), Val() ); }
    return ch[pos];
  }
  void Val::del( string const & key ) {
    auto it = std::lower_bound( s.begin(), s.end(), key );
    if ( it == s.end() || *it != key ) return;
    ch.erase( ch.begin()+(it-s.begin()) ); s.erase( it );
  }

  Val vnone() { return Val(); }
  Val vptr( uint64_t p ) { Val v; v.k = POINTER; v.w = {p}; return v; }
  Val vbool( bool b ) { Val v; v.k = BOOL; v.w = {b?1u:0u}; return v; }
  Val vint( int32_t i ) { Val v; v.k = INT; v.w = {uint64_t(int64_t(i))}; return v; }
  Val vlong( int64_t l ) { Val v; v.k = LONG; v.w = {uint64_t(l)}; return v; }
  Val vreal( double r ) { Val v; v.k = REAL; v.w = {dbits(r)}; return v; }
  Val vcplx( double re, double im ) { Val v; v.k = COMPLEX; v.w = {dbits(re),dbits(im)}; return v; }
  Val vstr( string const & s ) { Val v; v.k = STRING; v.s = {s}; return v; }
  int elem_kind( int k ) {
    if ( is_vec(k) ) return k-VPOINTER+POINTER;
    switch ( k ) { case MINT: return INT; case MLONG: return LONG; case MREAL: return REAL; case MCOMPLEX: return COMPLEX; }
    return k;
  }
  Val vvec( int k, vector<Val> const & e ) {
    Val v; v.k = k;
    for ( auto const & x : e ) { v.w.insert(v.w.end(),x.w.begin(),x.w.end()); v.s.insert(v.s.end(),x.s.begin(),x.s.end()); }
    return v;
  }
  Val vmat( int k, unsigned nr, unsigned nc, vector<Val> const & e ) { Val v = vvec(k,e); v.nr = nr; v.nc = nc; return v; }
  Val vgen( vector<Val> const & ch ) { Val v; v.k = VECTOR; v.ch = ch; return v; }
  Val vmap( vector<std::pair<string,Val>> const & kv ) { Val v; v.k = MAP; for ( auto const & p : kv ) v.put(p.first) = p.second; return v; }
  Val elem( Val const & v, size_t i ) {
    if ( v.k == VECTOR || v.k == MAP ) return v.ch[i];
    Val e; e.k = elem_kind(v.k);
    if ( e.k == STRING ) e.s = {v.s[i]};
    else if ( e.k == COMPLEX ) e.w = {v.w[2*i],v.w[2*i+1]};
    else e.w = {v.w[i]};
    return e;
  }
  double as_real( Val const & v ) {
    switch ( v.k ) {
    case BOOL: return double(v.w[0]);
    case INT: case LONG: return double(int64_t(v.w[0]));
    case REAL: case COMPLEX: return bitsd(v.w[0]);
    }
    return 0;
  }
  cplx as_cplx( Val const & v ) { return v.k == COMPLEX ? cplx(bitsd(v.w[0]),bitsd(v.w[1])) : cplx(as_real(v),0); }

  string show_bytes( string const & s ) {
    if ( s.size() > 60 ) return "<" + std::to_string(s.size()) + " bytes h=" + std::to_string(hashs(s)%100000) + ">";
    string o = "\""; char b[8];
    for ( unsigned char c : s ) { if ( c >= 32 && c < 127 && c != '"' && c != '\\' ) o += char(c); else { snprintf(b,8,"\\x%02x",c); o += b; } }
    return o + "\"";
  }
  static string num( double d ) { char b[40]; snprintf(b,40,"%.17g",d); return b; }
  string show( Val const & v ) {
    std::ostringstream o; o << KN[v.k];
    size_t n = v.size(), lim = 12;
    if ( v.k == NOTYPE ) return o.str();
    if ( v.k == MAP ) { o << '{'; for ( size_t i=0; i<n && i<lim; ++i ) o << (i?",":"") << show_bytes(v.s[i]) << ':' << show(v.ch[i]); if (n>lim) o << ",..(" << n << ")"; o << '}'; return o.str(); }
    if ( v.k == VECTOR ) { o << '['; for ( size_t i=0; i<n && i<lim; ++i ) o << (i?",":"") << show(v.ch[i]); if (n>lim) o << ",..(" << n << ")"; o << ']'; return o.str(); }
    if ( is_mat(v.k) ) o << v.nr << 'x' << v.nc;
    o << '(';
    for ( size_t i=0; i<n && i<lim; ++i ) {
      if ( i ) o << ',';
      Val e = elem(v,i);
      switch ( e.k ) {
      case STRING: o << show_bytes(e.s[0]); break;
      case POINTER: o << "0x" << std::hex << e.w[0] << std::dec; break;
      case REAL: o << num(bitsd(e.w[0])); break;
      case COMPLEX: o << num(bitsd(e.w[0])) << '+' << num(bitsd(e.w[1])) << 'i'; break;
      default: o << int64_t(e.w[0]);
      }
    }
    if ( n > lim ) o << ",..(" << n << ")";
    o << ')';
    return o.str();
  }
  static inline void mix( uint64_t & h, uint64_t x ) { h ^= x + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; }
  uint64_t hashs( string const & s ) { uint64_t h = s.size(); for ( unsigned char c : s ) mix(h,c); return h; }
  uint64_t hashv( Val const & v ) {
    uint64_t h = uint64_t(v.k)*1000003; mix(h,v.nr); mix(h,v.nc); mix(h,v.w.size());
    for ( auto x : v.w ) mix(h,x);
    for ( auto & x : v.s ) mix(h,hashs(x));
    for ( auto & x : v.ch ) mix(h,hashv(x));
    return h;
  }

  // ------------------------------------------------------------------ build / readback
  void build( GCN & gc, Val const & v ) {
    size_t n = v.size();
    switch ( v.k ) {
    case NOTYPE: gc.clear(); break;
    case POINTER: gc.set_pointer( reinterpret_cast<void*>(v.w[0]) ); break;
    case BOOL: gc.set_bool( v.w[0] != 0 ); break;
    case INT: gc.set_int( int32_t(int64_t(v.w[0])) ); break;
    case LONG: gc.set_long( int64_t(v.w[0]) ); break;
    case REAL: gc.set_real( bitsd(v.w[0]) ); break;
    case COMPLEX: gc.set_complex( bitsd(v.w[0]), bitsd(v.w[1]) ); break;
    case STRING: gc.set_string( v.s[0] ); break;
    case VPOINTER: { vec_pointer_type t; for ( auto x : v.w ) t.push_back(reinterpret_cast<void*>(x)); gc.set_vec_pointer(t); break; }
    case VBOOL: { vec_bool_type t; for ( auto x : v.w ) t.push_back(x!=0); gc.set_vec_bool(t); break; }
    case VINT: { vec_int_type t; for ( auto x : v.w ) t.push_back(int32_t(int64_t(x))); gc.set_vec_int(t); break; }
    case VLONG: { vec_long_type t; for ( auto x : v.w ) t.push_back(int64_t(x)); gc.set_vec_long(t); break; }
    case VREAL: { vec_real_type t; for ( auto x : v.w ) t.push_back(bitsd(x)); gc.set_vec_real(t); break; }
    case VCOMPLEX: { vec_complex_type t; for ( size_t i=0; i<n; ++i ) t.emplace_back(bitsd(v.w[2*i]),bitsd(v.w[2*i+1])); gc.set_vec_complex(t); break; }
    case VSTRING: gc.set_vec_string( v.s ); break;
    case MINT: { mat_int_type m(v.nr,v.nc); for ( size_t i=0; i<n; ++i ) m[i] = int32_t(int64_t(v.w[i])); gc.set_mat_int(m); break; }
    case MLONG: { mat_long_type m(v.nr,v.nc); for ( size_t i=0; i<n; ++i ) m[i] = int64_t(v.w[i]); gc.set_mat_long(m); break; }
    case MREAL: { mat_real_type m(v.nr,v.nc); for ( size_t i=0; i<n; ++i ) m[i] = bitsd(v.w[i]); gc.set_mat_real(m); break; }
    case MCOMPLEX: { mat_complex_type m(v.nr,v.nc); for ( size_t i=0; i<n; ++i ) m[i] = cplx(bitsd(v.w[2*i]),bitsd(v.w[2*i+1])); gc.set_mat_complex(m); break; }
    case VECTOR: { vector_type & t = gc.set_vector( unsigned(n) ); for ( size_t i=0; i<n; ++i ) build( t.at(i), v.ch[i] ); break; }
    case MAP: { map_type & m = gc.set_map(); for ( size_t i=0; i<n; ++i ) build( m[v.s[i]], v.ch[i] ); break; }
    }
  }

  template <class M> static void mat_dims( Val & v, M const & m ) {
    v.nr = m.num_rows(); v.nc = m.num_cols();
  }
  Val readback( GCN const & gc ) {
    Val v; v.k = from_gct( gc.get_type() );
    switch ( v.k ) {
    case NOTYPE: break;
    case POINTER: v.w = { reinterpret_cast<uint64_t>( gc.get_pvoid() ) }; break;
    case BOOL: v.w = { gc.get_bool() ? 1u : 0u }; break;
    case INT: v.w = { uint64_t(int64_t(gc.get_int())) }; break;
    case LONG: v.w = { uint64_t(gc.get_long()) }; break;
    case REAL: v.w = { dbits(gc.get_real()) }; break;
    case COMPLEX: { cplx c = gc.get_complex(); v.w = { dbits(c.real()), dbits(c.imag()) }; break; }
    case STRING: v.s = { string(gc.get_string()) }; break;
    case VPOINTER: for ( auto x : gc.get_vec_pointer() ) v.w.push_back( reinterpret_cast<uint64_t>(x) ); break;
    case VBOOL: for ( bool x : gc.get_vec_bool() ) v.w.push_back( x?1:0 ); break;
    case VINT: for ( auto x : gc.get_vec_int() ) v.w.push_back( uint64_t(int64_t(x)) ); break;
    case VLONG: for ( auto x : gc.get_vec_long() ) v.w.push_back( uint64_t(x) ); break;
    case VREAL: for ( auto x : gc.get_vec_real() ) v.w.push_back( dbits(x) ); break;
    case VCOMPLEX: for ( auto & x : gc.get_vec_complex() ) { v.w.push_back( dbits(x.real()) ); v.w.push_back( dbits(x.imag()) ); } break;
    case VSTRING: v.s = gc.get_vec_string(); break;
    case MINT: { auto & m = gc.get_mat_int(); mat_dims(v,m); for ( auto x : static_cast<vec_int_type const &>(m) ) v.w.push_back( uint64_t(int64_t(x)) ); break; }
    case MLONG: { auto & m = gc.get_mat_long(); mat_dims(v,m); for ( auto x : static_cast<vec_long_type const &>(m) ) v.w.push_back( uint64_t(x) ); break; }
    case MREAL: { auto & m = gc.get_mat_real(); mat_dims(v,m); for ( auto x : static_cast<vec_real_type const &>(m) ) v.w.push_back( dbits(x) ); break; }
    case MCOMPLEX: { auto & m = gc.get_mat_complex(); mat_dims(v,m); for ( auto & x : static_cast<vec_complex_type const &>(m) ) { v.w.push_back( dbits(x.real()) ); v.w.push_back( dbits(x.imag()) ); } break; }
    case VECTOR: for ( auto & x : gc.get_vector() ) v.ch.push_back( readback(x) ); break;
    case MAP: for ( auto & p : gc.get_map() ) { v.s.push_back(p.first); v.ch.push_back( readback(p.second) ); } break;
    }
    return v;
  }

  void fail( string const & msg ) { throw Fail{msg}; }

  // ------------------------------------------------------------------ universes
  vector<int64_t> int_edges() {
    vector<int64_t> r; std::set<int64_t> seen;
    auto add = [&]( __int128 x ) { if ( x < std::numeric_limits<int64_t>::min() || x > std::numeric_limits<int64_t>::max() ) return; if ( seen.insert(int64_t(x)).second ) r.push_back(int64_t(x)); };
    for ( int x : {0,1,-1,2,-2,3,7,10,-10,100,1000,12345,-98765} ) add(x);
    for ( int b=1; b<=63; ++b ) for ( int d=-1; d<=1; ++d ) { add( (__int128(1)<<b)+d ); add( -(__int128(1)<<b)+d ); }
    __int128 p = 1; for ( int i=0; i<19; ++i ) { add(p); add(-p); add(p-1); p *= 10; }
    return r;
  }
  vector<double> real_edges() {
    vector<double> r{ 0.0, -0.0, 1, -1, 0.5, -0.5, 1.5, 0.1, 1.0/3.0, -2.75, 1e-9, 1e-17, 3.141592653589793, 1e15, 1e16, 1e17, 123456789.123456789,
      1e22, 1e23, 1e100, -1e100, 1e300, 5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(),
      std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(),
      1+std::numeric_limits<double>::epsilon(), 1-std::numeric_limits<double>::epsilon()/2, 1e-308 };
    for ( int b : {15,16,31,32,52,53,54,62,63,64} ) {
      double x = std::ldexp(1.0,b);
      for ( double y : { x, std::nextafter(x,0.0), std::nextafter(x,1e300), x-1, x+1, x-0.5, x+0.5 } ) { r.push_back(y); r.push_back(-y); }
    }
    return r;
  }
  vector<string> string_edges() {
    vector<string> r{ "", "a", "abc", "hello world", string(1,'\0'), string("a\0b",3), string("\0\0",2), "tab\tnl\ncr\r", "\"quoted\"", "back\\slash", "\\", "\"",
      "'single'", "a: b", "- x", "# c", "{}", "[]", "\xc3\xa9\xe2\x82\xac", "\xf0\x9f\x98\x80", "true", "false", "null", "~", "1", "1.5", "1e5", "0x10", "nan", " lead", "trail ", "\x01\x1f\x7f", "\xff\xfe" };
    for ( int n : {15,16,17,31,32,63,64,127,128,255,256,257,511,512,513} ) { string s; for ( int i=0; i<n; ++i ) s += char('a'+(i*7)%26); r.push_back(s); }
    return r;
  }
  vector<Val> scalars_of( int k, bool edge ) {
    vector<Val> r;
    switch ( k ) {
    case POINTER: r = { vptr(0), vptr(0x1000), vptr(0x7fffdeadbeefull) }; if ( edge ) { r.push_back(vptr(1)); r.push_back(vptr(~0ull)); r.push_back(vptr(1ull<<63)); } break;
    case BOOL: r = { vbool(false), vbool(true) }; break;
    case INT: if ( edge ) { for ( auto x : int_edges() ) if ( x >= INT32_MIN && x <= INT32_MAX ) r.push_back(vint(int32_t(x))); } else r = { vint(0), vint(-7), vint(INT32_MAX), vint(INT32_MIN) }; break;
    case LONG: if ( edge ) { for ( auto x : int_edges() ) r.push_back(vlong(x)); } else r = { vlong(0), vlong(-7), vlong(1ll<<33), vlong(INT64_MAX), vlong(INT64_MIN) }; break;
    case REAL: if ( edge ) { for ( auto x : real_edges() ) r.push_back(vreal(x)); } else r = { vreal(0), vreal(-0.0), vreal(1.5), vreal(3), vreal(std::nan("")) }; break;
    case COMPLEX: if ( edge ) { auto e = real_edges(); for ( size_t i=0; i<e.size(); ++i ) { r.push_back(vcplx(e[i],0)); r.push_back(vcplx(e[i],e[(i*7+3)%e.size()])); r.push_back(vcplx(0,e[i])); } } else r = { vcplx(0,0), vcplx(1.5,-2), vcplx(4,0), vcplx(-0.0,std::nan("")) }; break;
    case STRING: if ( edge ) { for ( auto & x : string_edges() ) r.push_back(vstr(x)); } else r = { vstr(""), vstr("ab"), vstr(string("a\0b",3)), vstr("a string longer than the small buffer") }; break;
    }
    return r;
  }
  vector<Val> scalars_small() { vector<Val> r; for ( int k=POINTER; k<=STRING; ++k ) for ( auto & v : scalars_of(k,false) ) r.push_back(v); return r; }
  vector<Val> scalars_edge()  { vector<Val> r; for ( int k=POINTER; k<=STRING; ++k ) for ( auto & v : scalars_of(k,true) ) r.push_back(v); return r; }

  Val distinct_elem( int k, unsigned i ) {
    switch ( k ) {
    case POINTER: return vptr( 0x1000ull + 16ull*i );
    case BOOL: return vbool( ((i*2654435761u)>>16)&1 );
    case INT: return vint( int32_t( (i&1) ? -int32_t(i*100003u%2000000000u) : int32_t(i*100003u%2000000000u) ) + 1 );
    case LONG: return vlong( (int64_t(i)+1)*4294967311ll*((i&1)?-1:1) );
    case REAL: return vreal( (i+1)*0.37*((i&1)?-1:1) );
    case COMPLEX: return vcplx( i+0.25, -(i*1.5)-1 );
    case STRING: { string s = "s" + std::to_string(i); s += string( i%23, char('a'+i%26) ); return vstr(s); }
    }
    return Val();
  }
  Val distinct_vec( int k, unsigned n ) { vector<Val> e; int ek = elem_kind(k); for ( unsigned i=0; i<n; ++i ) e.push_back(distinct_elem(ek,i)); return vvec(k,e); }
  Val distinct_mat( int k, unsigned nr, unsigned nc ) { vector<Val> e; int ek = elem_kind(k); for ( unsigned i=0; i<nr*nc; ++i ) e.push_back(distinct_elem(ek,i)); return vmat(k,nr,nc,e); }
  vector<Val> vectors_of_all_lengths( int maxlen ) {
    vector<Val> r;
    for ( int k=VPOINTER; k<=VSTRING; ++k ) for ( int n=0; n<=maxlen; ++n ) r.push_back( distinct_vec(k,unsigned(n)) );
    for ( int n=0; n<=maxlen; ++n ) { vector<Val> c; for ( int i=0; i<n; ++i ) c.push_back( distinct_elem( POINTER+1+i%7, unsigned(i) ) ); r.push_back( vgen(c) ); }
    for ( int n=0; n<=maxlen; ++n ) { Val m; m.k = MAP; for ( int i=0; i<n; ++i ) m.put( "k" + std::to_string(i*37%1009) ) = distinct_elem( POINTER+1+i%7, unsigned(i) ); r.push_back( m ); }
    return r;
  }
  vector<Val> values_one_per_shape() {
    vector<Val> r; r.push_back( vnone() );
    for ( int k=POINTER; k<=STRING; ++k ) { auto e = scalars_of(k,false); r.push_back(e[0]); r.push_back(e[1]); if ( k == STRING ) r.push_back(e[3]); }
    for ( int k=VPOINTER; k<=VSTRING; ++k ) for ( unsigned n : {0u,1u,3u} ) r.push_back( distinct_vec(k,n) );
    for ( int k=MINT; k<=MCOMPLEX; ++k ) { r.push_back(distinct_mat(k,0,0)); r.push_back(distinct_mat(k,1,1)); r.push_back(distinct_mat(k,2,3)); r.push_back(distinct_mat(k,3,2)); r.push_back(distinct_mat(k,0,2)); r.push_back(distinct_mat(k,2,0)); }
    r.push_back( vgen({}) ); r.push_back( vgen({vnone()}) ); r.push_back( vgen({vint(1),vstr("x"),vreal(2.5)}) );
    r.push_back( vgen({vgen({vint(1),vint(2)}),distinct_vec(VREAL,2)}) );
    r.push_back( vmap({}) ); r.push_back( vmap({{"a",vint(1)}}) ); r.push_back( vmap({{"a",vint(1)},{"b",vstr("x")},{"",vreal(.5)}}) );
    r.push_back( vmap({{"m",vmap({{"x",vgen({vbool(true),vmap({})})}})},{"v",distinct_vec(VSTRING,2)}}) );
    return r;
  }
  vector<Val> values_nested( int depth, vector<Val> const & leaves ) {
    // all VECTORs of length <= 2 and all MAPs with keys among {a,b} over the previous level
    vector<Val> cur = leaves;
    for ( int d=0; d<depth; ++d ) {
      vector<Val> nxt = leaves;
      nxt.push_back( vgen({}) ); nxt.push_back( vmap({}) );
      for ( auto & x : cur ) { nxt.push_back( vgen({x}) ); nxt.push_back( vmap({{"a",x}}) ); }
      for ( auto & x : cur ) for ( auto & y : cur ) { nxt.push_back( vgen({x,y}) ); nxt.push_back( vmap({{"a",x},{"b",y}}) ); }
      cur.swap( nxt );
    }
    return cur;
  }
  vector<Val> values_lookalike() {
    vector<Val> r{ vnone(), vptr(1), vptr(0), vbool(true), vbool(false), vint(1), vint(0), vlong(1), vlong(0), vreal(1), vreal(0), vcplx(1,0), vcplx(0,0), vcplx(0,1), vstr("1"), vstr("0"), vstr("") };
    for ( int k=VPOINTER; k<=VSTRING; ++k ) {
      Val one = k==VPOINTER ? vptr(1) : k==VBOOL ? vbool(true) : k==VINT ? vint(1) : k==VLONG ? vlong(1) : k==VREAL ? vreal(1) : k==VCOMPLEX ? vcplx(1,0) : vstr("1");
      r.push_back( vvec(k,{}) ); r.push_back( vvec(k,{one}) ); r.push_back( vvec(k,{one,one}) );
    }
    for ( int k=MINT; k<=MCOMPLEX; ++k ) {
      Val one = k==MINT ? vint(1) : k==MLONG ? vlong(1) : k==MREAL ? vreal(1) : vcplx(1,0);
      r.push_back( vmat(k,0,0,{}) ); r.push_back( vmat(k,0,1,{}) ); r.push_back( vmat(k,1,0,{}) ); r.push_back( vmat(k,1,1,{one}) ); r.push_back( vmat(k,1,2,{one,one}) ); r.push_back( vmat(k,2,1,{one,one}) );
    }
    r.push_back( vgen({}) ); r.push_back( vgen({vint(1)}) ); r.push_back( vgen({vlong(1)}) ); r.push_back( vgen({vgen({vint(1)})}) ); r.push_back( vgen({vnone()}) ); r.push_back( vgen({vgen({})}) );
    r.push_back( vmap({}) ); r.push_back( vmap({{"",vnone()}}) ); r.push_back( vmap({{"1",vint(1)}}) ); r.push_back( vmap({{"1",vmap({})}}) );
    return r;
  }
  vector<Val> contexts( Val const & v ) {
    return { v, vgen({v}), vgen({vint(3),v}), vgen({v,vstr("t")}), vmap({{"a",v}}), vmap({{"a",vint(3)},{"b",v}}), vmap({{"a",v},{"b",vstr("t")}}),
             vgen({vgen({v})}), vgen({vmap({{"k",v}})}), vmap({{"m",vmap({{"k",v}})}}), vmap({{"v",vgen({vnone(),v})}}) };
  }
  vector<Val> values_large( unsigned cap ) {
    vector<Val> r;
    for ( unsigned n : {200u,257u,1000u,1025u,4097u,65537u} ) {
      if ( n > cap ) break;
      for ( int k=VPOINTER; k<=VSTRING; ++k ) r.push_back( distinct_vec(k,n) );
      r.push_back( vvec(VBOOL,vector<Val>(n,vbool(true))) ); r.push_back( vvec(VBOOL,vector<Val>(n,vbool(false))) ); r.push_back( vvec(VINT,vector<Val>(n,vint(-1))) ); r.push_back( vvec(VREAL,vector<Val>(n,vreal(-0.5))) );
      for ( int k=MINT; k<=MCOMPLEX; ++k ) { r.push_back( distinct_mat(k,n,1) ); r.push_back( distinct_mat(k,1,n) ); unsigned a = 2; while ( a*a < n ) ++a; r.push_back( distinct_mat(k,a+1,a-1) ); r.push_back( distinct_mat(k,3,n/3) ); }
      string s; for ( unsigned i=0; i<n; ++i ) s += char(33+(i*31)%90); r.push_back( vstr(s) ); r.push_back( vvec(VSTRING,{vstr(s),vstr("end"),vstr(s+"x")}) ); r.push_back( vmap({{s,vint(1)},{s+"x",vstr("v")}}) );
      if ( n <= 5000 ) {
        vector<Val> c, d, e; Val m; m.k = MAP;
        for ( unsigned i=0; i<n; ++i ) { c.push_back( distinct_elem( POINTER+1+int(i)%7, i ) ); d.push_back( distinct_elem( BOOL+int(i/7)%5, i ) ); e.push_back( i%2 ? vgen({vint(int(i)),vstr("e")}) : vmap({{"k",vreal(i+.5)}}) ); m.put( "k" + std::to_string(i*7919u%100003u) ) = distinct_elem( POINTER+1+int(i)%7, i ); }
        r.push_back( vgen(c) ); r.push_back( vgen(d) ); r.push_back( vgen(e) ); r.push_back( m );
        for ( int k=BOOL; k<=STRING; ++k ) { vector<Val> u; for ( unsigned i=0; i<n; ++i ) u.push_back( distinct_elem( k, i ) ); r.push_back( vgen(u) ); if ( n < 1100 ) { u[n-1] = vnone(); r.push_back( vgen(u) ); } }
        vector<Val> h( n, vint(1) ); r.push_back( vgen(h) ); h[n-1] = vreal(.5); r.push_back( vgen(h) ); h[n/2] = vstr("s"); r.push_back( vgen(h) );
      }
      if ( n <= 260 ) { Val t = vint(int(n)), u = vint(int(n)), w = vint(int(n)); for ( unsigned i=0; i<n; ++i ) { t = (i&1) ? vgen({vstr("e"),t}) : vmap({{"k",t}}); u = vgen({u}); w = vmap({{"k",w}}); } r.push_back(t); r.push_back(u); r.push_back(w); }
    }
    return r;
  }
  vector<Val> values_medium() {
    vector<Val> r = values_one_per_shape();
    for ( auto & v : values_nested( 1, { vnone(), vbool(true), vint(5), vreal(0.5), vstr("q"), distinct_vec(VINT,2), distinct_vec(VSTRING,1), distinct_mat(MREAL,2,1) } ) ) r.push_back(v);
    for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned a=0; a<=3; ++a ) for ( unsigned b=0; b<=3; ++b ) r.push_back( distinct_mat(k,a,b) );
    Val deep = vint(42); for ( int d=0; d<40; ++d ) deep = (d&1) ? vgen({deep,vint(d)}) : vmap({{"k",deep},{"z",vstr("d")}});
    r.push_back( deep );
    return r;
  }

  // ------------------------------------------------------------------ runner
  struct Shared {
    volatile int64_t cur;       // current case id
    volatile uint64_t beat;     // incremented at each case start
    volatile uint64_t done;     // cases executed
    volatile uint64_t trans;
    volatile uint64_t nfail;
    volatile int64_t total;     // number of enumerated cases (set at the end)
    volatile int finished;
    volatile uint64_t leaks;
  };
  struct Runner::Impl {
    Shared * sh{nullptr};
    int64_t next{0};
    FILE * ff{nullptr};
    std::unordered_set<uint64_t> states;
    vector<string> samples;
    string fam;
    bool skipcur{false};
    uint64_t nfailmax{20};
  };
  bool Runner::skip() {
    int64_t id = p->next;
    bool m = only >= 0 ? id == only : ( uint64_t(id) % nworkers == worker && id > resume );
    if ( !m ) ++p->next;
    mine = m;
    return !m;
  }
  void Runner::family( string const & f ) { p->fam = f; }
  void Runner::state( uint64_t h ) { p->states.insert(h); }
  void Runner::trans( uint64_t n ) { p->sh->trans = p->sh->trans + n; }
  void Runner::sample( string const & s ) { if ( p->samples.size() < 4 ) p->samples.push_back(s); }

  static size_t allocated() {
    #if defined(__SANITIZE_ADDRESS__)
    return __sanitizer_get_current_allocated_bytes();
    #else
    return 0;
    #endif
  }

  void Runner::run( std::function<string()> const & desc, std::function<void()> const & body ) {
    int64_t id = p->next++;
    mine = only >= 0 ? id == only : ( uint64_t(id) % nworkers == worker && id > resume );
    if ( !mine ) return;
    if ( describe ) { printf("%s :: %s\n",p->fam.c_str(),desc().c_str()); fflush(stdout); return; }
    p->sh->cur = id;
    p->sh->beat = p->sh->beat + 1;
    if ( p->sh->done < 1 || (p->samples.size() < 4 && p->sh->done % 4099 == 17) ) sample( p->fam + " :: " + desc() );
    string msg; bool bad = false;
    size_t a0 = leakcheck ? allocated() : 0;
    try { body(); }
    catch ( Fail & f ) { bad = true; msg = f.msg; }
    catch ( std::exception const & e ) { bad = true; msg = string("unexpected exception: ") + e.what(); }
    catch ( ... ) { bad = true; msg = "unexpected non-standard exception"; }
    if ( leakcheck && !bad ) {
      size_t a1 = allocated();
      if ( a1 > a0 ) {
        // first executions may initialise lazily allocated objects: the growth must persist
        bool again = true; size_t grow = 0;
        for ( int t=0; t<3 && again; ++t ) {
          size_t b0 = allocated();
          try { body(); } catch ( ... ) {}
          size_t b1 = allocated();
          again = b1 > b0; grow = b1 - b0;
        }
        if ( again ) { bad = true; msg = "memory not returned: " + std::to_string(grow) + " bytes per execution"; }
      }
    }
    p->sh->done = p->sh->done + 1;
    if ( bad ) {
      p->sh->nfail = p->sh->nfail + 1;
      if ( p->ff ) {
        for ( auto & c : msg ) if ( c == '\n' || c == '\t' || c == '\r' ) c = ' ';
        string d = desc(); for ( auto & c : d ) if ( c == '\n' || c == '\t' || c == '\r' ) c = ' ';
        if ( msg.size() > 2000 ) msg.resize(2000);
        if ( d.size() > 2000 ) d.resize(2000);
        fprintf(p->ff,"%lld\t%s :: %s\t%s\n",static_cast<long long>(id),p->fam.c_str(),d.c_str(),msg.c_str()); fflush(p->ff);
      }
      if ( p->sh->nfail >= p->nfailmax ) throw std::pair<int,int>(1,1); // enough
    }
  }

  static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return double(t.tv_sec)+1e-9*double(t.tv_nsec); }
  static string jesc( string const & s ) {
    string o; char b[8];
    for ( unsigned char c : s ) { if ( c == '"' || c == '\\' ) { o += '\\'; o += char(c); } else if ( c < 32 || c > 126 ) { snprintf(b,8,"\\u%04x",c); o += b; } else o += char(c); }
    return o;
  }

  static void worker_main( Runner & R, Shared * sh, string const & out, unsigned w, bool append ) {
    string e = out + "/err." + std::to_string(w);
    int fd = open(e.c_str(),O_CREAT|O_WRONLY|(append?O_APPEND:O_TRUNC),0644);
    if ( fd >= 0 ) { dup2(fd,2); dup2(fd,1); }
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 64u<<20; setrlimit(RLIMIT_FSIZE,&rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE,&rl);
    signal(SIGXFSZ,SIG_IGN);
    Runner::Impl impl; impl.sh = sh; R.p = &impl;
    impl.ff = fopen((out+"/fail."+std::to_string(w)).c_str(),append?"a":"w");
    try { enumerate( R ); sh->total = impl.next; } catch ( std::pair<int,int> & ) { sh->total = -1; }
    FILE * st = fopen((out+"/states."+std::to_string(w)).c_str(),append?"ab":"wb");
    for ( auto h : impl.states ) fwrite(&h,8,1,st);
    fclose(st);
    FILE * sf = fopen((out+"/samples."+std::to_string(w)).c_str(),append?"a":"w");
    for ( auto & s : impl.samples ) { string t = s; for ( auto & c : t ) if ( c == '\n' ) c = ' '; if ( t.size() > 300 ) t.resize(300); fprintf(sf,"%s\n",t.c_str()); }
    fclose(sf);
    fclose(impl.ff);
    sh->finished = 1;
    _exit(0);
  }
}

int main( int argc, char ** argv ) {
  using namespace H;
  string out = "."; unsigned nw = 8; bool thorough = false, desc = false; int64_t only = -1; double hang = 60;
  for ( int i=1; i<argc; ++i ) {
    string a = argv[i];
    if ( a == "--out" ) out = argv[++i];
    else if ( a == "--workers" ) nw = unsigned(atoi(argv[++i]));
    else if ( a == "--thorough" ) thorough = true;
    else if ( a == "--only" ) only = atoll(argv[++i]);
    else if ( a == "--describe" ) desc = true;
    else if ( a == "--hang" ) hang = atof(argv[++i]);
  }
  if ( only >= 0 && desc ) {
    Runner R; R.thorough = thorough; R.only = only; R.describe = true;
    Runner::Impl impl; Shared sh{}; impl.sh = &sh; R.p = &impl;
    enumerate( R );
    return 0;
  }
  if ( only >= 0 ) nw = 1;
  Shared * S = static_cast<Shared*>( mmap(nullptr,sizeof(Shared)*nw,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0) );
  memset(S,0,sizeof(Shared)*nw);
  vector<pid_t> pid(nw,0); vector<uint64_t> lastbeat(nw,0); vector<double> since(nw,now());
  vector<int> crashes(nw,0); vector<bool> alive(nw,false);
  struct Crash { unsigned w; int64_t id; string how; }; vector<Crash> C;
  auto start = [&]( unsigned w, int64_t resume ) {
    fflush(stdout);
    pid_t p = fork();
    if ( p == 0 ) {
      Runner R; R.thorough = thorough; R.worker = w; R.nworkers = nw; R.only = only; R.resume = resume;
      worker_main( R, &S[w], out, w, resume >= 0 );
    }
    pid[w] = p; alive[w] = true; since[w] = now(); lastbeat[w] = S[w].beat;
  };
  for ( unsigned w=0; w<nw; ++w ) start(w,-1);
  for ( unsigned left = nw; left > 0; ) {
    bool any = false;
    for ( unsigned w=0; w<nw; ++w ) {
      if ( !alive[w] ) continue;
      int st = 0; pid_t r = waitpid(pid[w],&st,WNOHANG);
      bool dead = r == pid[w]; string how;
      if ( !dead ) {
        if ( S[w].beat != lastbeat[w] ) { lastbeat[w] = S[w].beat; since[w] = now(); }
        else if ( now()-since[w] > hang ) { kill(pid[w],SIGKILL); waitpid(pid[w],&st,0); dead = true; how = "hang"; }
      }
      if ( !dead ) continue;
      any = true; alive[w] = false; --left;
      if ( how.empty() && S[w].finished ) continue;
      if ( how.empty() ) how = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
      C.push_back({w,S[w].cur,how});
      if ( ++crashes[w] < 4 && only < 0 && how != "hang" ) { start(w,S[w].cur); ++left; }
    }
    if ( !any ) usleep(5000);
  }
  uint64_t done = 0, trans = 0, nfail = 0; int64_t total = -1; bool complete = true;
  for ( unsigned w=0; w<nw; ++w ) { done += S[w].done; trans += S[w].trans; nfail += S[w].nfail; if ( S[w].total > total ) total = S[w].total; if ( !S[w].finished || S[w].total < 0 ) complete = false; }
  FILE * f = fopen((out+"/summary.json").c_str(),"w");
  fprintf(f,"{\"property\":\"%s\",\"rule\":\"%s\",\"done\":%llu,\"trans\":%llu,\"nfail\":%llu,\"total\":%lld,\"complete\":%s,\"crashes\":[",PROPERTY,jesc(RULE).c_str(),
    static_cast<unsigned long long>(done),static_cast<unsigned long long>(trans),static_cast<unsigned long long>(nfail),static_cast<long long>(total),complete?"true":"false");
  for ( size_t i=0; i<C.size(); ++i ) fprintf(f,"%s{\"worker\":%u,\"id\":%lld,\"how\":\"%s\"}",i?",":"",C[i].w,static_cast<long long>(C[i].id),C[i].how.c_str());
  fprintf(f,"]}\n"); fclose(f);
  return nfail || !C.empty() ? 1 : 0;
}
