#include "num.hh"
#include "GenericContainer/GenericContainerInterface_C.h"
#include <iomanip>
#include <iostream>
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P26";
  char const * const RULE = "dump, print, print_content_types, info, operator<< of vectors and matrices on every member of the value universe in every context, all keys over a heading alphabet up to a length, every boundary number, all lengths and shapes, large and deeply nested members, for several prefixes, indentations and precisions; the text is compared with a reference rendering";

  static string num( double d, int prec ) { char b[400]; snprintf( b, sizeof b, "%.*g", prec, d ); return b; }
  static string pad( string const & s, size_t w ) { return s.size() < w ? string(w-s.size(),' ') + s : s; }
  static string cpx( Val const & v, int cprec ) { double re = bitsd(v.w[0]), im = bitsd(v.w[1]); string s = num(re,cprec); if ( im > 0 ) s += "+" + num(im,cprec) + "i"; if ( im < 0 ) s += "-" + num(-im,cprec) + "i"; return s; }
  static string hex( uint64_t p ) { if ( !p ) return "0"; char b[40]; snprintf( b, sizeof b, "%#llx", static_cast<unsigned long long>(p) ); return b; }
  static string txt( Val const & v, int prec, int cprec ) { // a number
    switch ( v.k ) {
    case POINTER: return hex(v.w[0]);
    case BOOL: return v.w[0] ? "true" : "false";
    case INT: case LONG: return std::to_string(int64_t(v.w[0]));
    case REAL: return num(bitsd(v.w[0]),prec);
    case COMPLEX: return cpx(v,cprec);
    }
    return "";
  }
  static string vtext( Val const & v, int prec, int cprec ) { string o = "["; for ( size_t i=0; i<v.size(); ++i ) o += " " + txt(elem(v,i),prec,cprec); return o + " ]"; }
  static string mtext( Val const & v, int prec, int cprec ) {
    string o; if ( !v.nr || !v.nc ) return std::to_string(v.nr) + " by " + std::to_string(v.nc) + " matrix\n";
    for ( unsigned i=0; i<v.nr; ++i ) { for ( unsigned j=0; j<v.nc; ++j ) { if ( j ) o += " "; Val e = elem(v,i+size_t(j)*v.nr);
        if ( v.k != MCOMPLEX ) o += pad( txt(e,prec,cprec), 8 );
        else o += j ? pad( cpx(e,cprec), 12 ) : pad( "(" + num(bitsd(e.w[0]),prec) + "," + num(bitsd(e.w[1]),prec) + ")", 8 ); } o += "\n"; }
    return o;
  }
  // keys of the form  <number> # or ## [-=~_] text  are headings
  struct Head { bool is{false}, dbl{false}; char ul{0}; string text; };
  static Head heading( string const & k ) {
    Head h; h.text = k; size_t i = 0, n = k.size(); auto sp = [&]{ while ( i < n && ( k[i] == ' ' || ( k[i] >= 9 && k[i] <= 13 ) ) ) ++i; };
    sp(); size_t d = i; while ( i < n && k[i] >= '0' && k[i] <= '9' ) ++i; if ( i == d ) return h;
    sp(); if ( i >= n || k[i] != '#' ) return h; ++i; bool two = i < n && k[i] == '#'; if ( two ) ++i;
    char u = 0; if ( i < n && ( k[i] == '-' || k[i] == '=' || k[i] == '~' || k[i] == '_' ) ) u = k[i++];
    sp(); string t = k.substr(i); if ( t.find('\n') != string::npos || t.find('\r') != string::npos ) return h;
    h.is = true; h.dbl = two; h.ul = u; h.text = t; return h;
  }
  static bool simple( Val const & v ) { return v.k == NOTYPE || is_scalar(v.k); }
  static bool numvec( Val const & v ) { return simple(v) || ( is_vec(v.k) && v.k != VSTRING ); }
  // common layout of dump and print_content_types
  static void entries( Val const & v, string const & pre, string const & ind, bool types, std::function<void(Val const &,string const &)> const & rec, string & o ) {
    for ( size_t i=0; i<v.ch.size(); ++i ) {
      Val const & c = v.ch[i];
      if ( v.k == VECTOR ) {
        if ( simple(c) || ( numvec(c) && ( types || c.size() <= 10 ) ) ) { o += pre + std::to_string(i) + ": "; rec(c,""); }
        else { o += pre + std::to_string(i) + ":\n"; rec(c,pre+ind); }
      } else {
        Head h = heading(v.s[i]);
        if ( simple(c) || ( types && numvec(c) ) ) { o += pre + h.text + ": "; rec(c,""); }
        else { if ( h.is && h.dbl ) o += "\n"; o += pre + h.text; if ( h.is && h.ul ) o += "\n" + pre + string(h.text.size(),h.ul); else o += ":"; o += "\n"; rec(c,pre+ind); }
      }
    }
  }
  static void dumped( Val const & v, string const & pre, string const & ind, int prec, int cprec, string & o ) {
    switch ( v.k ) {
    case NOTYPE: o += pre + "null\n"; return;
    case POINTER: case BOOL: case INT: case LONG: case REAL: case COMPLEX: o += pre + txt(v,prec,cprec) + "\n"; return;
    case STRING: o += pre + "\"" + v.s[0] + "\"\n"; return;
    case VPOINTER: for ( size_t i=0; i<v.size(); ++i ) o += pre + "vec_pointer(" + std::to_string(i) + "): " + hex(v.w[i]) + "\n"; return;
    case VSTRING: for ( size_t i=0; i<v.size(); ++i ) o += pre + std::to_string(i) + ": \"" + v.s[i] + "\"\n"; return;
    case VBOOL: case VINT: case VLONG: case VREAL: case VCOMPLEX: o += pre + vtext(v,prec,cprec) + "\n"; return;
    case MINT: case MLONG: case MREAL: case MCOMPLEX: o += mtext(v,prec,cprec); return;
    }
    entries( v, pre, ind, false, [&]( Val const & c, string const & p ){ dumped(c,p,ind,prec,cprec,o); }, o );
  }
  static void typed( Val const & v, string const & pre, string const & ind, string & o ) {
    static char const * const N[] = { "Empty!", "(*void)", "bool", "int", "long int", "double", "complex", "string", "vector of pointer", "vector of bool", "vector of int", "vector of long", "vector of double", "vector of complex", "vector of string", "matrix of int", "matrix of long", "matrix of double", "matrix of complex" };
    if ( simple(v) ) { o += pre + N[v.k] + "\n"; return; }
    if ( is_vec(v.k) ) { o += string(N[v.k]) + "[" + std::to_string(v.size()) + "]\n"; return; }
    if ( is_mat(v.k) ) { o += string(N[v.k]) + "[" + std::to_string(v.nr) + "," + std::to_string(v.nc) + "]\n"; return; }
    entries( v, pre, ind, true, [&]( Val const & c, string const & p ){ typed(c,p,ind,o); }, o );
  }
  static bool nan_im( Val const & v ) { if ( v.k == COMPLEX || v.k == VCOMPLEX || v.k == MCOMPLEX ) for ( size_t i=1; i<v.w.size(); i+=2 ) if ( std::isnan(bitsd(v.w[i])) ) return true; for ( auto & c : v.ch ) if ( nan_im(c) ) return true; return false; }

  static void eq( string const & got, string const & exp, char const * w ) {
    if ( got == exp ) return; size_t i = 0; while ( i < got.size() && i < exp.size() && got[i] == exp[i] ) ++i; size_t a = i > 30 ? i-30 : 0;
    fail( string(w) + " differs at byte " + std::to_string(i) + ": wrote ..." + show_bytes(got.substr(a,80)) + " expected ..." + show_bytes(exp.substr(a,80)) );
  }
  static void check( Runner & R, Val const & v, string const & pre0, string const & ind0, int prec ) {
    string const bp = pre0 + "@", bi = ind0 + "&"; string_view const vp( bp.data(), pre0.size() ), vi( bi.data(), ind0.size() ); string const & pre = pre0, & ind = ind0;
    GCN g; build( g, v ); GCN const & c = g; string e, t, e12, def, deft; int cp = int(stream_number_precision);
    dumped( v, pre, ind, prec, cp, e ); typed( v, pre, ind, t ); dumped( v, pre, ind, cp, cp, e12 ); dumped( v, "", "    ", prec, cp, def ); typed( v, "", "    ", deft );
    { std::ostringstream o; o << std::setprecision(prec); c.dump( o, vp, vi ); eq( o.str(), e, "dump" ); }
    { std::ostringstream o; o << std::setprecision(prec); c.print( o, vp, vi ); eq( o.str(), e, "print" ); }
    { std::ostringstream o; o << std::setprecision(prec); c.dump( o ); eq( o.str(), def, "dump with defaults" ); }
    eq( c.print( vp, vi ), e12, "print to a string" );
    { std::ostringstream o; c.print_content_types( o, vp, vi ); eq( o.str(), t, "print_content_types" ); }
    { std::ostringstream o; c.print_content_types( o ); eq( o.str(), deft, "print_content_types with defaults" ); }
    string i; 
    switch ( v.k ) {
    case NOTYPE: i = "GenericContainer: No data stored"; break;
    case POINTER: { std::ostringstream o; o << "Generic pointer: " << reinterpret_cast<void*>(v.w[0]); i = o.str(); break; }
    case BOOL: i = "Boolean: "; break; case INT: i = "Integer: "; break; case LONG: i = "Long: "; break; case REAL: i = "Floating Point: "; break; case COMPLEX: i = "Complex Floating Point: "; break;
    case STRING: i = "String: " + v.s[0]; break;
    case VPOINTER: i = "Vector of generic pointer of size "; break; case VBOOL: i = "Vector of boolean of size "; break; case VINT: i = "Vector of integer of size "; break; case VLONG: i = "Vector of long integer of size "; break;
    case VREAL: i = "Vector of floating point number of size "; break; case VCOMPLEX: i = "Vector of complex floating point number of size "; break; case VSTRING: i = "Vector of string of size "; break;
    case VECTOR: i = "Vector of generic data type of size "; break; case MAP: i = "Map"; break;
    default: break;
    }
    if ( v.k >= BOOL && v.k <= COMPLEX ) i += txt(v,prec,cp); if ( is_vec(v.k) || v.k == VECTOR ) i += std::to_string(v.size()); i += "\n";
    string msize = std::to_string(v.nr) + " x " + std::to_string(v.nc) + "\n";
    auto matinfo = [&]( string const & s ) { return s.size() > msize.size() && s.compare( s.size()-msize.size(), msize.size(), msize ) == 0; };
    { std::ostringstream o; o << std::setprecision(prec); REQ( &c.info( o ) == &c, "info must return the container" ); if ( is_mat(v.k) ) { REQ( matinfo(o.str()), "info wrote " << o.str() ); eq( c.info(), o.str(), "info to a string" ); } else if ( v.k != STRING || v.s[0].find('\0') == string::npos ) eq( o.str(), i, "info" ); }
    #define MSTR(GET) { std::ostringstream o, p; o << std::setprecision(prec) << c.GET(); eq( o.str(), mtext(v,prec,cp), "operator<< of a matrix" ); c.GET().info(p); REQ( matinfo(p.str()), "info wrote " << p.str() ); eq( c.GET().info(), p.str(), "matrix info to a string" ); }
    #define VSTR(GET) { std::ostringstream o; o << std::setprecision(prec) << c.GET(); eq( o.str(), vtext(v,prec,cp), "operator<< of a vector" ); }
    switch ( v.k ) { case MINT: MSTR(get_mat_int) break; case MLONG: MSTR(get_mat_long) break; case MREAL: MSTR(get_mat_real) break; case MCOMPLEX: MSTR(get_mat_complex) break;
      case VBOOL: VSTR(get_vec_bool) break; case VINT: VSTR(get_vec_int) break; case VLONG: VSTR(get_vec_long) break; case VREAL: VSTR(get_vec_real) break; case VCOMPLEX: VSTR(get_vec_complex) break; default: break; }
    static char const * const TN[] = { "NOTYPE", "pointer", "bool_type", "int_type", "long_type", "real_type", "complex_type", "string_type", "vec_pointer_type", "vec_bool_type", "vec_int_type", "vec_long_type", "vec_real_type", "vec_complex_type", "vec_string_type", "mat_int_type", "mat_long_type", "mat_real_type", "mat_complex_type", "vector_type", "map_type" };
    eq( string(c.get_type_name()), TN[v.k], "get_type_name" ); eq( string(to_string(c.get_type())), TN[v.k], "to_string(GC_type)" );
    REQ_EQ( g, v, "printing changed the container" ); R.trans(8); R.state(v);
  }
  static unsigned cnt = 0;
  static void one( Runner & R, Val const & v ) {
    if ( nan_im(v) ) return;
    static char const * const P[] = { "", "> ", "        ", "p" }; static char const * const I[] = { "    ", "", "--", "\t", "  " }; static int const Q[] = { 6, 17, 3, 12, 1 };
    unsigned c = cnt++; if ( R.skip() ) return;
    R.run( [&]{ return "text of " + show(v) + " variant " + std::to_string(c); }, [&]{ check( R, v, P[c%4], I[c%5], Q[c%5] ); } );
  }
  void enumerate( Runner & R ) {
    cnt = 0; stream_number_precision = 12;
    vector<Val> U = values_medium(); for ( auto & v : values_lookalike() ) U.push_back(v); for ( auto & v : scalars_edge() ) U.push_back(v); for ( auto & v : values_one_per_shape() ) U.push_back(v);
    R.family("values in contexts");
    for ( auto & v : U ) for ( auto & c : contexts(v) ) for ( int rep=0; rep<3; ++rep ) one( R, c );
    R.family("every prefix, indentation and precision");
    for ( auto & v : values_one_per_shape() ) for ( auto & c : contexts(v) ) for ( string p : { "", "  ", "# ", "\t" } ) for ( string i : { "", " ", "    ", "..", "\t" } ) for ( int q : { 1, 6, 12, 17, 20 } ) {
      if ( nan_im(c) || R.skip() ) continue; R.run( [&]{ return "text of " + show(c) + " prefix '" + p + "' indent '" + i + "' precision " + std::to_string(q); }, [&]{ check( R, c, p, i, q ); } ); }
    R.family("precision of complex numbers");
    for ( unsigned sp : { 1u, 3u, 6u, 15u, 17u } ) for ( double a : real_edges() ) for ( double b : real_edges() ) { if ( std::isnan(b) || R.skip() ) continue;
      R.run( [&]{ std::ostringstream s; s << "complex " << a << "," << b << " precision " << sp; return s.str(); }, [&]{ unsigned old = stream_number_precision; stream_number_precision = sp; try { check( R, vgen({vcplx(a,b),vvec(VCOMPLEX,{vcplx(b,1),vcplx(a,b)}),vreal(a),vmat(MCOMPLEX,1,2,{vcplx(1,2),vcplx(a,b)})}), "", "  ", 5 ); } catch ( ... ) { stream_number_precision = old; throw; } stream_number_precision = old; } ); }
    R.family("keys");
    { string A = string(" 1#-=~_a\n") + '\0'; vector<string> S{""}; vector<Val> C{ vint(5), distinct_vec(VINT,2), vmap({{"x",vint(1)},{"2##- y",vgen({vint(1),distinct_vec(VSTRING,1)})}}), vgen({}) };
      for ( int n=0; n<=(R.thorough?6:5); ++n ) { for ( auto & s : S ) { if ( n < 5 ) for ( auto & c : C ) one( R, vmap({{s,c}}) ); else one( R, vmap({{s,C[2]},{"z",vint(1)}}) ); if ( n < 4 ) one( R, vgen({vmap({{s,C[0]},{s+"#",C[1]},{"1#"+s,C[2]},{"12 ##-"+s,C[3]}})}) ); } vector<string> N; for ( auto & s : S ) for ( char a : A ) N.push_back(s+a); S.swap(N); } }
    for ( int c=0; c<256; ++c ) for ( string b : { "1#", "3##", "1#-", " 9 ##=" } ) { one( R, vmap({{b+char(c),distinct_vec(VINT,2)}}) ); one( R, vmap({{b+"a"+char(c)+"b",vmap({{"k",vint(1)}})}}) ); one( R, vmap({{string(1,char(c))+b+"h",vgen({vint(1)})}}) ); }
    for ( unsigned n : {100u,1000u,10000u,100000u,1000000u} ) for ( string k : { string(n,'k'), "1# "+string(n,'h'), "1##-"+string(n,'h'), string(n,' ')+"1#h", string(n,'7')+"#h", "1"+string(n,' ')+"#h", "1#"+string(n,' ')+"h", "1#"+string(n,'#'), string(n,'#'), string(n,'1') } ) { one( R, vmap({{k,vint(1)}}) ); one( R, vmap({{k,vgen({vint(1),vstr("s")})}}) ); }
    R.family("numbers");
    for ( double d : dense_reals(R.thorough) ) { one( R, vreal(d) ); one( R, vgen({vvec(VREAL,{vreal(d),vreal(1)}),vmat(MREAL,1,2,{vreal(1.5),vreal(d)})}) ); if ( !std::isnan(d) ) one( R, vvec(VCOMPLEX,{vcplx(1,d),vcplx(d,-1),vcplx(d,0)}) ); }
    for ( int64_t l : dense_ints(R.thorough) ) { one( R, vgen({vlong(l),vvec(VLONG,{vlong(l),vlong(0)}),vmat(MLONG,1,2,{vlong(7),vlong(l)})}) ); one( R, vgen({vptr(uint64_t(l)),vvec(VPOINTER,{vptr(0),vptr(uint64_t(l))})}) ); if ( l == int32_t(l) ) one( R, vgen({vint(int32_t(l)),vvec(VINT,{vint(int32_t(l)),vint(0)}),vmat(MINT,1,2,{vint(7),vint(int32_t(l))})}) ); }
    R.family("strings");
    for ( int a=0; a<256; ++a ) { string s(1,char(a)); one( R, vstr(s) ); one( R, vgen({vstr("x"+s),vvec(VSTRING,{vstr(s),vstr(s+s)})}) ); one( R, vmap({{s,vstr(s)},{s+"k",vgen({vstr(s)})}}) ); }
    R.family("lengths and shapes");
    for ( auto & v : vectors_of_all_lengths( R.thorough?200:60 ) ) { one( R, v ); one( R, vgen({v,vmap({{"v",v}})}) ); }
    { unsigned D = R.thorough ? 12 : 8; for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned a=0; a<=D; ++a ) for ( unsigned b=0; b<=D; ++b ) { one( R, distinct_mat(k,a,b) ); one( R, vmap({{"m",distinct_mat(k,a,b)},{"n",vgen({distinct_mat(k,b,a),vint(1)})}}) ); } }
    R.family("nested");
    for ( auto & v : values_nested( 2, { vint(3), vstr("q"), vgen({}) } ) ) one( R, v );
    for ( auto & v : values_nested( 1, { vnone(), distinct_vec(VSTRING,2), distinct_vec(VREAL,11), distinct_mat(MREAL,2,1), vcplx(1,2), vptr(64), vmap({{"1##= h",vint(1)}}) } ) ) { one( R, v ); one( R, vgen({v}) ); one( R, vmap({{"2#_ z",v}}) ); }
    R.family("large members of every shape");
    for ( auto & v : values_large( R.thorough ? 70000 : 4100 ) ) one( R, v );
  }
}
