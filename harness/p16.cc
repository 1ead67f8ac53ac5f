#include "text.hh"
#include "GenericContainer/GenericContainerInterface_json.hh"
#include <iomanip>
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P16";
  char const * const RULE = "to_json of every value of the kind/shape/nesting universes, of every matrix shape, of every string over all 7-bit characters (length 1, and length 2 over the special ones) as value, key and vector element, and of dense numbers around all powers of two and ten, at several stream precisions and prefixes; the text is read by an independent strict JSON reader and must denote exactly the stored data, then from_json must give that data back (collapsed)";

  static double rounded( double d, int prec ) { char b[64]; snprintf( b, sizeof b, "%.*g", prec, d ); return strtod( b, nullptr ); }
  static bool cparse( string const & s, cplx & z ) {
    // re[+-]im i
    char const * p = s.c_str(); char * e; double re = strtod( p, &e ); if ( e == p ) return false;
    if ( !*e ) { z = cplx(re,0); return true; }
    if ( *e != '+' && *e != '-' ) return false;
    char * f; double im = strtod( e, &f ); if ( f == e || *f != 'i' || f[1] ) return false;
    z = cplx(re,im); return true;
  }
  // v is a plain view, t the tree read from the text
  static bool denotes( Val const & v, Val const & t, int prec ) {
    switch ( v.k ) {
    case REAL: { Val r = vreal( rounded( bitsd(v.w[0]), prec ) ); return t.k >= INT && t.k <= REAL && same_data( r, t ); }
    case COMPLEX: { cplx z; if ( t.k != STRING || !cparse(t.s[0],z) ) return false; cplx c = as_cplx(v); int p = int(stream_number_precision); return z.real() == rounded(c.real(),p) && z.imag() == rounded(c.imag(),p); }
    case VECTOR: case MAP:
      if ( t.k != v.k || t.s != v.s || t.ch.size() != v.ch.size() ) return false;
      for ( size_t i=0; i<v.ch.size(); ++i ) if ( !denotes(v.ch[i],t.ch[i],prec) ) return false;
      return true;
    case INT: case LONG: return ( t.k == INT || t.k == LONG ) && t.w == v.w;
    default: return t == v;
    }
  }
  static bool representable( Val const & v ) {
    return all_of( v, []( Val const & x ) {
      if ( x.k == POINTER || x.k == VPOINTER || !has_finite_numbers(x) ) return false;
      for ( auto & s : x.s ) if ( !utf8(s) ) return false;
      return true;
    } );
  }
  static void check( Runner & R, Val const & v, int prec, string const & prefix, int via ) {
    GCN g; build( g, v );
    string text;
    if ( via == 1 ) GC_to_JSON( g, text );
    else { std::ostringstream o; o << std::setprecision(prec); if ( via == 2 ) GC_to_JSON( g, o ); else { string const buf = prefix + "@@"; g.to_json( o, string_view(buf.data(),prefix.size()) ); } text = o.str(); } // the prefix is a part of a longer text
    REQ_EQ( g, v, "source changed" );
    JsonReader J(text); Val t;
    REQ( J.doc(t), "not valid JSON: " << show_bytes(text) << " at " << J.i );
    Val p = plain(v);
    REQ( denotes( p, t, via==1?6:prec ), "text denotes other data: " << show_bytes(text) );
    GCN h; if ( via == 0 ) h["junk"] = 1; else h.set_vec_int(3);
    std::istringstream in(text); bool ok;
    if ( via == 1 ) ok = JSON_to_GC( text, h ); else if ( via == 2 ) ok = JSON_to_GC( in, h ); else ok = h.from_json( in );
    REQ( ok, "from_json refused " << show_bytes(text) );
    Val rb = norm_empty(readback(h)), e = norm_empty(collapsed(t));
    REQ( rb == e, "round trip of " << show_bytes(text) << " | got " << show(rb) << " | expected " << show(e) );
    R.trans(2); R.state(v);
  }
  static void one( Runner & R, Val const & v, int prec=17, string const & prefix="", int via=0 ) {
    if ( R.skip() ) return;
    R.run( [&]{ return "to_json precision " + std::to_string(prec) + " prefix '" + show_bytes(prefix) + "' via " + std::to_string(via) + " of " + show(v); }, [&]{ check( R, v, prec, prefix, via ); } );
  }

  void enumerate( Runner & R ) {
    vector<Val> U = values_medium(); for ( auto & v : values_lookalike() ) U.push_back(v); for ( auto & v : scalars_small() ) U.push_back(v);
    R.family("values in contexts");
    for ( auto & v : U ) if ( representable(v) ) for ( auto & c : contexts(v) ) {
      one( R, c ); one( R, c, 6 ); one( R, c, 17, "    " ); one( R, c, 20, "\t" ); one( R, c, 6, "", 1 ); one( R, c, 17, "", 2 );
    }
    R.family("nested");
    { vector<Val> L{ vnone(), vint(5), vreal(0.5), vstr("q\"") , vvec(VINT,{}), vmap({}), vgen({}) };
      for ( auto & v : values_nested( R.thorough?2:1, L ) ) { one( R, v ); one( R, vmap({{"w",vgen({v,v})}}), 17, "  " ); }
      vector<Val> M{ vint(5), vstr("x"), vgen({}) }; for ( auto & v : values_nested( 2, M ) ) one( R, v ); }
    R.family("matrices");
    unsigned D = R.thorough ? 9 : 6;
    for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned a=0; a<=D; ++a ) for ( unsigned b=0; b<=D; ++b ) { Val m = distinct_mat(k,a,b); one( R, m ); one( R, m, 17, " " ); one( R, vmap({{"M",m},{"N",vint(1)}}) ); one( R, vgen({m,vint(1)}) ); one( R, vgen({m,m}) ); }
    R.family("vectors");
    for ( auto & v : vectors_of_all_lengths( R.thorough?120:40 ) ) if ( representable(v) ) { one( R, v ); one( R, vmap({{"v",v}}), 17, "    " ); }
    R.family("strings");
    vector<string> S; for ( int c=0; c<128; ++c ) S.push_back( string(1,char(c)) );
    { string sp; for ( int c=0; c<33; ++c ) sp += char(c); sp += "\"\\/':{}[],#u\x7f" "0Z";
      for ( char a : sp ) for ( char b : sp ) S.push_back( string(1,a)+string(1,b) );
      if ( R.thorough ) for ( char a : sp ) for ( char b : sp ) for ( char c : sp ) S.push_back( string(1,a)+string(1,b)+string(1,c) );
      else for ( char a : string("\\\"n\nu0\x01") ) for ( char b : string("\\\"n\nu0\x01") ) for ( char c : string("\\\"n\nu0\x01") ) for ( char d : string("\\\"n\nu0") ) S.push_back( string(1,a)+string(1,b)+string(1,c)+string(1,d) ); }
    for ( auto & s : string_edges() ) if ( utf8(s) ) S.push_back(s);
    for ( unsigned cp : { 0x7fu,0x80u,0x85u,0xa0u,0x7ffu,0x800u,0x2028u,0x2029u,0xd7ffu,0xe000u,0xfeffu,0xfffdu,0xffffu,0x10000u,0x1f600u,0x10ffffu } ) { string s; JsonReader::put8(s,cp); S.push_back(s); S.push_back("a"+s+"\n"); }
    for ( auto & s : S ) { one( R, vstr(s) ); one( R, vmap({{s,vint(1)},{s+"z",vstr(s)}}) ); one( R, vvec(VSTRING,{vstr(s),vstr(s+s)}) ); }
    R.family("numbers");
    for ( double d : dense_reals(R.thorough) ) if ( std::isfinite(d) ) { one( R, vreal(d) ); one( R, vvec(VREAL,{vreal(d),vreal(0.5)}), 18 ); one( R, vvec(VCOMPLEX,{vcplx(d,0),vcplx(0,d),vcplx(d,d),vcplx(1,d)}), 18 ); if ( R.thorough ) { one( R, vreal(d), 6 ); one( R, vmat(MREAL,1,2,{vreal(1.5),vreal(d)}), 25 ); } else one( R, vreal(d), 12 ); }
    for ( int64_t l : dense_ints(R.thorough) ) { one( R, vlong(l) ); one( R, vvec(VLONG,{vlong(l),vlong(-1)}), 6 ); if ( l >= INT32_MIN && l <= INT32_MAX ) { one( R, vint(int32_t(l)), 1 ); one( R, vmat(MINT,1,1,{vint(int32_t(l))}) ); } }
    for ( double a : real_edges() ) if ( std::isfinite(a) ) for ( double b : real_edges() ) if ( std::isfinite(b) ) { one( R, vcplx(a,b) ); }
    R.family("large members of every shape");
    for ( auto & v : values_large( 70000 ) ) if ( representable(v) ) { one( R, v ); if ( v.size() < 5000 ) one( R, vmap({{"v",v},{"w",vgen({v,v})}}), 17, "  " ); }
  }
}
