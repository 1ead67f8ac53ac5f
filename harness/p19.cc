#include "text.hh"
#include "GenericContainer/GenericContainerInterface_toml.hh"
#include <fstream>
#include <unistd.h>
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P19";
  char const * const RULE = "to_toml + from_toml of maps holding every value of the kind/shape/nesting universes (contexts, all two-level nestings, all matrix shapes, all vector lengths, all generic vectors up to length 3 over a scalar alphabet), every 7-bit character and pairs of special ones in values, keys and elements, and dense integers and reals, read back into containers in several earlier states; values containing null must make to_toml return false; hand-written documents with known meaning and malformed ones (all truncations / single-character changes of sample documents must not crash)";

  // the TOML data a value denotes
  static Val view( Val const & v ) {
    switch ( v.k ) {
    case LONG: { int64_t l = int64_t(v.w[0]); return l >= INT32_MIN && l <= INT32_MAX ? vint(int32_t(l)) : v; }
    case REAL: if ( bitsd(v.w[0]) != bitsd(v.w[0]) ) return vreal(std::nan("")); return v;
    case COMPLEX: { cplx c = as_cplx(v); return vgen({ view(vreal(c.real())), view(vreal(c.imag())) }); }
    case VECTOR: case MAP: { Val r = v; for ( auto & c : r.ch ) c = view(c); return r; }
    }
    if ( is_vec(v.k) ) { vector<Val> e; for ( size_t i=0; i<v.size(); ++i ) e.push_back( view(elem(v,i)) ); return vgen(e); }
    if ( is_mat(v.k) ) {
      vector<Val> a, b; for ( size_t i=0; i<v.size(); ++i ) { Val x = elem(v,i); if ( v.k == MCOMPLEX ) { a.push_back( view(vreal(as_cplx(x).real())) ); b.push_back( view(vreal(as_cplx(x).imag())) ); } else a.push_back( view(x) ); }
      Val t = vmap({{"$nrows",vint(int(v.nr))},{"$ncols",vint(int(v.nc))}});
      if ( v.k == MCOMPLEX ) { t.put("$data_real") = vgen(a); t.put("$data_imag") = vgen(b); } else t.put("$data") = vgen(a);
      return vmap({{ v.k==MINT?"$mat_integer":v.k==MLONG?"$mat_long":v.k==MREAL?"$mat_real":"$mat_complex", t }});
    }
    return v;
  }
  static Val nan1( Val v ) { int ek = is_vec(v.k)||is_mat(v.k) ? elem_kind(v.k) : v.k; if ( ek == REAL || ek == COMPLEX ) for ( auto & w : v.w ) if ( bitsd(w) != bitsd(w) ) w = dbits(std::nan("")); for ( auto & c : v.ch ) c = nan1(c); return v; }
  static bool has_ptr( Val const & v ) { return !all_of( v, []( Val const & x ) { return x.k != POINTER && x.k != VPOINTER; } ); }
  static bool has_null( Val const & v ) { return !all_of( v, []( Val const & x ) { return x.k != NOTYPE; } ); }
  static bool strings_ok( Val const & v ) { return all_of( v, []( Val const & x ) { for ( auto & s : x.s ) if ( !utf8(s) ) return false; return true; } ); }
  static vector<Val> PRE;
  static unsigned cnt = 0;
  static void check( Runner & R, Val const & v, int via, unsigned pre ) {
    GCN g; build( g, v );
    string text; bool ok = true;
    std::ostringstream o; if ( via == 1 ) GC_to_TOML( g, text ); else { if ( via == 2 ) GC_to_TOML( g, o ); else ok = g.to_toml( o ); text = o.str(); }
    REQ_EQ( g, v, "source changed" ); R.trans();
    if ( has_null(v) ) { if ( via == 0 ) REQ( !ok, "to_toml accepted null data" ); return; }
    REQ( ok, "to_toml failed" );
    GCN h; build( h, PRE[pre%PRE.size()] ); std::istringstream in(text);
    if ( via == 1 ) ok = TOML_to_GC( text, h ); else if ( via == 2 ) ok = TOML_to_GC( in, h ); else ok = h.from_toml( in );
    REQ( ok, "from_toml refused " << show_bytes(text) );
    Val rb = nan1(norm_empty(readback(h))), e = nan1(norm_empty(collapsed(view(v))));
    REQ( rb == e, "round trip of " << show_bytes(text) << " | got " << show(rb) << " | expected " << show(e) );
    R.trans(); R.state(v);
  }
  static void one( Runner & R, Val const & x, int via=0 ) {
    unsigned c = ++cnt; Val v = x.k == MAP ? x : vmap({{"x",x}});
    if ( R.skip() ) return;
    R.run( [&]{ return "to_toml via " + std::to_string(via) + " of " + show(v) + " read into " + show(PRE[c%PRE.size()]); }, [&]{ check( R, v, via, c ); } );
  }
  static void doc( Runner & R, string const & text, int expect, Val const & e ) { // expect 1 valid, 0 refused, -1 either
    unsigned c = ++cnt;
    if ( R.skip() ) return;
    R.run( [&]{ return "from_toml into " + show(PRE[c%PRE.size()]) + " of " + show_bytes(text); }, [&]{
      GCN g; build( g, PRE[c%PRE.size()] ); std::istringstream in(text); bool ok = g.from_toml(in);
      if ( expect >= 0 ) REQ( ok == (expect==1), (expect?"refused":"accepted") );
      Val rb = nan1(norm_empty(readback(g)));
      if ( expect == 1 ) { Val ce = nan1(norm_empty(collapsed(e))); REQ( rb == ce, "got " << show(rb) << " | expected " << show(ce) ); R.state(e); }
      R.trans();
    } );
  }

  void enumerate( Runner & R ) {
    PRE = { vnone(), vmap({{"old",vint(1)},{"a",vint(2)},{"x",vstr("prev")}}), distinct_vec(VREAL,3), vstr("old"), vgen({vint(1),vstr("x"),vgen({vint(3)})}), distinct_mat(MINT,2,2), vptr(8), vcplx(1,2) };
    std::cerr.rdbuf( nullptr );
    vector<Val> U = values_medium(); for ( auto & v : values_lookalike() ) U.push_back(v); for ( auto & v : scalars_small() ) U.push_back(v); for ( auto & v : scalars_edge() ) U.push_back(v);
    R.family("values in contexts");
    for ( auto & v : U ) if ( !has_ptr(v) && strings_ok(v) ) for ( auto & c : contexts(v) ) { one( R, c ); if ( !has_null(c) ) { one( R, c, 1 ); one( R, c, 2 ); } }
    R.family("generic vectors");
    { vector<Val> S{ vbool(true), vint(3), vint(-4), vlong(4), vlong(1ll<<40), vlong((1ll<<53)+1), vlong(INT64_MIN), vreal(2), vreal(2.5), vreal(INFINITY), vcplx(1,2), vstr(""), vstr("a'b\"c"), vnone(), vvec(VINT,{}), vvec(VINT,{vint(1),vint(2)}), vvec(VLONG,{vlong(1),vlong(5000000000ll)}), vvec(VBOOL,{vbool(true)}), vvec(VSTRING,{vstr("p")}), vgen({}), vmap({}), vmap({{"k",vint(1)}}), distinct_mat(MREAL,1,2) };
      for ( auto & a : S ) { one( R, vgen({a}) ); for ( auto & b : S ) { one( R, vgen({a,b}) ); one( R, vgen({vgen({a,b}),vgen({b,a})}) ); one( R, vmap({{"p",a},{"q",b}}) ); one( R, vmap({{"p",vmap({{"q",a}})},{"r",vgen({vmap({{"s",b}}),vmap({})})}}) ); for ( auto & c : S ) { one( R, vgen({a,b,c}) ); if ( R.thorough ) for ( auto & d : S ) one( R, vgen({a,b,c,d}) ); } } } }
    R.family("nested");
    { vector<Val> L{ vint(5), vreal(0.5), vstr("q\"") , vvec(VINT,{}), vmap({}), vgen({}) };
      for ( auto & v : values_nested( R.thorough?2:1, L ) ) { one( R, v ); one( R, vmap({{"w",vgen({v,v})}}) ); }
      vector<Val> M{ vint(5), vstr("x"), vvec(VREAL,{vreal(.5)}) }; for ( auto & v : values_nested( 2, M ) ) one( R, v ); }
    R.family("matrices");
    unsigned D = R.thorough ? 9 : 6;
    for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned a=0; a<=D; ++a ) for ( unsigned b=0; b<=D; ++b ) { Val m = distinct_mat(k,a,b); one( R, m ); one( R, vmap({{"M",m},{"N",vint(1)}}) ); one( R, vgen({m,vint(1)}) ); one( R, vgen({m,m}) ); }
    R.family("vectors");
    for ( auto & v : vectors_of_all_lengths( R.thorough?120:40 ) ) if ( !has_ptr(v) ) { one( R, v ); one( R, vmap({{"v",vmap({{"v",v}})}}) ); }
    for ( unsigned n=1; n<=(R.thorough?60u:20u); ++n ) for ( unsigned p=0; p<n; ++p ) { vector<Val> a, b; for ( unsigned i=0; i<n; ++i ) { a.push_back( i==p ? vlong(1ll<<35) : vlong(i) ); b.push_back( i==p ? vlong(-(1ll<<35)) : vlong(i) ); } one( R, vvec(VLONG,a) ); one( R, vgen(b) ); }
    R.family("strings");
    vector<string> S; for ( int c=0; c<128; ++c ) S.push_back( string(1,char(c)) );
    { string sp = string("\0",1)+" \t\n\r\b\f\x1b\x7f\"\\/':{}[],#=u.-0Z";
      for ( char a : sp ) for ( char b : sp ) S.push_back( string(1,a)+string(1,b) );
      if ( R.thorough ) for ( char a : sp ) for ( char b : sp ) for ( char c : sp ) S.push_back( string(1,a)+string(1,b)+string(1,c) ); }
    for ( auto & s : string_edges() ) if ( utf8(s) ) S.push_back(s);
    for ( char const * w : { "true","false","1","-1","1.5","inf","nan","1979-05-27","07:32:00","a.b","a b","\"","'''","\"\"\"","a\nb","a\r\nb","[t]","[[t]]","$mat_real","$date" } ) S.push_back(w);
    for ( unsigned cp : { 0x80u,0x85u,0x9fu,0xa0u,0x7ffu,0x800u,0x2028u,0xd7ffu,0xe000u,0xfffdu,0x10000u,0x1f600u,0x10ffffu } ) { string s; JsonReader::put8(s,cp); S.push_back(s); S.push_back("a"+s+"\n"); }
    for ( auto & s : S ) { one( R, vstr(s) ); one( R, vgen({vstr(s),vint(2)}) ); one( R, vmap({{s,vint(1)},{s+"z",vstr(s)}}) ); one( R, vmap({{s,vmap({{s,vmap({{s,vint(1)}})}})}}) ); one( R, vgen({vmap({{s,vmap({{s,vint(1)}})}})}) ); one( R, vvec(VSTRING,{vstr(s),vstr(s+s)}) ); }
    R.family("numbers");
    for ( double d : dense_reals(R.thorough) ) { one( R, vreal(d) ); one( R, vvec(VREAL,{vreal(d),vreal(0.5)}) ); one( R, vmat(MREAL,1,2,{vreal(1.5),vreal(d)}) ); one( R, vcplx(0.5,d) ); one( R, vmat(MCOMPLEX,1,1,{vcplx(d,1)}) ); one( R, vvec(VCOMPLEX,{vcplx(d,0),vcplx(0,d),vcplx(d,d),vcplx(1,d)}) ); one( R, vmat(MCOMPLEX,1,2,{vcplx(d,d),vcplx(0,d)}) ); }
    for ( int64_t l : dense_ints(R.thorough) ) { one( R, vlong(l) ); one( R, vvec(VLONG,{vlong(l),vlong(-1)}) ); one( R, vgen({vlong(l),vlong(7)}) ); one( R, vmat(MLONG,2,1,{vlong(l),vlong(0)}) ); if ( l >= INT32_MIN && l <= INT32_MAX ) { one( R, vint(int32_t(l)) ); one( R, vmat(MINT,1,1,{vint(int32_t(l))}) ); } }
    R.family("documents");
    string d1 = "a = 1\nb = [ \"x\", 2.5, true ]\n[t]\nc = -9223372036854775808\nd = { e = [[1,2],[3,4]] }\n[[u]]\nv = 1\n[[u]]\nv = \"q\"\n";
    Val e1 = vmap({{"a",vint(1)},{"b",vgen({vstr("x"),vreal(2.5),vbool(true)})},{"t",vmap({{"c",vlong(INT64_MIN)},{"d",vmap({{"e",vgen({vgen({vint(1),vint(2)}),vgen({vint(3),vint(4)})})}})}})},{"u",vgen({vmap({{"v",vint(1)}}),vmap({{"v",vstr("q")}})})}});
    string d2 = "d = 1979-05-27\nt = 07:32:00\n[q]\ndt = 1979-05-27T07:32:00Z\nl = [ 1, 5000000000 ]\ns = 'lit\\n'\nm = \"\"\"\nmulti\"\"\"\nn = [ ]\n";
    Val e2 = vmap({{"d",vmap({{"$date",vstr("1979-05-27")}})},{"t",vmap({{"$time",vstr("07:32:00")}})},{"q",vmap({{"dt",vmap({{"$date_time",vstr("1979-05-27T07:32:00Z")}})},{"l",vgen({vlong(1),vlong(5000000000ll)})},{"s",vstr("lit\\n")},{"m",vstr("multi")},{"n",vgen({})}})}});
    for ( size_t i=0; i<PRE.size(); ++i ) { doc( R, d1, 1, e1 ); doc( R, "a.b.c = 0x1F\nx = [1, 2, 3.0]\n", 1, vmap({{"a",vmap({{"b",vmap({{"c",vint(31)}})}})},{"x",vgen({vint(1),vint(2),vreal(3)})}}) ); doc( R, "# only a comment\n", 1, vmap({}) ); doc( R, "", 1, vmap({}) ); doc( R, d2, 1, e2 );
      for ( char const * t : { "a", "a =", "= 1", "a = [1", "a = {b = 1", "a = \"x", "a = 1\na = 2", "a = 1 b = 2", "[t", "[[t]", "a = tru", "a = 99999999999999999999", "a = 1.", "a = .5", "a = 'x", "[a]\n[a]", "a = \"\\q\"", "\xff = 1", "a = 1\n[a]\nb=1" } ) doc( R, t, 0, vnone() ); }
    for ( string const & d : { d1, d2 } ) {
      for ( size_t n=0; n<=d.size(); ++n ) doc( R, d.substr(0,n), -1, vnone() );
      for ( size_t n=0; n<d.size(); ++n ) for ( int c=0; c<256; c += (R.thorough?1:3) ) { string f = d; f[n] = char(c); doc( R, f, -1, vnone() ); f = d; f.insert(n,1,char(c)); doc( R, f, -1, vnone() ); }
    }
    R.family("files");
    for ( auto & v : values_one_per_shape() ) if ( !has_ptr(v) && !has_null(v) && strings_ok(v) ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "file_TOML_to_GC of " + show(v); }, [&]{
        char dir[] = "/tmp/gcp19.XXXXXX"; REQ( mkdtemp(dir), "mkdtemp" ); string f = string(dir)+"/d.toml";
        Val m = vmap({{"x",v}}); GCN g, h; build( g, m ); { std::ofstream o(f); g.to_toml(o); } build( h, PRE[1] );
        string const longer = f + ".bak"; bool ok = file_TOML_to_GC( std::string_view(longer.data(),f.size()), h ); unlink( f.c_str() ); rmdir( dir );
        REQ( ok, "refused" ); Val rb = norm_empty(readback(h)), e = norm_empty(collapsed(view(m))); REQ( rb == e, "got " << show(rb) << " expected " << show(e) ); R.trans(2);
      } );
    }
    R.family("large members of every shape");
    for ( auto & v : values_large( R.thorough ? 4100 : 1100 ) ) if ( depth(v) < 250 ) /* nesting limit of the parser used */ if ( !has_ptr(v) ) { one( R, v ); one( R, vmap({{"v",v},{"w",vgen({v,vint(1)})}}) ); }
  }
}
