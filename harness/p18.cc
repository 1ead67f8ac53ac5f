#include "text.hh"
#include "GenericContainer/GenericContainerInterface_yaml.hh"
#include <fstream>
#include <iomanip>
#include <unistd.h>
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P18";
  char const * const RULE = "to_yaml + from_yaml of every value of the kind/shape/nesting universes (contexts, all two-level nestings, all matrix shapes, all vector lengths), of every string over all printable 7-bit characters, tab, newline, carriage return (length 1, and length 2 over special ones) and of number/bool/null look-alikes as value, key and element, and of dense numbers, at several precisions and prefixes, read back into containers in several earlier states; plus hand-written block and flow documents with known meaning and malformed ones";

  // what the value is expected to read back as: a tree of plain values
  static Val expect( Val const & v, int prec ) {
    switch ( v.k ) {
    case REAL: {
      char b[64]; snprintf( b, sizeof b, "%.*g", prec, bitsd(v.w[0]) ); string s = b;
      if ( s.find_first_of(".en") == string::npos ) { long long x = strtoll( b, nullptr, 10 ); return x >= INT32_MIN && x <= INT32_MAX ? vint(int32_t(x)) : vlong(x); }
      return vreal( strtod(b,nullptr) );
    }
    case COMPLEX: { cplx c = as_cplx(v); int p = int(stream_number_precision); if ( c.imag() == 0 ) return expect( vreal(c.real()), p ); char b[128]; snprintf( b, sizeof b, "%.*g%c%.*gi", p, c.real(), c.imag()<0?'-':'+', p, std::fabs(c.imag()) ); return vstr(b); }
    case VECTOR: case MAP: if ( v.ch.empty() ) return vnone(); { Val r = v; for ( auto & c : r.ch ) c = expect(c,prec); return r; }
    }
    if ( is_vec(v.k) ) { Val p = plain(v); for ( auto & c : p.ch ) c = expect(c,prec); return p; }
    if ( is_mat(v.k) ) { if ( v.nc == 0 ) return vnone(); Val p = plain(v); for ( auto & c : p.ch ) for ( auto & d : c.ch ) d = expect(d,prec); return p; }
    return v;
  }
  static bool yaml_string( string const & s ) {
    if ( !utf8(s) ) return false;
    return true;
  }
  static bool representable( Val const & v ) {
    return all_of( v, []( Val const & x ) {
      if ( x.k == POINTER || x.k == VPOINTER || !has_finite_numbers(x) ) return false;
      for ( auto & s : x.s ) if ( !yaml_string(s) ) return false;
      return true;
    } );
  }
  static vector<Val> PRE;
  static void check( Runner & R, Val const & v, int prec, string const & prefix, int via, unsigned pre ) {
    GCN g; build( g, v );
    string text;
    if ( via == 1 ) { GC_to_YAML( g, text ); prec = 6; }
    else { std::ostringstream o; o << std::setprecision(prec); if ( via == 2 ) GC_to_YAML( g, o ); else { string const buf = prefix + "@@"; g.to_yaml( o, string_view(buf.data(),prefix.size()) ); } text = o.str(); } // the prefix is a part of a longer text
    REQ_EQ( g, v, "source changed" );
    GCN h; build( h, PRE[pre%PRE.size()] ); std::istringstream in(text); bool ok;
    if ( via == 1 ) ok = YAML_to_GC( text, h ); else if ( via == 2 ) ok = YAML_to_GC( in, h ); else ok = h.from_yaml( in );
    REQ( ok, "from_yaml refused " << show_bytes(text) );
    Val rb = readback(h), e = collapsed( expect(v,prec) );
    REQ( same_data( plain(norm_empty(rb)), plain(norm_empty(e)) ), "round trip of " << show_bytes(text) << " | got " << show(rb) << " | expected " << show(e) );
    R.trans(2); R.state(v);
  }
  static unsigned cnt = 0;
  static void one( Runner & R, Val const & v, int prec=17, string const & prefix="", int via=0 ) {
    unsigned c = ++cnt;
    if ( R.skip() ) return;
    R.run( [&]{ return "to_yaml precision " + std::to_string(prec) + " prefix '" + show_bytes(prefix) + "' via " + std::to_string(via) + " of " + show(v) + " read into " + show(PRE[c%PRE.size()]); }, [&]{ check( R, v, prec, prefix, via, c ); } );
  }
  static void doc( Runner & R, string const & text, bool valid, Val const & e ) {
    for ( auto & p : PRE ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "from_yaml into " + show(p) + " of " + show_bytes(text); }, [&]{
        GCN g; build( g, p ); std::istringstream in(text); bool ok = g.from_yaml(in);
        REQ( ok == valid, (valid?"refused":"accepted") );
        Val rb = readback(g);
        if ( valid ) { Val ce = collapsed(e); REQ( same_data( plain(norm_empty(rb)), plain(norm_empty(ce)) ), "got " << show(rb) << " | expected " << show(ce) ); R.state(e); }
        R.trans();
      } );
    }
  }

  void enumerate( Runner & R ) {
    PRE = { vnone(), vmap({{"old",vint(1)},{"a",vint(2)}}), distinct_vec(VREAL,3), vstr("old"), vgen({vint(1),vstr("x"),vgen({vint(3)})}), distinct_mat(MINT,2,2), vptr(8), vcplx(1,2) };
    std::cerr.rdbuf( nullptr ); // the readers report parse errors there
    vector<Val> U = values_medium(); for ( auto & v : values_lookalike() ) U.push_back(v); for ( auto & v : scalars_small() ) U.push_back(v);
    R.family("values in contexts");
    for ( auto & v : U ) if ( representable(v) ) for ( auto & c : contexts(v) ) {
      one( R, c ); one( R, c, 6 ); one( R, c, 17, "    " ); one( R, c, 6, "", 1 ); one( R, c, 17, "", 2 );
    }
    R.family("nested");
    { vector<Val> L{ vnone(), vint(5), vreal(0.5), vstr("q\"") , vvec(VINT,{}), vmap({}), vgen({}) };
      for ( auto & v : values_nested( R.thorough?2:1, L ) ) { one( R, v ); one( R, vmap({{"w",vgen({v,v})}}), 17, "  " ); }
      vector<Val> M{ vint(5), vstr("x"), vvec(VREAL,{vreal(.5)}) }; for ( auto & v : values_nested( 2, M ) ) one( R, v ); }
    R.family("matrices");
    unsigned D = R.thorough ? 9 : 6;
    for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned a=0; a<=D; ++a ) for ( unsigned b=0; b<=D; ++b ) { Val m = distinct_mat(k,a,b); one( R, m ); one( R, m, 17, " " ); one( R, vmap({{"M",m},{"N",vint(1)}}) ); one( R, vgen({m,vint(1)}) ); one( R, vgen({m,m}) ); }
    R.family("vectors");
    for ( auto & v : vectors_of_all_lengths( R.thorough?120:40 ) ) if ( representable(v) ) { one( R, v ); one( R, vmap({{"v",v}}), 17, "    " ); }
    R.family("strings");
    vector<string> S; for ( int c=0; c<128; ++c ) S.push_back( string(1,char(c)) );
    { string sp = " \t\n\r\"\\/':{}[],#u-?&*!|>%@`~=0Z.e";
      for ( char a : sp ) for ( char b : sp ) S.push_back( string(1,a)+string(1,b) );
      if ( R.thorough ) for ( char a : sp ) for ( char b : sp ) for ( char c : sp ) S.push_back( string(1,a)+string(1,b)+string(1,c) ); }
    for ( auto & s : string_edges() ) if ( yaml_string(s) ) S.push_back(s);
    for ( char const * w : { "null","Null","NULL","~","true","True","TRUE","false","False","yes","no","on","off","y","n","Y","N","1","-1","+1","0x1F","0o17","017","1.5","1e5",".5","5.","-.5",".inf","-.inf",".nan",".NaN","inf","nan","1_000","12:30:45","2020-01-01","---","...","--- a","- a","? a",": a","a: b","a #b","a:b","a#b","[a","{a","]","}","a,b","|","> x","&x","*x","!t","!!str 1","%YAML 1.2","@x","`x","<<","=","key with blanks","a\n\nb","\n","a\n"," a","a ","\ta","a\t","'","''","\"","\\n","\\","a\\" } ) S.push_back(w);
    for ( unsigned cp : { 0xa0u,0x7ffu,0x800u,0xd7ffu,0xe000u,0xfffdu,0x10000u,0x1f600u,0x10ffffu } ) { string s; JsonReader::put8(s,cp); S.push_back(s); S.push_back("a"+s+"\n"); }
    for ( auto & s : S ) { one( R, vstr(s) ); one( R, vmap({{"k",vstr(s)},{"l",vint(1)}}) ); one( R, vgen({vstr(s),vint(2)}) ); one( R, vmap({{s,vint(1)},{s+"z",vstr(s)}}) ); one( R, vgen({vmap({{s,vmap({{s,vnone()}})}})}) ); one( R, vvec(VSTRING,{vstr(s),vstr(s+s)}) ); }
    R.family("numbers");
    for ( double d : dense_reals(R.thorough) ) if ( std::isfinite(d) ) { one( R, vreal(d) ); one( R, vvec(VREAL,{vreal(d),vreal(0.5)}), 18 ); one( R, vvec(VCOMPLEX,{vcplx(d,0),vcplx(0,d),vcplx(d,d),vcplx(1,d)}), 18 ); one( R, vmap({{"r",vreal(d)}}), 12 ); if ( R.thorough ) { one( R, vreal(d), 6 ); one( R, vmat(MREAL,1,2,{vreal(1.5),vreal(d)}), 18 ); } }
    for ( int64_t l : dense_ints(R.thorough) ) { one( R, vlong(l) ); one( R, vvec(VLONG,{vlong(l),vlong(-1)}), 6 ); if ( l >= INT32_MIN && l <= INT32_MAX ) { one( R, vmap({{"i",vint(int32_t(l))}}), 1 ); one( R, vmat(MINT,1,1,{vint(int32_t(l))}) ); } }
    R.family("documents");
    doc( R, "a: 1\nb:\n  - x\n  - 2.5\n  - c: true\n    d: null\n", true, vmap({{"a",vint(1)},{"b",vgen({vstr("x"),vreal(2.5),vmap({{"c",vbool(true)},{"d",vnone()}})})}}) );
    doc( R, "[1, 2, 3]", true, vgen({vint(1),vint(2),vint(3)}) );
    doc( R, "- [1, 2]\n- [3, 4]\n", true, vgen({vgen({vint(1),vint(2)}),vgen({vint(3),vint(4)})}) );
    doc( R, "{a: {b: [1, two, 3.5]}, c: \"x\"}", true, vmap({{"a",vmap({{"b",vgen({vint(1),vstr("two"),vreal(3.5)})}})},{"c",vstr("x")}}) );
    doc( R, "- 1\n- 4000000000\n- -9223372036854775808\n", true, vgen({vint(1),vlong(4000000000ll),vlong(INT64_MIN)}) );
    doc( R, "- 'it''s'\n- \"a\\tb\"\n- plain text\n", true, vgen({vstr("it's"),vstr("a\tb"),vstr("plain text")}) );
    doc( R, "true", true, vbool(true) ); doc( R, "", true, vnone() ); doc( R, "null", true, vnone() ); doc( R, "x: ~\ny: .5\n", true, vmap({{"x",vnone()},{"y",vreal(.5)}}) );
    doc( R, "# comment\na: 1 # one\n\n# more\nb: 2\n", true, vmap({{"a",vint(1)},{"b",vint(2)}}) );
    for ( char const * t : { "a: [1, 2\nb: 3", "\"abc", "'abc", "a: b: c", "]", "}", "a: \"x", "a: \"\\q\"", "[1, 2]]", "- a\nb: c", "*undefined", "{a: 1]" } ) doc( R, t, false, vnone() );
    R.family("files");
    for ( auto & v : values_one_per_shape() ) if ( representable(v) ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "file_YAML_to_GC of " + show(v); }, [&]{
        char dir[] = "/tmp/gcp18.XXXXXX"; REQ( mkdtemp(dir), "mkdtemp" ); string f = string(dir)+"/d.yaml";
        GCN g, h; build( g, v ); { std::ofstream o(f); o << std::setprecision(17); g.to_yaml(o); } build( h, PRE[1] );
        string const longer = f + ".bak"; bool ok = file_YAML_to_GC( std::string_view(longer.data(),f.size()), h ); unlink( f.c_str() ); rmdir( dir );
        REQ( ok, "refused" ); Val rb = readback(h), e = collapsed(expect(v,17)); REQ( same_data( plain(norm_empty(rb)), plain(norm_empty(e)) ), "got " << show(rb) ); R.trans(2);
      } );
    }
    R.family("large members of every shape");
    for ( auto & v : values_large( R.thorough ? 4100 : 300 ) ) if ( representable(v) ) { one( R, v ); one( R, vmap({{"v",v},{"w",vgen({v,vint(1)})}}), 17, "  " ); }
  }
}
