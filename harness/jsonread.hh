#include "text.hh"
#include "GenericContainer/GenericContainerInterface_json.hh"
#include <fstream>
#include <unistd.h>
namespace H {
  using namespace GC_namespace;
#ifdef JSON2
#define READER "from_json2"
#else
#define READER "from_json"
#endif
  char const * const RULE = READER " on every character sequence over a JSON alphabet up to a length, every sequence of JSON tokens up to a length, every number spelling over '-+0 1 9 . e E' up to a length, every \\uXXXX escape (and all surrogate-pair boundaries), every truncation and single-character substitution/insertion/deletion of sample documents, dense integers and reals; acceptance and value decided by an independent strict RFC 8259 reader, the container starting in several earlier states";

#ifdef JSON2
  // what from_json2 is free to accept beyond JSON: unknown escapes, control characters in strings or as blanks, an empty text
  struct J2LenientReader : JsonReader {
    static string fix( string const & x ) {
      string r; bool in = false;
      for ( size_t k=0; k<x.size(); ++k ) {
        char c = x[k];
        if ( !in ) { if ( c == '\v' || c == '\f' ) c = ' '; if ( c == '"' ) in = true; r += c; continue; }
        if ( (unsigned char)c < 0x20 ) { r += '_'; continue; }
        if ( c == '"' ) in = false;
        if ( c == '\\' && k+1 < x.size() ) { char e = x[++k]; if ( e == 'u' || e == '"' || e == '\\' ) { r += c; r += e; } else { r += '_'; if ( (unsigned char)e >= 0x80 ) r += e; } continue; }
        r += c;
      }
      return r;
    }
    string keep;
    explicit J2LenientReader( string const & x ) : JsonReader(keep), keep(fix(x)) { size_t k = 0; while ( k < keep.size() && isspace((unsigned char)keep[k]) ) ++k; blank = k == keep.size(); }
    bool blank{false};
    bool doc( Val & v ) { return blank || JsonReader::doc(v); }
  };
#endif
  static vector<Val> PRE;
  // which: 0 member, 1 string helper, 2 stream helper
  static void check( Runner & R, string const & text, unsigned pre, int via=0 ) {
    GCN g; build( g, PRE[pre%PRE.size()] );
    JsonReader J(text); Val t; bool valid = J.doc(t);
    bool ok = false, thrown = false;
    std::istringstream in(text);
    #ifdef JSON2
    J2LenientReader L(text); Val lt; bool lenient = L.doc(lt);
    try { ok = g.from_json2(in); } catch ( std::exception const & ) { thrown = true; }
    (void)via;
#else
    bool lenient = false;
    try { ok = via==1 ? JSON_to_GC(text,g) : via==2 ? JSON_to_GC(in,g) : g.from_json(in); } catch ( std::exception const & ) { thrown = true; }
#endif
    R.trans();
#ifdef JSON2
    if ( utf8(text) && valid && J.unspec && !J.hugenum ) { // JSON whose meaning is not pinned down: whatever the first reader says
      GCN f; std::istringstream in1(text); bool ok1 = false; try { ok1 = f.from_json(in1); } catch ( std::exception const & ) {}
      REQ( ok1 == ( ok && !thrown ), "from_json2 " << ( ok && !thrown ? "accepts" : "refuses" ) << ", from_json does not" );
      if ( ok1 ) REQ( norm_empty(readback(f)) == norm_empty(readback(g)), "from_json2 gives " << show(readback(g)) << " | from_json gives " << show(readback(f)) );
      return;
    }
#endif
    if ( !utf8(text) || J.unspec ) { readback(g); return; }
    if ( valid ) {
      REQ( ok && !thrown, "valid JSON refused" );
      Val rb = norm_empty(readback(g)), e = norm_empty(collapsed(t));
      REQ( rb == e, "got " << show(rb) << " | expected " << show(e) );
      R.state(t);
    } else if ( lenient ) { readback(g);
    } else { REQ( !ok || thrown, "malformed text accepted as " << show(readback(g)) ); readback(g); }
  }
  static void one( Runner & R, string const & text, unsigned pre, int via=0 ) {
    if ( R.skip() ) return;
    R.run( [&]{ return READER " into " + show(PRE[pre%PRE.size()]) + " via " + std::to_string(via) + " of " + show_bytes(text); }, [&]{ check(R,text,pre,via); } );
  }
  static void seqs( Runner & R, vector<string> const & A, int n, string const & head="", string const & tail="" ) {
    vector<size_t> ix(size_t(n),0); unsigned c = 0;
    while ( true ) {
      ++c;
      if ( !R.skip() ) { string s = head; for ( auto i : ix ) s += A[i]; s += tail; R.run( [&]{ return READER " into " + show(PRE[c%PRE.size()]) + " of " + show_bytes(s); }, [&]{ check(R,s,c); } ); }
      int p = n-1; while ( p >= 0 && ++ix[size_t(p)] == A.size() ) ix[size_t(p--)] = 0;
      if ( p < 0 ) break;
    }
  }
  static vector<string> chars( char const * s ) { vector<string> r; for ( ; *s; ++s ) r.push_back(string(1,*s)); return r; }

  void enumerate( Runner & R ) {
    PRE = { vnone(), vmap({{"old",vint(1)},{"a",vint(2)}}), distinct_vec(VREAL,3), vstr("old"), vgen({vint(1),vstr("x"),vgen({vint(3)})}), distinct_mat(MINT,2,2), vptr(8), vcplx(1,2) };
    std::cerr.rdbuf( nullptr ); // the readers report parse errors there
    R.family("characters");
    for ( int n=0; n<=(R.thorough?6:5); ++n ) seqs( R, chars("[]{},:\"1-0.e \\at"), n );
    for ( int n=1; n<=(R.thorough?6:5); ++n ) seqs( R, chars("[]{},:\"1 a"), n, "[1,", "]" );
    R.family("tokens");
    { vector<string> T{ "[", "]", "{", "}", ",", ":", "\"a\"", "\"b\"", "1", "2.5", "true", "null" };
      for ( int n=1; n<=(R.thorough?7:5); ++n ) seqs( R, T, n );
      vector<string> T2{ "]", "}", ",", ":", "\"a\"", "1", "[", "{" };
      seqs( R, T2, R.thorough?7:6, "{\"x\":" , "}" ); seqs( R, T2, R.thorough?7:6, "[" , "]" ); }
    { vector<string> T{ "1", "-3", "4000000000", "9007199254740993", "0.5", "true", "false", "null", "\"s\"", "[]", "[1,2]", "[1.5,2]", "[true,false]", "{}", "{\"k\":1}", "[\"p\",\"q\"]", "[[1],[2]]", "18446744073709551615", "9223372036854775809", "12345678901234567890" };
      for ( auto & a : T ) { one( R, a, 1 ); one( R, "["+a+"]", 2 ); for ( auto & b : T ) { one( R, "["+a+","+b+"]", 3 ); one( R, "{\"a\":"+a+",\"b\":"+b+"}", 1 ); one( R, "{\"a\":"+a+",\"a\":"+b+"}", 1 ); for ( auto & c : T ) { one( R, "["+a+","+b+","+c+"]", 4 ); one( R, "["+a+",["+b+","+c+"]]", 5 ); one( R, "{\"a\":["+a+",{\"b\":["+b+"]}],\"c\":"+c+"}", 6 ); if ( R.thorough ) for ( auto & d : T ) one( R, "["+a+","+b+","+c+","+d+"]", 4 ); } } } }
    R.family("numbers");
    for ( int n=1; n<=(R.thorough?8:6); ++n ) seqs( R, chars("-+019.eE"), n );
    for ( int64_t l : dense_ints(R.thorough) ) { string s = std::to_string(l); one( R, s, 0 ); one( R, "["+s+"]", 1 ); one( R, s+".0", 2 ); one( R, "[0.5,"+s+"]", 2 ); }
    for ( int e=0; e<64; ++e ) for ( int d=-2; d<=2; ++d ) { uint64_t u = (1ull<<e)+uint64_t(int64_t(d)); for ( char const * sg : {"","-"} ) { string s = sg+std::to_string(u); one( R, s, 0 ); one( R, s+"0", 1 ); one( R, s+"e1", 2 ); one( R, "[1,"+s+"]", 2 ); } }
    for ( double d : dense_reals(R.thorough) ) if ( std::isfinite(d) ) for ( char const * f : {"%.17g","%.20e","%.6g","%.3e"} ) { char b[512]; snprintf( b, sizeof b, f, d ); one( R, b, 3 ); }
    R.family("strings");
    for ( unsigned u=0; u<0x10000; ++u ) { char b[32]; snprintf( b, sizeof b, (u&1)?"\"\\u%04x\"":"\"x\\u%04Xy\"", u ); one( R, b, u ); if ( u < 256 || u%97 == 0 ) { string k = string("{")+b+":1,\"z\":["+b+"]}"; one( R, k, 1 ); } }
    for ( unsigned h : {0xd800u,0xd801u,0xd83du,0xdbffu} ) for ( unsigned l : {0xdc00u,0xdc01u,0xde00u,0xdfffu,0xdbffu,0xe000u,0x41u} ) { char b[40]; snprintf( b, sizeof b, "\"\\u%04x\\u%04x\"", h, l ); one( R, b, 0 ); }
    for ( int c=1; c<256; ++c ) { string s(1,char(c)); one( R, "\""+s+"\"", 0 ); one( R, "\"\\"+s+"\"", 0 ); one( R, "\"a\\"+s+"b\"", 0 ); one( R, s, 0 ); one( R, "[1"+s+"]", 0 ); one( R, "["+s+"1]", 0 ); one( R, "{"+s+"\"a\":1}", 0 ); one( R, "\"\\u00"+s+"1\"", 0 ); one( R, "1"+s, 0 ); one( R, "true"+s, 0 ); }
    for ( int n=1; n<=(R.thorough?6:5); ++n ) seqs( R, { "\\", "\"", "u", "0", "n", "/", "\xc3\xa9", "d", "\n" }, n, "\"", "\"" );
    R.family("UTF-8");
    for ( unsigned b=0x80; b<0x110000; b+=64 ) { // every code point, as it is
      if ( b >= 0xd800 && b < 0xe000 ) continue; if ( !R.thorough && b >= 0x3000 && b%0x1000 > 0x80 ) continue;
      string t = "[", k = "{"; for ( unsigned cp=b; cp<b+64; ++cp ) { string c; JsonReader::put8(c,cp); t += ( cp > b ? ",\"" : "\"" ) + c + ( cp%3 ? "" : "x" ) + "\""; k += ( cp > b ? ",\"" : "\"" ) + c + "\":" + std::to_string(cp); } one( R, t+"]", b/64 ); one( R, k+"}", b/64 );
    }
    { vector<string> C; for ( unsigned cp : {0x41u,0x80u,0x7ffu,0x800u,0x20acu,0xffffu,0x10000u,0x1f600u,0x10ffffu} ) { string c; JsonReader::put8(c,cp); C.push_back(c); }
      C.push_back("\\n"); C.push_back("\\\"");
      for ( auto & a : C ) for ( auto & b : C ) { for ( auto & c : C ) one( R, "\""+a+b+c+"\"", 0 ); string s = "{\""+a+b+"\":\""+b+a+"\"}"; one( R, s, 1 ); for ( size_t n=0; n<s.size(); ++n ) one( R, s.substr(0,n), unsigned(n) ); for ( size_t n=0; n<s.size(); ++n ) { string u = s; u.erase(n,1); one( R, u, unsigned(n) ); } } }
    R.family("mutations");
    vector<string> D{ "{\"a\": [1, 2.5, -3e2, true, null], \"b\": {\"c\": \"x\\ny\\u00e9\", \"d\": []}, \"e\": {}}",
      "[[1,2,3],[4,5,6]]", "[\"alpha\",\"be\\\"ta\",\"\"]", "{\"k\":{\"k\":{\"k\":[{\"k\":false}]}}}", " \r\n\t[ 0 , -0 , 0.0 , 1E+2 , 12345678901 ] \n" };
    for ( auto & d : D ) {
      for ( size_t n=0; n<=d.size(); ++n ) { one( R, d.substr(0,n), unsigned(n) ); one( R, d.substr(n), unsigned(n) ); }
      for ( size_t n=0; n<d.size(); ++n ) { string e = d; e.erase(n,1); one( R, e, unsigned(n) ); for ( int c=1; c<256; ++c ) { if ( !R.thorough && c > 127 && c%16 ) continue; string f = d; f[n] = char(c); one( R, f, unsigned(c) ); f = d; f.insert(n,1,char(c)); one( R, f, unsigned(c) ); } }
      for ( auto & e : D ) { one( R, d+e, 0 ); one( R, d+","+e, 0 ); one( R, "["+d+","+e+"]", 0 ); }
      for ( int via=0; via<3; ++via ) for ( unsigned p=0; p<8; ++p ) one( R, d, p, via );
    }
    for ( int n=1; n<=200; ++n ) { string s; for ( int i=0; i<n; ++i ) s += (i&1)?"{\"a\":":"["; string u = s; s += "1"; for ( int i=n; i-->0; ) s += (i&1)?"}":"]"; one( R, s, 0 ); one( R, u, 0 ); one( R, s+"]", 0 ); }
    R.family("large documents");
    for ( unsigned n : {63u,64u,65u,127u,128u,129u,255u,256u,257u,511u,512u,513u,1023u,1024u,1025u,2047u,2048u,2049u,4095u,4096u,4097u,8191u,8192u,8193u,16383u,16384u,16385u,32767u,32768u,32769u,65535u,65536u,65537u} ) {
      if ( !R.thorough && n > 5000 && n < 65000 ) continue;
      string w( n, ' ' ), x, a = "[", b = "[", c = "{", d = "[", e, u, f = "[", m = "["; for ( unsigned i=0; i<n; ++i ) { x += char('a'+i%26); e += i%3 ? "z" : "\\n"; u += i%5 ? "y" : "\\u00e9"; string q = i ? "," : ""; a += q + std::to_string(i); b += q + "\"s" + std::to_string(i) + "\""; if ( n < 9000 ) { c += q + "\"k" + std::to_string(i*7919u%100003u) + "\":" + std::to_string(i); m += q + "[" + std::to_string(i) + ",2]"; } d += q + ( i%2 ? "true" : "false" ); f += q + std::to_string(i) + ( i+1 == n ? ".5" : "" ); }
      a += "]"; b += "]"; c += "}"; d += "]"; f += "]"; m += "]";
      vector<string> T{ string(n,'\n')+"[1,"+string(n,'\n')+"2]"+string(n,'\n'), string(n,'\t')+"{"+string(n,'\r')+"}", w+"1", w+"[1,2]"+w, "["+w+"1,"+w+"2]", "\""+x+"\"", "[\""+x+"\",\"t\"]", "{\""+x+"\":1}", "\""+e+"\"", "\""+u+"\"", "{\""+u+"\":\""+e+"\"}", a, b, d, f, "{\"v\":"+a+"}", "["+a+","+b+"]", string(n,'1'), "0."+string(n,'3'), string(n,'0')+"1", "1"+string(n,'0')+"e-"+std::to_string(n), "\""+x, a.substr(0,a.size()-1), a+"]" };
      if ( n < 9000 ) { T.push_back(c); T.push_back(m); T.push_back( "["+c+","+c+"]" ); T.push_back( m.substr(0,m.size()-1) ); }
      for ( unsigned i=0; i<T.size(); ++i ) one( R, T[i], i );
    }
#ifndef JSON2
    R.family("files");
    for ( auto & d : D ) for ( int k=0; k<3; ++k ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "file_JSON_to_GC of " + show_bytes(d) + (k==1?" (truncated)":k==2?" (missing file)":""); }, [&]{
        char dir[] = "/tmp/gcp17.XXXXXX"; REQ( mkdtemp(dir), "mkdtemp" ); string f = string(dir)+"/d.json";
        string text = k==1 ? d.substr(0,d.size()-3) : d; if ( k != 2 ) { std::ofstream o(f); o << text; }
        GCN g; build( g, PRE[1] ); bool ok = false; try { ok = file_JSON_to_GC( f, g ); } catch ( std::exception const & ) {}
        unlink( f.c_str() ); rmdir( dir );
        REQ( ok == (k==0), "wrong status" );
        if ( ok ) { JsonReader J(text); Val t; J.doc(t); REQ( norm_empty(readback(g)) == norm_empty(collapsed(t)), "wrong content " << show(readback(g)) ); }
        R.trans();
      } );
    }
#endif
  }
}
