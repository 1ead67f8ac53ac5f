#include "text.hh"
#include "choice.hh"
#include "GenericContainer/GenericContainerInterface_toml.hh"
#include <fstream>
#include <unistd.h>
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P29";
  char const * const RULE = "from_toml of TOML documents generated from data trees: every tree of a universe (scalars of an edge alphabet in maps, arrays and nested tables; all two-entry maps and all short arrays over small alphabets; nested tables and arrays of tables) is written in every way that uses at most D non-default spellings (D=2 quick, 3 thorough; choice points: table header / dotted keys / inline table, array of tables / inline array, implied parents, bare / basic / literal keys, decimal / signed / underscored / hex / octal / binary integers, plain / exponent / underscored reals, the four string forms and escape forms, single- and multi-line arrays, trailing commas, comments, blanks, empty lines, CRLF, order of sections) and must read back as exactly that tree (collapsed), whatever the container held; dates and times; families of invalid documents must be refused";

  static vector<Val> PRE;
  static unsigned cnt = 0;
  static Val nan1( Val v ) { int ek = is_vec(v.k)||is_mat(v.k) ? elem_kind(v.k) : v.k; if ( ek == REAL ) for ( auto & w : v.w ) if ( bitsd(w) != bitsd(w) ) w = dbits(std::nan("")); for ( auto & c : v.ch ) c = nan1(c); return v; }
  static void doc( Runner & R, string const & text, bool valid, Val const & e, int via=0 ) {
    unsigned c = ++cnt;
    if ( R.skip() ) return;
    R.run( [&]{ return "from_toml (via " + std::to_string(via) + ") into " + show(PRE[c%PRE.size()]) + " of " + show_bytes(text); }, [&]{
      GCN g; build( g, PRE[c%PRE.size()] ); std::istringstream in(text); bool ok;
      if ( via == 1 ) ok = TOML_to_GC( text, g ); else if ( via == 2 ) ok = TOML_to_GC( in, g ); else ok = g.from_toml(in);
      REQ( ok == valid, (valid?"refused":"accepted") );
      Val rb = nan1(norm_empty(readback(g)));
      if ( valid ) { Val ce = nan1(norm_empty(collapsed(e))); REQ( rb == ce, "got " << show(rb) << " | expected " << show(ce) ); R.state(e); }
      R.trans();
    } );
  }

  // ------------------------------------------------------------------ writer with choice points
  struct Gen {
    Choice & c; string nl; string out;
    explicit Gen( Choice & c_ ) : c(c_) { nl = c.pick(2) ? "\r\n" : "\n"; }
    static bool bare( string const & s ) { if ( s.empty() ) return false; for ( unsigned char x : s ) if ( !isalnum(x) && x != '-' && x != '_' ) return false; return true; }
    static bool literal_ok( string const & s ) { for ( unsigned char x : s ) if ( x == '\'' || (x < 0x20 && x != '\t') || x == 0x7f ) return false; return true; }
    static bool mlit_ok( string const & s ) { if ( s.find("'''") != string::npos || (!s.empty() && s.back()=='\'') ) return false; for ( unsigned char x : s ) if ( (x < 0x20 && x != '\t' && x != '\n') || x == 0x7f ) return false; return true; }
    static string basic( string const & s, int style, bool ml ) { // style 0 short escapes, 1 \u escapes, 2 \U escapes for everything
      string r; 
      for ( size_t i=0; i<s.size(); ) {
        unsigned char x = (unsigned char)s[i]; unsigned cp = x; size_t n = 1;
        if ( x >= 0xf0 ) { n = 4; cp = x & 7; } else if ( x >= 0xe0 ) { n = 3; cp = x & 15; } else if ( x >= 0xc0 ) { n = 2; cp = x & 31; }
        for ( size_t j=1; j<n; ++j ) cp = cp<<6 | ((unsigned char)s[i+j] & 63);
        char b[16];
        if ( style == 2 ) { snprintf( b, sizeof b, "\\U%08X", cp ); r += b; }
        else if ( style == 1 && cp < 0x10000 ) { snprintf( b, sizeof b, "\\u%04x", cp ); r += b; }
        else if ( style == 1 ) { snprintf( b, sizeof b, "\\U%08x", cp ); r += b; }
        else switch ( x ) {
          case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; case '\b': r += "\\b"; break; case '\f': r += "\\f"; break; case '\r': r += "\\r"; break;
          case '\n': r += ml ? "\n" : "\\n"; break;
          case '\t': r += ml ? "\t" : "\\t"; break;
          default: if ( x < 0x20 || x == 0x7f ) { snprintf( b, sizeof b, "\\u%04X", x ); r += b; } else r += s.substr(i,n);
        }
        i += n;
      }
      return r;
    }
    string str( string const & s ) {
      vector<string> f{ "\"" + basic(s,0,false) + "\"", "\"" + basic(s,1,false) + "\"", "\"" + basic(s,2,false) + "\"", "\"\"\"" + string(!s.empty()&&s[0]=='\n'?"\n":"") + basic(s,0,true) + "\"\"\"", "\"\"\"\n" + basic(s,0,true) + "\"\"\"", "\"\"\"" + basic(s,1,false) + "\\\n \t \n  \"\"\"" };
      if ( literal_ok(s) ) f.push_back( "'" + s + "'" );
      if ( mlit_ok(s) ) { f.push_back( "'''\n" + s + "'''" ); if ( s.empty() || s[0] != '\n' ) f.push_back( "'''" + s + "'''" ); }
      return f[ size_t(c.pick(int(f.size()))) ];
    }
    string key( string const & s ) {
      vector<string> f; if ( bare(s) ) f.push_back(s); f.push_back( "\"" + basic(s,0,false) + "\"" ); if ( literal_ok(s) ) f.push_back( "'" + s + "'" ); f.push_back( "\"" + basic(s,1,false) + "\"" );
      return f[ size_t(c.pick(int(f.size()))) ];
    }
    static string under( string const & d ) { string r; for ( size_t i=0; i<d.size(); ++i ) { if ( i && isdigit((unsigned char)d[i]) && isdigit((unsigned char)d[i-1]) ) r += '_'; r += d[i]; } return r; }
    string integer( int64_t v ) {
      string d = std::to_string(v); vector<string> f{ d };
      if ( v >= 0 ) {
        f.push_back( "+"+d ); char b[40]; snprintf( b, sizeof b, "0x%llX", (long long)v ); f.push_back(b); snprintf( b, sizeof b, "0x00%llx", (long long)v ); f.push_back(b); snprintf( b, sizeof b, "0o%llo", (long long)v ); f.push_back(b);
        string bin; int64_t t = v; do { bin = char('0'+(t&1)) + bin; t >>= 1; } while ( t ); f.push_back( "0b"+bin );
      } else if ( v == 0 ) f.push_back("-0");
      if ( under(d) != d ) f.push_back( under(d) );
      return f[ size_t(c.pick(int(f.size()))) ];
    }
    string real( double v ) {
      if ( v != v ) { static char const * n[] = { "nan", "+nan", "-nan" }; return n[c.pick(3)]; }
      if ( std::isinf(v) ) { if ( v < 0 ) return "-inf"; return c.pick(2) ? "+inf" : "inf"; }
      char b[400]; snprintf( b, sizeof b, "%.17g", v ); string s = b; if ( s.find_first_of(".e") == string::npos ) s += ".0";
      vector<string> f{ s }; if ( s[0] != '-' ) f.push_back( "+"+s );
      snprintf( b, sizeof b, "%.16e", v ); f.push_back( b ); snprintf( b, sizeof b, "%.20E", v ); f.push_back( b );
      if ( s.find('e') == string::npos ) { f.push_back( s+"e0" ); f.push_back( s+"E+00" ); f.push_back( s+"0" ); }
      if ( under(s) != s ) f.push_back( under(s) );
      return f[ size_t(c.pick(int(f.size()))) ];
    }
    string inl( Val const & v ) {
      switch ( v.k ) {
      case BOOL: return v.w[0] ? "true" : "false";
      case INT: return integer( int32_t(v.w[0]) );
      case LONG: return integer( int64_t(v.w[0]) );
      case REAL: return real( bitsd(v.w[0]) );
      case STRING: return str( v.s[0] );
      case MAP: {
        string r = "{"; bool first = true; string sp = c.pick(2) ? " \t" : " ";
        for ( size_t i=0; i<v.ch.size(); ++i ) body( v.ch[i], key(v.s[i]), r, first, sp );
        return r + sp + "}";
      }
      case VECTOR: {
        int st = c.pick(4); string r = "[";
        for ( size_t i=0; i<v.ch.size(); ++i ) {
          if ( st == 2 ) r += nl + "  # comment, with ] and \"" + nl;
          if ( st == 3 ) r += nl + nl + "\t";
          r += inl( v.ch[i] );
          if ( i+1 < v.ch.size() ) r += st == 1 ? " , " : st == 2 ? " # a" + nl + "," : ","; else if ( st >= 1 ) r += ",";
        }
        if ( st == 2 ) r += " # last" + nl;
        return r + ( st == 1 ? " ]" : "]" );
      }
      }
      return "";
    }
    void body( Val const & v, string const & k, string & r, bool & first, string const & sp ) { // inline table member, possibly dotted
      if ( v.k == MAP && !v.ch.empty() && c.pick(2) ) { for ( size_t i=0; i<v.ch.size(); ++i ) body( v.ch[i], k + "." + key(v.s[i]), r, first, sp ); return; }
      if ( !first ) r += ","; 
      first = false; r += sp + k + " = " + inl(v);
    }
    void line( string const & k, string const & v ) {
      switch ( c.pick(5) ) {
      case 0: out += k + " = " + v + nl; break;
      case 1: out += k + "=" + v + nl; break;
      case 2: out += "\t " + k + "\t=\t" + v + "  # c = \"x" + nl; break;
      case 3: out += nl + "# [no]" + nl + k + " = " + v + nl + " \t" + nl; break;
      case 4: out += "  " + k + " = " + v + "#" + nl; break;
      }
    }
    void dotted( Val const & v, string const & k ) {
      if ( v.k == MAP && !v.ch.empty() && !c.pick(2) ) { for ( size_t i=0; i<v.ch.size(); ++i ) dotted( v.ch[i], k + (c.pick(2)?" . ":".") + key(v.s[i]) ); return; }
      line( k, inl(v) );
    }
    static bool tables( Val const & v ) { if ( v.k != VECTOR || v.ch.empty() ) return false; for ( auto & x : v.ch ) if ( x.k != MAP ) return false; return true; }
    void table( Val const & v, string const & path ) { // members of v below an open header
      vector<size_t> sec;
      for ( size_t i=0; i<v.ch.size(); ++i ) {
        Val const & x = v.ch[i];
        if ( x.k == MAP ) {
          int s = c.pick( x.ch.empty() ? 2 : 3 );
          if ( s == 0 ) sec.push_back(i); else if ( s == 1 ) line( key(v.s[i]), inl(x) ); else for ( size_t j=0; j<x.ch.size(); ++j ) dotted_prefix( x, j, v.s[i] );
        } else if ( tables(x) ) { if ( c.pick(2) ) line( key(v.s[i]), inl(x) ); else sec.push_back(i); }
        else line( key(v.s[i]), inl(x) );
      }
      if ( sec.size() > 1 && c.pick(2) ) std::reverse( sec.begin(), sec.end() );
      for ( size_t i : sec ) {
        Val const & x = v.ch[i]; string p = path.empty() ? key(v.s[i]) : path + "." + key(v.s[i]);
        if ( x.k == MAP ) {
          bool only_sections = !x.ch.empty(); for ( auto & y : x.ch ) if ( y.k != MAP && !tables(y) ) only_sections = false;
          if ( only_sections && c.pick(2) ) implied( x, p ); else { header( "[", p, "]" ); table( x, p ); }
        } else for ( auto & y : x.ch ) { header( "[[", p, "]]" ); table( y, p ); }
      }
    }
    void dotted_prefix( Val const & x, size_t j, string const & name ) { dotted( x.ch[j], key(name) + "." + key(x.s[j]) ); }
    void implied( Val const & x, string const & path ) { // no header of its own: all members are sections
      for ( size_t i=0; i<x.ch.size(); ++i ) { string p = path + "." + key(x.s[i]); Val const & y = x.ch[i]; if ( y.k == MAP ) { header( "[", p, "]" ); table( y, p ); } else for ( auto & z : y.ch ) { header( "[[", p, "]]" ); table( z, p ); } }
    }
    void header( string const & a, string const & p, string const & b ) {
      switch ( c.pick(3) ) { case 0: out += a + p + b + nl; break; case 1: out += nl + "  " + a + " " + p + "\t" + b + " # t" + nl; break; case 2: out += "# before" + nl + a + p + b + "#" + nl + nl; break; }
    }
    string document( Val const & v ) {
      int s = c.pick(3); out = s == 1 ? "# first" + nl : s == 2 ? nl + " " + nl : "";
      table( v, "" );
      if ( c.pick(2) ) while ( !out.empty() && (out.back()=='\n'||out.back()=='\r') ) out.pop_back(); // no end of line at the end
      return out;
    }
  };
  static void tree( Runner & R, Val const & v, int bound, int via=0 ) { explore( bound, [&]( Choice & c ) { Gen g(c); string t = g.document(v); doc( R, t, true, v, via ); } ); }

  void enumerate( Runner & R ) {
    PRE = { vnone(), vmap({{"old",vint(1)},{"a",vint(2)},{"x",vstr("prev")}}), distinct_vec(VREAL,3), vstr("old"), vgen({vint(1),vstr("x"),vgen({vint(3)})}), distinct_mat(MINT,2,2), vptr(8), vcplx(1,2), vvec(VSTRING,{vstr("p")}), vbool(true) };
    std::cerr.rdbuf( nullptr );
    int D = R.thorough ? 3 : 2;
    R.family("scalars");
    vector<Val> S{ vbool(true), vbool(false) };
    for ( int64_t l : dense_ints(R.thorough) ) S.push_back( l >= INT32_MIN && l <= INT32_MAX ? vint(int32_t(l)) : vlong(l) );
    for ( double d : dense_reals(R.thorough) ) S.push_back( vreal(d) );
    for ( auto & v : S ) { tree( R, vmap({{"a",v}}), 2 ); if ( R.thorough ) tree( R, vmap({{"a",vgen({v,vint(1)})},{"t",vmap({{"b",v}})}}), 2 ); else { tree( R, vmap({{"a",vgen({v,vint(1)})}}), 1 ); tree( R, vmap({{"t",vmap({{"b",v}})}}), 1 ); } }
    R.family("strings and keys");
    vector<string> W; for ( int c=0; c<128; ++c ) W.push_back( string(1,char(c)) );
    { string sp = " \t\n\r\b\"\\'#=.[]{},\x7f-0aZ"; for ( char a : sp ) for ( char b : sp ) W.push_back( string(1,a)+string(1,b) ); }
    for ( auto & s : string_edges() ) if ( utf8(s) && s.size() < 100 ) W.push_back(s);
    for ( char const * w : { "", "true", "inf", "1", "-1", "1.5", "1979-05-27", "a.b", "a b", "'''", "\"\"\"", "\n\n", "\na", "a\n\nb\n", "\\\n", "a\\", "$date" } ) W.push_back(w);
    for ( unsigned cp : { 0x80u,0x85u,0xa0u,0x7ffu,0x800u,0x2028u,0xd7ffu,0xe000u,0xfeffu,0xfffdu,0x10000u,0x1f600u,0x10ffffu } ) { string s; JsonReader::put8(s,cp); W.push_back(s); W.push_back("a"+s+"\n"); }
    for ( auto & w : W ) { int d = R.thorough ? 2 : 1; bool cr = w.find('\r') != string::npos || w.find('\n') != string::npos; (void)cr;
      tree( R, vmap({{"a",vstr(w)}}), d ); tree( R, vmap({{"a",vgen({vstr(w),vstr("x")})}}), d ); tree( R, vmap({{w,vint(1)}}), 2 ); tree( R, vmap({{w,vmap({{w,vint(1)},{w+"b",vmap({{w,vstr(w)}})}})}}), 1 ); tree( R, vmap({{w,vgen({vmap({{w,vint(1)}}),vmap({})})}}), 1 ); }
    R.family("maps");
    vector<Val> A{ vint(7), vlong(1ll<<40), vreal(2.5), vstr("s\"'"), vbool(true), vgen({}), vmap({}), vgen({vint(1),vint(2)}), vgen({vint(1),vlong(5000000000ll)}), vgen({vint(1),vreal(.5)}), vgen({vstr("p"),vstr("q")}), vgen({vstr("p"),vint(3)}), vgen({vbool(true),vbool(false)}), vgen({vgen({vint(1),vint(2)}),vgen({vint(3),vint(4)})}), vmap({{"k",vint(1)}}), vmap({{"k",vmap({{"l",vint(2)}})}}), vmap({{"k",vgen({vint(1)})},{"m",vstr("z")}}), vgen({vmap({{"k",vint(1)}}),vmap({{"k",vint(2)}})}), vgen({vmap({}),vmap({{"k",vmap({{"l",vint(3)}})}})}), vmap({{"t",vgen({vmap({{"k",vint(1)}}),vmap({{"j",vgen({vmap({{"i",vint(4)}})})}})})}}) };
    for ( auto & a : A ) { tree( R, vmap({{"x",a}}), D ); tree( R, vmap({{"x",a}}), 1, 1 ); tree( R, vmap({{"x",a}}), 1, 2 ); for ( auto & b : A ) { tree( R, vmap({{"x",a},{"y",b}}), R.thorough ? 2 : 1 ); if ( R.thorough ) for ( auto & c : A ) tree( R, vmap({{"x",a},{"y",b},{"z",c}}), 1 ); tree( R, vmap({{"p",vmap({{"x",a},{"y",b}})},{"q",a}}), 1 ); tree( R, vmap({{"p",vgen({vmap({{"x",a}}),vmap({{"x",b}})})}}), 1 ); } }
    R.family("arrays");
    vector<Val> B{ vint(7), vlong(1ll<<40), vlong((1ll<<53)+1), vreal(2.5), vreal(std::nan("")), vstr("s"), vbool(true), vgen({}), vmap({}), vgen({vint(1),vint(2)}), vgen({vreal(1),vreal(2.5)}), vmap({{"k",vint(1)}}) };
    for ( auto & a : B ) { tree( R, vmap({{"x",vgen({a})}}), D ); for ( auto & b : B ) { tree( R, vmap({{"x",vgen({a,b})}}), 2 ); for ( auto & c : B ) { tree( R, vmap({{"x",vgen({a,b,c})}}), 1 ); if ( R.thorough ) for ( auto & d : B ) tree( R, vmap({{"x",vgen({a,b,c,d})}}), 1 ); } } }
    for ( unsigned n=0; n<=(R.thorough?200u:60u); ++n ) for ( int k : { VINT, VLONG, VREAL, VSTRING, VBOOL } ) { tree( R, vmap({{"v",plain(distinct_vec(k,n))}}), 0 ); if ( n ) for ( Val const & odd : { vreal(.25), vstr("odd"), vlong(1ll<<50) } ) { Val v = plain(distinct_vec(k,n)); v.ch[n/2] = odd; tree( R, vmap({{"v",v}}), 0 ); v = plain(distinct_vec(k,n)); v.ch[n-1] = odd; tree( R, vmap({{"v",v}}), 0 ); } }
    R.family("deep");
    for ( int n=1; n<=60; ++n ) { Val v = vint(n), m = vint(n), x = vint(n); for ( int i=0; i<n; ++i ) { v = vgen({v,vstr("e")}); m = vmap({{"k"+std::to_string(i),m},{"z",vint(i)}}); x = i%2 ? vmap({{"a",x}}) : vgen({x,vint(1)}); } tree( R, vmap({{"v",v}}), 0 ); tree( R, m, n < 12 ? 1 : 0 ); tree( R, vmap({{"x",x}}), 0 ); }
    R.family("dates and times");
    for ( char const * d : { "1979-05-27", "0001-01-01", "9999-12-31", "2000-02-29", "2024-02-29" } ) {
      tree( R, vmap({}), 0 );
      for ( string const & f : { string("%"), string("[ % ]"), string("[ 1, % ]"), string("{ b = % }") } ) {
        auto put = [&]( string const & x ) { string r = f; return r.replace( r.find('%'), 1, x ); };
        auto val = [&]( char const * tag, string const & x ) { Val v = vmap({{tag,vstr(x)}}); return f == "%" ? v : f == "[ % ]" ? vgen({v}) : f == "[ 1, % ]" ? vgen({vint(1),v}) : vmap({{"b",v}}); };
        doc( R, "a = " + put(d) + "\n", true, vmap({{"a",val("$date",d)}}) );
        for ( char const * t : { "00:00:00", "07:32:00", "23:59:59", "00:32:00.5", "12:00:00.999999" } ) {
          doc( R, "a = " + put(t) + "\n", true, vmap({{"a",val("$time",t)}}) );
          for ( char const * z : { "", "Z", "+01:30", "-07:00", "-00:30", "+12:59" } ) { string x = string(d)+"T"+t+z; doc( R, "a = " + put(x) + "\n", true, vmap({{"a",val("$date_time",x)}}) ); string y = string(d)+" "+t+z; doc( R, "a = " + put(y) + "\n", true, vmap({{"a",val("$date_time",x)}}) ); }
        }
      }
    }
    R.family("invalid");
    for ( string const & ctx : { string("%"), string("ok = 1\n%"), string("%\nok = 1\n"), string("[t]\n%"), string("[t]\nz = 0\n%\n[u]\n") } )
      for ( string const & b : { string("a"), string("a ="), string("= 1"), string("a = [1"), string("a = [1 2]"), string("a = [,1]"), string("a = {b = 1"), string("a = {b = 1 c = 2}"), string("a = \"x"), string("a = 'x"), string("a = \"\"\"x\"\""), string("a = '''x''"), string("a = 1\na = 2"), string("a = 1 b = 2"), string("[s"), string("[[s]"), string("[]"), string("[[]]"), string("[s.]"), string("a. = 1"), string(".a = 1"), string("a..b = 1"), string("a = tru"), string("a = True"), string("a = 99999999999999999999"), string("a = 9223372036854775808"), string("a = -9223372036854775809"), string("a = 1."), string("a = .5"), string("a = 1e"), string("a = 1_"), string("a = _1"), string("a = 1__0"), string("a = 012"), string("a = 0x"), string("a = 0xG"), string("a = 0b2"), string("a = 0o8"), string("a = +0x1"), string("a = Inf"), string("a = NAN"), string("a = 1.e5"), string("a = 0x1.8"), string("[s]\n[s]"), string("a = \"\\q\""), string("a = \"\\x4\""), string("a = \"\\u12\""), string("a = \"\\uD800\""), string("a = \"\\U00110000\""), string("\xff = 1"), string("a = \"\xff\""), string("a = \"\x01\""), string("a = '\x7f'"), string("a.b = 1\na = 2"), string("a = {b=1}\na.c = 2"), string("[[a]]\n[a]"), string("a b = 1"), string("\"a\nb\" = 1"), string("a = b"), string("a = 1979-13-01"), string("a = 1979-02-30"), string("a = 24:00:00"), string("a = 1979-05-27T25:00:00"), string("# \x01"), string("a : 1"), string("a = 1,") } ) {
        string t = ctx; t.replace( t.find('%'), 1, b ); doc( R, t, false, vnone() );
      }
    for ( string const & b : { string("a = [1"), string("a = [1,\n2"), string("a = {b = [1, {c = 2}}"), string("[a]\nb = 1\n[a]\nc = 2"), string("a = 1\r"), string("a = 1\n[a]\nb=1"), string("a = [1]\n[[a]]"), string("[t]\na = 1\n[t.a]\n"), string("a = \"\"\"x") } ) doc( R, b, false, vnone() );
    R.family("files");
    for ( auto & a : A ) for ( auto & b : A ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "file_TOML_to_GC of " + show(vmap({{"x",a},{"y",b}})); }, [&]{
        Val v = vmap({{"x",a},{"y",b}}); Choice c; Gen gen(c); string t = gen.document(v);
        string f = "p29_" + std::to_string(getpid()) + ".toml"; { std::ofstream o(f,std::ios::binary); o << t; }
        GCN h; build( h, PRE[1] ); string const longer = f + ".bak"; bool ok = file_TOML_to_GC( std::string_view(longer.data(),f.size()), h ); unlink( f.c_str() );
        REQ( ok, "refused" ); Val rb = norm_empty(readback(h)), e = norm_empty(collapsed(v)); REQ( rb == e, "got " << show(rb) << " expected " << show(e) ); R.trans();
      } );
    }
  }
}
