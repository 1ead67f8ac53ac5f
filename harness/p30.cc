#include "text.hh"
#include "choice.hh"
#include "GenericContainer/GenericContainerInterface_yaml.hh"
#include <fstream>
#include <unistd.h>
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P30";
  char const * const RULE = "from_yaml of YAML documents generated from data trees: every tree of a universe (scalars of dense alphabets and all 7-bit strings and pairs of special characters as root, value, element and key; all pairs (thorough: triples) of sub-trees in maps and sequences) is written in every way that uses at most D non-default spellings (D=1 or 2 quick, 2 or 3 thorough; choice points: block / flow / compact / unindented collections, indentation widths, plain / single / double quoted / literal block strings and escape forms, spellings of null, bool, integers and reals, comments, blank lines, CRLF, document markers and directives, trailing commas, blanks before a colon) and must read back as exactly that tree (collapsed), whatever the container held; anchors and aliases, tags, folded and multi-line scalars by example; all texts up to length 4 (thorough 5) over 20 characters, all token sequences up to length 4 (5) and all truncations and single-character changes of sample documents must be accepted or refused without a crash and leave a readable container";

  static vector<Val> PRE;
  static unsigned cnt = 0;
  static Val nan1( Val v ) { int ek = is_vec(v.k)||is_mat(v.k) ? elem_kind(v.k) : v.k; if ( ek == REAL ) for ( auto & w : v.w ) if ( bitsd(w) != bitsd(w) ) w = dbits(std::nan("")); for ( auto & c : v.ch ) c = nan1(c); return v; }
  static void doc( Runner & R, string const & text, bool valid, Val const & e, int via=0 ) {
    unsigned c = ++cnt;
    if ( R.skip() ) return;
    R.run( [&]{ return "from_yaml (via " + std::to_string(via) + ") into " + show(PRE[c%PRE.size()]) + " of " + show_bytes(text); }, [&]{
      GCN g; build( g, PRE[c%PRE.size()] ); std::istringstream in(text); bool ok;
      if ( via == 1 ) ok = YAML_to_GC( text, g ); else if ( via == 2 ) ok = YAML_to_GC( in, g ); else ok = g.from_yaml(in);
      REQ( ok == valid, (valid?"refused":"accepted") );
      Val rb = nan1(norm_empty(readback(g)));
      if ( valid ) { Val ce = nan1(norm_empty(collapsed(e))); REQ( rb == ce, "got " << show(rb) << " | expected " << show(ce) ); R.state(e); }
      R.trans();
    } );
  }

  // any text: accepted or refused, no crash, readable container
  static void any( Runner & R, string const & text ) {
    unsigned c = ++cnt;
    if ( R.skip() ) return;
    R.run( [&]{ return "from_yaml of arbitrary text into " + show(PRE[c%PRE.size()]) + " of " + show_bytes(text); }, [&]{ GCN g; build( g, PRE[c%PRE.size()] ); std::istringstream in(text); g.from_yaml(in); readback(g); R.trans(); } );
  }
  static void texts( Runner & R, vector<string> const & A, int L ) {
    vector<int> ix;
    for ( int n=0; n<=L; ++n ) {
      ix.assign( size_t(n), 0 );
      while ( true ) {
        string t; for ( int i : ix ) t += A[size_t(i)];
        any( R, t );
        int k = n-1; while ( k >= 0 && ++ix[size_t(k)] == int(A.size()) ) ix[size_t(k--)] = 0;
        if ( k < 0 ) break;
      }
    }
  }

  // ------------------------------------------------------------------ writer with choice points
  struct Gen {
    Choice & c; string nl;
    explicit Gen( Choice & c_ ) : c(c_) { nl = c.pick(2) ? "\r\n" : "\n"; }
    static string ind( int n ) { return string( size_t(n), ' ' ); }
    static bool word( string const & s ) { // certainly a plain string
      if ( s.empty() || !isalpha((unsigned char)s[0]) || s.back() == ' ' ) return false;
      for ( unsigned char x : s ) if ( !isalnum(x) && x != '_' && x != '-' && x != ' ' && x != '/' && x != '.' && x != '+' && x != '*' && x != '&' && x != '!' && x != '(' && x != '@' ) return false;
      for ( char const * w : { "true","True","TRUE","false","False","FALSE","null","Null","NULL" } ) if ( s == w ) return false;
      return true;
    }
    static bool printable( string const & s, bool lf ) { for ( unsigned char x : s ) if ( (x < 0x20 && !(lf && x == '\n')) || x == 0x7f ) return false; return true; }
    static string dq( string const & s, int style ) {
      string r = "\"";
      for ( size_t i=0; i<s.size(); ) {
        unsigned char x = (unsigned char)s[i]; unsigned cp = x; size_t n = 1;
        if ( x >= 0xf0 ) { n = 4; cp = x & 7; } else if ( x >= 0xe0 ) { n = 3; cp = x & 15; } else if ( x >= 0xc0 ) { n = 2; cp = x & 31; }
        for ( size_t j=1; j<n; ++j ) cp = cp<<6 | ((unsigned char)s[i+j] & 63);
        char b[16]; b[0] = 0;
        if ( style == 1 ) snprintf( b, sizeof b, cp < 0x10000 ? "\\u%04x" : "\\U%08X", cp );
        else if ( style == 2 ) snprintf( b, sizeof b, cp < 0x100 ? "\\x%02X" : "\\U%08x", cp );
        else switch ( x ) {
          case '"': strcpy(b,"\\\""); break; case '\\': strcpy(b,"\\\\"); break; case '\b': strcpy(b,"\\b"); break; case '\f': strcpy(b,"\\f"); break; case '\r': strcpy(b,"\\r"); break;
          case '\n': strcpy(b,"\\n"); break; case '\t': strcpy(b,"\\t"); break; case 7: strcpy(b,"\\a"); break; case 11: strcpy(b,"\\v"); break; case 27: strcpy(b,"\\e"); break; case 0: strcpy(b,"\\0"); break;
          default: if ( x < 0x20 || x == 0x7f ) snprintf( b, sizeof b, "\\x%02x", x );
        }
        if ( b[0] ) r += b; else r += s.substr(i,n);
        i += n;
      }
      return r + "\"";
    }
    static string sq( string const & s ) { string r = "'"; for ( char x : s ) { r += x; if ( x == '\'' ) r += x; } return r + "'"; }
    vector<string> qforms( string const & s ) { vector<string> f{ dq(s,0) }; if ( word(s) ) f.push_back(s); if ( printable(s,false) ) f.push_back( sq(s) ); f.push_back( dq(s,1) ); f.push_back( dq(s,2) ); return f; }
    string choose( vector<string> const & f ) { return f[ size_t(c.pick(int(f.size()))) ]; }
    string key( string const & s ) { vector<string> f = qforms(s); if ( f.size() > 1 && word(s) ) std::swap( f[0], f[1] ); return choose( f ); }
    static string lower( double v, char const * fmt ) { char b[400]; snprintf( b, sizeof b, fmt, v ); return b; }
    // scalar on one line; block: the empty null is possible
    string scalar( Val const & v, bool block ) {
      switch ( v.k ) {
      case NOTYPE: return choose( vector<string>{ "null", "~", "Null", "NULL" } );
      case BOOL: return v.w[0] ? choose({ "true","True","TRUE" }) : choose({ "false","False","FALSE" });
      case INT: case LONG: {
        int64_t l = v.k == INT ? int32_t(v.w[0]) : int64_t(v.w[0]); vector<string> f{ std::to_string(l) };
        if ( l >= 0 ) { f.push_back( "+"+f[0] ); char b[40]; snprintf( b, sizeof b, "0x%llX", (long long)l ); f.push_back(b); snprintf( b, sizeof b, "0x%llx", (long long)l ); f.push_back(b); snprintf( b, sizeof b, "0o%llo", (long long)l ); f.push_back(b); }
        return choose( f );
      }
      case REAL: {
        double d = bitsd(v.w[0]);
        if ( d != d ) return choose({ ".nan",".NaN",".NAN" });
        if ( std::isinf(d) ) return d > 0 ? choose({ ".inf",".Inf",".INF" }) : choose({ "-.inf","-.Inf","-.INF" });
        string s = lower( d, "%.17g" ); if ( s.find_first_of(".e") == string::npos ) s += ".0";
        vector<string> f{ s }; f.push_back( lower(d,"%.16e") ); f.push_back( lower(d,"%.20E") ); if ( s.find('e') == string::npos ) { f.push_back( s+"e0" ); f.push_back( s+"0" ); f.push_back( s+"E+00" ); }
        if ( s[0] != '-' ) f.push_back( "+"+s ); if ( s.substr(0,2) == "0." ) f.push_back( s.substr(1) );
        return choose( f );
      }
      case STRING: return choose( qforms(v.s[0]) );
      }
      return "";
    }
    string flow( Val const & v ) {
      if ( v.k != MAP && v.k != VECTOR ) return scalar( v, false );
      int st = v.ch.empty() ? 0 : c.pick(4); string r = v.k == MAP ? "{" : "[";
      for ( size_t i=0; i<v.ch.size(); ++i ) {
        if ( st == 1 ) r += " ";
        if ( st == 2 ) r += nl + "   ";
        if ( v.k == MAP ) r += key( v.s[i] ) + ": ";
        r += flow( v.ch[i] );
        if ( i+1 < v.ch.size() ) r += st == 1 ? " ," : st == 2 ? "," : ", "; else if ( st == 3 ) r += ",";
      }
      if ( st == 1 ) r += " ";
      return r + ( v.k == MAP ? "}" : "]" );
    }
    string eol() { switch ( c.pick(4) ) { case 1: return " # c: x" + nl; case 2: return nl + nl; case 3: return nl + "# [ \"" + nl; } return nl; }
    bool blockable( Val const & v ) { return (v.k == MAP || v.k == VECTOR) && !v.ch.empty(); }
    // literal block scalar after the introducing token, content indented by n; empty if not expressible
    string literal( string const & s, int n ) {
      if ( s.empty() || !printable(s,true) || s[0] == ' ' || s[0] == '\n' ) return "";
      size_t e = s.size(); while ( e > 0 && s[e-1] == '\n' ) --e;
      if ( e == 0 ) return "";
      size_t t = s.size()-e; string r = t == 0 ? "|-" : t == 1 ? "|" : "|+"; r += nl; string line;
      string body = s.substr(0,e); size_t p = 0; while ( true ) { size_t q = body.find('\n',p); string l = body.substr(p,q==string::npos?q:q-p); r += l.empty() ? nl : ind(n) + l + nl; if ( q == string::npos ) break; p = q+1; }
      for ( size_t i=1; i<t; ++i ) r += nl;
      return r;
    }
    // value after "key:" or "-" at indentation n (of the parent); result ends with an end of line
    string after( Val const & v, int n, bool item ) {
      if ( !blockable(v) ) {
        if ( v.k == MAP || v.k == VECTOR ) return " " + flow(v) + eol();
        if ( v.k == STRING && c.pick(2) ) { string l = literal( v.s[0], n+2 ); if ( !l.empty() ) return " " + l; }
        string s = scalar(v,true); return s.empty() ? eol() : " " + s + eol();
      }
      int kinds = item ? 3 : v.k == VECTOR ? 3 : 2; // block below / flow / (compact for items, unindented sequence for keys)
      int w; switch ( c.pick(kinds) ) {
      case 0: w = n + (c.pick(2) ? 3 : 2); return eol() + block( v, w, false );
      case 1: return " " + flow(v) + eol();
      }
      if ( item ) return " " + block( v, n+2, true );
      return eol() + block( v, n, false );
    }
    string block( Val const & v, int n, bool first_inline ) {
      string r;
      for ( size_t i=0; i<v.ch.size(); ++i ) {
        if ( !(first_inline && i == 0) ) r += ind(n);
        if ( v.k == VECTOR ) r += "-" + after( v.ch[i], n, true );
        else r += key( v.s[i] ) + ( c.pick(2) ? " :" : ":" ) + after( v.ch[i], n, false );
      }
      return r;
    }
    string document( Val const & v ) {
      string r; switch ( c.pick(5) ) { case 1: r = "---" + nl; break; case 2: r = "# c" + nl + nl; break; case 3: r = "%YAML 1.2" + nl + "---" + nl; break; case 4: r = nl; break; }
      if ( blockable(v) && !c.pick(2) ) r += block( v, 0, false ); else if ( v.k == MAP || v.k == VECTOR ) r += flow(v) + nl; else r += scalar(v,true) + nl;
      switch ( c.pick(4) ) { case 1: r += "..." + nl; break; case 2: r += "# end"; break; case 3: while ( !r.empty() && (r.back()=='\n'||r.back()=='\r') ) r.pop_back(); break; }
      return r;
    }
  };
  static void tree( Runner & R, Val const & v, int bound, int via=0 ) { explore( bound, [&]( Choice & c ) { Gen g(c); string t = g.document(v); doc( R, t, true, v, via ); } ); }

  void enumerate( Runner & R ) {
    PRE = { vnone(), vmap({{"old",vint(1)},{"a",vint(2)},{"x",vstr("prev")}}), distinct_vec(VREAL,3), vstr("old"), vgen({vint(1),vstr("x"),vgen({vint(3)})}), distinct_mat(MINT,2,2), vptr(8), vcplx(1,2), vvec(VSTRING,{vstr("p")}), vbool(true) };
    std::cerr.rdbuf( nullptr );
    int D = R.thorough ? 3 : 2;
    R.family("scalars");
    vector<Val> S{ vnone(), vbool(true), vbool(false) };
    for ( int64_t l : dense_ints(R.thorough) ) S.push_back( l >= INT32_MIN && l <= INT32_MAX ? vint(int32_t(l)) : vlong(l) );
    for ( double d : dense_reals(R.thorough) ) S.push_back( vreal(d) );
    for ( auto & v : S ) { tree( R, v, R.thorough ? 2 : 1 ); tree( R, vmap({{"a",v}}), 1 ); tree( R, vgen({v,vint(1)}), 1 ); tree( R, vmap({{"t",vmap({{"b",v}})}}), 1 ); }
    R.family("strings and keys");
    vector<string> W; for ( int c=0; c<128; ++c ) W.push_back( string(1,char(c)) );
    { string sp = " \t\n\r\b\"\\'#:-?[]{},&*!|>%@`0aZ"; for ( char a : sp ) for ( char b : sp ) W.push_back( string(1,a)+string(1,b) ); }
    for ( auto & s : string_edges() ) if ( utf8(s) && s.size() < 100 ) W.push_back(s);
    for ( char const * w : { "", "true", "null", "~", "1", "-1", "1.5", ".inf", "plain words here", "two  blanks", "three   blanks x", "a b  c d", "Ab* &c !d @e", "a/b.c-d", "a\n\nb\n", "a\nb\n\n", "a\\", "it's", "x: y", "x #y" } ) W.push_back(w);
    for ( unsigned cp : { 0x80u,0x85u,0xa0u,0x7ffu,0x800u,0x2028u,0xd7ffu,0xe000u,0xfeffu,0xfffdu,0x10000u,0x1f600u,0x10ffffu } ) { string s; JsonReader::put8(s,cp); W.push_back(s); W.push_back("a"+s+"\n"); }
    for ( auto & w : W ) { int d = R.thorough ? 2 : 1; tree( R, vstr(w), d ); tree( R, vmap({{"a",vstr(w)}}), d ); tree( R, vgen({vstr(w),vstr("x")}), d ); tree( R, vmap({{w,vint(1)}}), d ); tree( R, vmap({{w,vmap({{w,vint(1)},{w+"b",vmap({{w,vstr(w)}})}})}}), 1 ); tree( R, vmap({{w,vgen({vmap({{w,vint(1)}}),vmap({})})}}), 1 ); }
    R.family("trees");
    vector<Val> A{ vint(7), vlong(1ll<<40), vreal(2.5), vstr("s"), vnone(), vbool(true), vgen({}), vmap({}), vgen({vint(1),vint(2)}), vgen({vint(1),vlong(5000000000ll)}), vgen({vint(1),vreal(.5)}), vgen({vstr("p"),vstr("q")}), vgen({vstr("p"),vint(3),vnone()}), vgen({vbool(true),vbool(false)}), vgen({vgen({vint(1),vint(2)}),vgen({vint(3),vint(4)})}), vmap({{"k",vint(1)}}), vmap({{"k",vmap({{"l",vint(2)}})}}), vmap({{"k",vgen({vint(1)})},{"m",vstr("z")}}), vgen({vmap({{"k",vint(1)}}),vmap({{"k",vint(2)}})}), vgen({vmap({}),vmap({{"k",vmap({{"l",vint(3)}})}})}), vmap({{"t",vgen({vmap({{"k",vint(1)}}),vmap({{"j",vgen({vmap({{"i",vint(4)}})})}})})}}) };
    for ( auto & a : A ) { tree( R, a, D ); tree( R, a, 1, 1 ); tree( R, a, 1, 2 ); tree( R, vmap({{"x",a}}), D ); tree( R, vgen({a}), D ); for ( auto & b : A ) { tree( R, vmap({{"x",a},{"y",b}}), R.thorough ? 2 : 1 ); tree( R, vgen({a,b}), R.thorough ? 2 : 1 ); tree( R, vmap({{"p",vmap({{"x",a},{"y",b}})},{"q",a}}), 1 ); tree( R, vmap({{"p",vgen({vmap({{"x",a}}),vmap({{"x",b}})})}}), 1 ); tree( R, vgen({vgen({a,b}),vgen({b,a})}), 1 ); tree( R, vgen({vmap({{"x",a},{"y",b}}),vint(1)}), 1 ); for ( auto & c : A ) { tree( R, vgen({a,b,c}), R.thorough ? 1 : 0 ); tree( R, vmap({{"x",a},{"y",b},{"z",c}}), R.thorough ? 1 : 0 ); } } }
    R.family("lengths and depths");
    for ( unsigned n=1; n<=(R.thorough?200u:60u); ++n ) for ( int k : { VINT, VLONG, VREAL, VSTRING, VBOOL } ) { tree( R, plain(distinct_vec(k,n)), 1 ); tree( R, vmap({{"v",plain(distinct_vec(k,n))}}), 0 ); }
    for ( int n=1; n<=40; ++n ) { Val v = vint(n), m = vint(n), x = vint(n); for ( int i=0; i<n; ++i ) { v = vgen({v,vstr("e")}); m = vmap({{"k"+std::to_string(i),m},{"z",vint(i)}}); x = i%2 ? vmap({{"a",x}}) : vgen({x,vint(1)}); } int d = n < 12 ? 1 : 0; tree( R, v, d ); tree( R, m, d ); tree( R, x, d ); }
    R.family("anchors");
    for ( auto & a : A ) if ( a.k != NOTYPE ) for ( int st=0; st<3; ++st ) { Choice c; Gen g(c); string f = g.flow(a);
      doc( R, "a: &x " + f + "\nb: *x\n", true, vmap({{"a",a},{"b",a}}) ); doc( R, "- &x " + f + "\n- 1\n- *x\n", true, vgen({a,vint(1),a}) ); doc( R, "[&x " + f + ", *x]\n", true, vgen({a,a}) ); }
    R.family("documents");
    doc( R, "a: &x\n  k: 1\nb: *x\n", true, vmap({{"a",vmap({{"k",vint(1)}})},{"b",vmap({{"k",vint(1)}})}}) ); // known finding
    doc( R, "p:\n  - 1\n  -\nq: 2\n", true, vmap({{"p",vgen({vint(1),vnone()})},{"q",vint(2)}}) ); // known finding
    doc( R, "- x:\n- x: 1\n", true, vgen({vmap({{"x",vnone()}}),vmap({{"x",vint(1)}})}) ); // known finding
    doc( R, "x:\n", true, vmap({{"x",vnone()}}) ); doc( R, "x:", true, vmap({{"x",vnone()}}) ); doc( R, "x :", true, vmap({{"x",vnone()}}) ); doc( R, "-\n", true, vgen({vnone()}) ); doc( R, "x:\ny: 1\n", true, vmap({{"x",vnone()},{"y",vint(1)}}) ); doc( R, "-\n- 1\n", true, vgen({vnone(),vint(1)}) ); doc( R, "- 1\n-\n", true, vgen({vint(1),vnone()}) );
    doc( R, "a: |\n  x", true, vmap({{"a",vstr("x")}}) ); doc( R, "a: |\n  x\n", true, vmap({{"a",vstr("x\n")}}) ); doc( R, "a: |-\n  x y\n   z\n\n  w\nb: 1\n", true, vmap({{"a",vstr("x y\n z\n\nw")},{"b",vint(1)}}) ); doc( R, "a: >-\n  x\n  y\n\n  z\nb: 1\n", true, vmap({{"a",vstr("x y\nz")},{"b",vint(1)}}) ); doc( R, "a: >\n  x\n  y\n", true, vmap({{"a",vstr("x y\n")}}) ); doc( R, "- >\n  x\n- |\n  y\n- 1\n", true, vgen({vstr("x\n"),vstr("y\n"),vint(1)}) ); doc( R, "a: |2\n    x\nb: 1\n", true, vmap({{"a",vstr("  x\n")},{"b",vint(1)}}) );
    doc( R, "a: plain over\n  two lines\nb: 1\n", true, vmap({{"a",vstr("plain over two lines")},{"b",vint(1)}}) ); doc( R, "a: \"quoted over\n  two lines\"\nb: 1\n", true, vmap({{"a",vstr("quoted over two lines")},{"b",vint(1)}}) ); doc( R, "a: 'quoted over\n\n  two lines'\n", true, vmap({{"a",vstr("quoted over\ntwo lines")}}) );
    doc( R, "a: x  y  # c\n", true, vmap({{"a",vstr("x  y")}}) ); doc( R, "a: x \t y \t\n", true, vmap({{"a",vstr("x \t y")}}) ); doc( R, "[a  b ,c   d ]", true, vgen({vstr("a  b"),vstr("c   d")}) ); doc( R, "a  b  : c :d\n", true, vmap({{"a  b",vstr("c :d")}}) ); doc( R, "a: x  y\n", true, vmap({{"a",vstr("x  y")}}) ); doc( R, "a: http://x.y/z?q=1#f\n", true, vmap({{"a",vstr("http://x.y/z?q=1#f")}}) ); doc( R, "a: b:c\n", true, vmap({{"a",vstr("b:c")}}) ); doc( R, "a b c: d e\n", true, vmap({{"a b c",vstr("d e")}}) ); doc( R, "{\"a\":1,\"b\":[true,null,\"x\"]}", true, vmap({{"a",vint(1)},{"b",vgen({vbool(true),vnone(),vstr("x")})}}) );
    doc( R, "? a\n: 1\n? b\n: - 2\n", true, vmap({{"a",vint(1)},{"b",vgen({vint(2)})}}) ); doc( R, "!!str 12", true, vstr("12") ); doc( R, "- !!int \"3\"\n- !!float 4\n- !!str true\n", true, vgen({vint(3),vreal(4),vstr("true")}) );
    R.family("arbitrary texts");
    { vector<string> A; for ( char x : string(":-?[]{},&*!|>%#'\"\\~ \na1") ) A.push_back( string(1,x) ); texts( R, A, R.thorough?5:4 );
      texts( R, { "- ", "a", ": ", "\n", "\n ", "\n  ", "[", "]", "{", "}", ", ", "&a ", "*a", "\"x\"", "? ", "|\n", ">-\n ", " # c", "!t ", "---", "\t" }, R.thorough?5:4 ); }
    for ( string const & d : { string("a: 1\nb:\n  - x\n  - [2.5, {c: \"d\\n\"}]\n  - e: 'f'\n    g: |\n      h\n      i\nj: &k {l: ~}\nm: *k\n"), string("%YAML 1.2\n---\n? a\n: - b\n  - !!str 1\n# c\n...\n") } ) {
      for ( size_t n=0; n<=d.size(); ++n ) any( R, d.substr(0,n) );
      for ( size_t n=0; n<d.size(); ++n ) { for ( int c=0; c<256; ++c ) { if ( !R.thorough && c >= 128 && c%16 ) continue; string f = d; f[n] = char(c); any( R, f ); f = d; f.insert(n,1,char(c)); any( R, f ); } string f = d; f.erase(n,1); any( R, f ); if ( R.thorough ) for ( size_t m=n+1; m<d.size(); ++m ) any( R, d.substr(0,n)+d.substr(m) ); }
    }
    R.family("recursive aliases");
    for ( char const * t : { "&a [*a]", "&a {x: *a}", "&a [1, {x: [*a]}]", "[&a [1, *a], *a]", "x: &a [&b [*a], *b]\n" } ) doc( R, t, false, vnone() );
    doc( R, "[&a [1], *a, *a]", true, vgen({vgen({vint(1)}),vgen({vint(1)}),vgen({vint(1)})}) ); doc( R, "[&a [1, &b [2]], *b, *a]", true, vgen({vgen({vint(1),vgen({vint(2)})}),vgen({vint(2)}),vgen({vint(1),vgen({vint(2)})})}) );
    R.family("files");
    for ( auto & a : A ) for ( auto & b : A ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "file_YAML_to_GC of " + show(vmap({{"x",a},{"y",b}})); }, [&]{
        Val v = vmap({{"x",a},{"y",b}}); Choice c; Gen gen(c); string t = gen.document(v);
        string f = "p30_" + std::to_string(getpid()) + ".yaml"; { std::ofstream o(f,std::ios::binary); o << t; }
        GCN h; build( h, PRE[1] ); string const longer = f + ".bak"; bool ok = file_YAML_to_GC( std::string_view(longer.data(),f.size()), h ); unlink( f.c_str() );
        REQ( ok, "refused" ); Val rb = norm_empty(readback(h)), e = norm_empty(collapsed(v)); REQ( rb == e, "got " << show(rb) << " expected " << show(e) ); R.trans();
      } );
    }
  }
}
