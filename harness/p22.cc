#include "num.hh"
#include <fstream>
#include <iomanip>
#include <unistd.h>
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P22";
  char const * const RULE = "all table shapes up to a bound x column kinds x delimiters x precisions x boundary numbers at every position written and read back; all placements of comment lines (and, for read_formatted_data2, empty lines and parameters) around and between the lines, with and without a final newline, through stream and file overloads; all header/column count mismatches; every text is also compared with an independent rendering";

  static vector<string> split( string const & s, string const & d ) { vector<string> r; string c; bool in = false; for ( char ch : s ) { if ( d.find(ch) != string::npos ) { if ( in ) r.push_back(c); c.clear(); in = false; } else { c += ch; in = true; } } if ( in ) r.push_back(c); return r; }
  static vector<string> lines( string const & s ) { vector<string> r; string c; for ( char ch : s ) if ( ch == '\n' ) { r.push_back(c); c.clear(); } else c += ch; if ( !c.empty() ) r.push_back( c + "<no newline>" ); return r; }
  static string fmt( double x, int prec ) { char b[64]; snprintf( b, sizeof b, "%.*g", prec, x ); return b; }
  struct Table { vec_string_type h; vector<Val> c; };     // columns: typed vectors
  static string render( Table const & t, char d, int prec ) {
    string s; if ( t.h.empty() ) return s;
    for ( size_t j=0; j<t.h.size(); ++j ) { if ( j ) s += d; s += t.h[j]; } s += '\n';
    for ( size_t i=0; i<t.c[0].size(); ++i ) { for ( size_t j=0; j<t.c.size(); ++j ) { if ( j ) s += d; s += fmt( as_real( elem(t.c[j],i) ), prec ); } s += '\n'; }
    return s;
  }
  static Val rounded( Val const & c, int prec ) { Val r; r.k = VREAL; for ( size_t i=0; i<c.size(); ++i ) r.w.push_back( dbits( strtod( fmt( as_real( elem(c,i) ), prec ).c_str(), nullptr ) ) ); return r; }
  static void same_cols( Val const & got, Val const & exp, string const & w ) { REQ( got.k == VREAL && got.size() == exp.size(), w << ": got " << show(got) << " expected " << show(exp) ); for ( size_t i=0; i<exp.size(); ++i ) REQ( same_num( bitsd(got.w[i]), bitsd(exp.w[i]) ) && std::signbit(bitsd(got.w[i])) == std::signbit(bitsd(exp.w[i])), w << ": got " << show(got) << " expected " << show(exp) ); }
  static void expect1( GCN const & g, Table const & t, int prec ) {
    Val r = readback(g); REQ( r.k == MAP && r.s == vector<string>({"data","headers"}), "result is " << show(r) );
    Val const & h = *r.find("headers"); REQ( h.k == VSTRING && h.s == vector<string>(t.h), "headers are " << show(h) );
    Val const & d = *r.find("data"); REQ( d.k == VECTOR && d.ch.size() == t.c.size(), "data is " << show(d) );
    for ( size_t j=0; j<t.c.size(); ++j ) same_cols( d.ch[j], rounded(t.c[j],prec), "column " + std::to_string(j) );
  }
  static void expect2( GCN const & g, Table const & t, int prec ) {
    Val r = readback(g); REQ( r.k == MAP && r.s == vector<string>({"data","headers"}), "result is " << show(r) );
    Val const & h = *r.find("headers"); REQ( h.k == VSTRING && h.s == vector<string>(t.h), "headers are " << show(h) );
    Val const & d = *r.find("data"); REQ( d.k == MAP && d.ch.size() == t.c.size(), "data is " << show(d) );
    for ( size_t j=0; j<t.c.size(); ++j ) { Val const * c = d.find(t.h[j]); REQ( c, "column " << t.h[j] << " missing" ); same_cols( *c, rounded(t.c[j],prec), "column " + t.h[j] ); }
  }
  static string scratch() { return "t" + std::to_string(getpid()) + ".txt"; }  // check.py runs the harness in a directory it removes afterwards

  static void dirty( GCN & g, int i ) { switch ( i % 4 ) { case 0: break; case 1: g.set_int(5); break; case 2: g["data"] = 7; g["zzz"] = "old"; break; case 3: g["headers"].set_vec_string(3); g["data"].set_vector(5); break; } }

  static void roundtrip( Runner & R, Table const & t, char d, string const & rd, int prec, int var ) {
    if ( R.skip() ) return;
    R.run( [&]{ string s = "delimiter " + show_bytes(string(1,d)) + " read with " + show_bytes(rd) + " precision " + std::to_string(prec); for ( size_t j=0; j<t.h.size(); ++j ) s += " " + t.h[j] + "=" + show(t.c[j]); return s; }, [&]{
      for ( auto & c : t.c ) R.state(c);
      GCN g; g["headers"] = t.h; vector_type & cols = g["data"].set_vector( unsigned(t.c.size()) ); for ( size_t j=0; j<t.c.size(); ++j ) build( cols[j], t.c[j] );
      Val before = readback(g); string exp = render( t, d, prec );
      { std::ostringstream o; o << std::setprecision(prec); GCN const & cg = g; REQ( &cg.write_formatted_data( o, d ) == &cg, "return" ); REQ( o.str() == exp, "write_formatted_data wrote " << show_bytes(o.str()) << " expected " << show_bytes(exp) ); }
      { std::ostringstream o; o << std::setprecision(prec); write_table( t.h, cols, o, d ); REQ( o.str() == exp, "write_table wrote " << show_bytes(o.str()) << " expected " << show_bytes(exp) ); }
      { std::ostringstream o; o << std::setprecision(prec); g.writeFormattedData( o, d ); writeTable( t.h, cols, o, d ); REQ( o.str() == exp+exp, "deprecated writers" ); }
      if ( d == '\t' ) { std::ostringstream o; o << std::setprecision(prec); g.write_formatted_data( o ); write_table( t.h, cols, o ); REQ( o.str() == exp+exp, "default delimiter" ); }
      REQ_EQ( g, before, "writing changed the container" );
      R.trans(4);
      for ( int nl=1; nl>=0; --nl ) {
        string txt = exp; if ( !nl ) { if ( txt.empty() ) continue; txt.pop_back(); }
        { GCN r; dirty(r,var); std::istringstream i(txt); REQ( &r.read_formatted_data( i, "#%", rd.c_str() ) == &r, "return" ); expect1( r, t, prec ); }
        { GCN r; dirty(r,var+1); std::istringstream i(txt); r.read_formatted_data2( i, "#%", rd.c_str() ); if ( t.h.size() ) expect2( r, t, prec ); }
        if ( var % 3 == 0 ) {
          string f = scratch(); { std::ofstream o(f); o << txt; }
          { GCN r; dirty(r,var+2); r.read_formatted_data( f.c_str(), "#%", rd.c_str() ); expect1( r, t, prec ); }
          { GCN r; dirty(r,var+3); r.read_formatted_data2( f.c_str(), "#%", rd.c_str() ); if ( t.h.size() ) expect2( r, t, prec ); }
          { GCN r; r.readFormattedData( f.c_str(), "#%", rd.c_str() ); expect1( r, t, prec ); std::istringstream i(txt); r.readFormattedData( i, "#%", rd.c_str() ); expect1( r, t, prec ); r.readFormattedData2( f.c_str(), "#%", rd.c_str() ); if ( t.h.size() ) expect2( r, t, prec ); std::istringstream j(txt); r.readFormattedData2( j, "#%", rd.c_str() ); if ( t.h.size() ) expect2( r, t, prec ); }
          bool plain = d == ' ' || d == '\t'; for ( auto & h : t.h ) if ( h.find_first_of(" \t") != string::npos ) plain = false;
          if ( plain ) { GCN r; r.read_formatted_data( f.c_str() ); expect1( r, t, prec ); std::istringstream i(txt); r.read_formatted_data( i ); expect1( r, t, prec ); std::istringstream j(txt); r.read_formatted_data2( j ); if ( t.h.size() ) expect2( r, t, prec ); }
          R.trans(8);
        }
        R.trans(2);
      }
      // the same numbers as a matrix
      bool allreal = true; for ( auto & c : t.c ) allreal = allreal && c.k == VREAL;
      if ( allreal && !t.c.empty() ) {
        unsigned nr = unsigned(t.c[0].size()), nc = unsigned(t.c.size()); GCN m; m["headers"] = t.h; mat_real_type & M = m["data"].set_mat_real( nr, nc ); for ( unsigned i=0; i<nr; ++i ) for ( unsigned j=0; j<nc; ++j ) M(i,j) = bitsd( t.c[j].w[i] );
        Val mb = readback(m);
        { std::ostringstream o; o << std::setprecision(prec); m.write_formatted_data( o, d ); REQ( o.str() == exp, "write_formatted_data of the matrix wrote " << show_bytes(o.str()) << " expected " << show_bytes(exp) ); }
        { std::ostringstream o; o << std::setprecision(prec); write_table( t.h, M, o, d ); writeTable( t.h, M, o, d ); REQ( o.str() == exp+exp, "write_table of the matrix wrote " << show_bytes(o.str()) ); }
        REQ_EQ( m, mb, "writing changed the container" ); R.trans(3);
      }
    } );
  }
  static void formatted( Runner & R, Table const & t, int prec ) {
    if ( R.skip() ) return;
    R.run( [&]{ string s = "formatted, precision " + std::to_string(prec); for ( size_t j=0; j<t.h.size(); ++j ) s += " " + t.h[j] + "=" + show(t.c[j]); return s; }, [&]{
      vector_type cols( t.c.size() ); for ( size_t j=0; j<t.c.size(); ++j ) build( cols[j], t.c[j] );
      vector<string> outs;
      { std::ostringstream o; o << std::setprecision(prec); write_table_formatted( t.h, cols, o ); outs.push_back(o.str()); }
      { std::ostringstream o; o << std::setprecision(prec); writeTableFormatted( t.h, cols, o ); outs.push_back(o.str()); }
      bool allreal = true; for ( auto & c : t.c ) allreal = allreal && c.k == VREAL;
      if ( allreal && !t.c.empty() ) { unsigned nr = unsigned(t.c[0].size()), nc = unsigned(t.c.size()); mat_real_type M( nr, nc ); for ( unsigned i=0; i<nr; ++i ) for ( unsigned j=0; j<nc; ++j ) M(i,j) = bitsd( t.c[j].w[i] );
        std::ostringstream o; o << std::setprecision(prec); write_table_formatted( t.h, M, o ); outs.push_back(o.str()); std::ostringstream p; p << std::setprecision(prec); writeTableFormatted( t.h, M, p ); outs.push_back(p.str()); }
      for ( auto & o : outs ) {
        R.trans();
        if ( t.h.empty() ) { REQ( o.empty(), "output for an empty table" ); continue; }
        vector<string> L = lines(o); size_t nr = t.c[0].size(); REQ( L.size() == nr+3, L.size() << " lines: " << show_bytes(o) );
        REQ( L[1].find_first_not_of('-') == string::npos && !L[1].empty() && L[nr+2] == L[1], "rules: " << show_bytes(o) );
        REQ( split( L[0], " " ) == vector<string>(t.h), "header line " << L[0] );
        bool fits = true; size_t width = 0; for ( auto & h : t.h ) width = std::max( width, h.size() ); size_t ml = width < 8 ? 8 : width > 20 ? 20 : width; if ( width > ml ) fits = false;
        for ( size_t i=0; i<nr; ++i ) { vector<string> e; for ( auto & c : t.c ) { e.push_back( fmt( as_real( elem(c,i) ), prec ) ); if ( e.back().size() > ml ) fits = false; } REQ( split( L[i+2], " " ) == e, "row " << i << ": " << L[i+2] ); }
        if ( fits ) { // every line has the same length and every cell ends at the same column
          for ( size_t i=0; i<nr+3; ++i ) REQ( L[i].size() == L[0].size(), "line " << i << " is not aligned: " << show_bytes(o) );
          for ( size_t i=0; i<nr+2; ++i ) if ( i != 1 ) for ( size_t j=0; j<t.h.size(); ++j ) { size_t end = (j+1)*(ml+1)-1; REQ( end == L[i].size() || ( end < L[i].size() && L[i][end] == ' ' ), "cell " << j << " of line " << i << ": " << show_bytes(o) ); REQ( L[i][end-1] != ' ', "cell " << j << " of line " << i << " is not right aligned: " << show_bytes(o) ); }
        }
      }
    } );
  }
  // text with comment lines in the gaps
  static void commented( Runner & R, Table const & t, char d, vector<vector<string>> const & gaps, bool nl, bool blanks, Val const & pars, string const & cc ) {
    if ( R.skip() ) return;
    vector<string> L = lines( render(t,d,17) ); string txt; for ( size_t i=0; i<=L.size(); ++i ) { for ( auto & g : gaps[i] ) txt += g + "\n"; if ( i < L.size() ) txt += L[i] + "\n"; }
    if ( !nl && !txt.empty() ) txt.pop_back();
    R.run( [&]{ return "read " + show_bytes(txt) + " comments " + cc; }, [&]{
      string rd = string(1,d);
      if ( !blanks ) { GCN r; std::istringstream i(txt); r.read_formatted_data( i, cc.c_str(), rd.c_str() ); expect1( r, t, 17 ); }
      { GCN r, p; std::istringstream i(txt); r.read_formatted_data2( i, cc.c_str(), rd.c_str(), &p ); expect2( r, t, 17 ); REQ_EQ( p, pars, "parameters" ); }
      { GCN r; std::istringstream i(txt); r.read_formatted_data2( i, cc.c_str(), rd.c_str(), nullptr ); expect2( r, t, 17 ); }
      R.trans(3);
    } );
  }
  static Val mkcol( int k, unsigned n, unsigned off ) { vector<Val> s; for ( unsigned i=0; i<n; ++i ) switch ( k ) { case VBOOL: s.push_back( vbool( (i+off)%3 == 0 ) ); break; case VINT: s.push_back( vint( int(i*10+off)-3 ) ); break; case VLONG: s.push_back( vlong( int64_t(i)*100000000000LL - off ) ); break; default: s.push_back( vreal( i + off*0.125 - 1 ) ); } return vvec(k,s); }

  void enumerate( Runner & R ) {
    unsigned N = R.thorough ? 5 : 4, MR = R.thorough ? 6 : 4;
    vector<std::pair<char,string>> D{ {'\t',"\t"}, {' '," "}, {' '," \t"}, {'\t'," \t"}, {',',","}, {',',", "}, {';',";"}, {'|',"|\t"}, {'\t',"\t,"} };
    vector<string> names{ "x", "speed%", "a#b", "time[s]", "h", "x2", "longer_header_than_twenty_characters" };
    R.family("shapes and kinds"); int var = 0;
    for ( unsigned nc=0; nc<=N; ++nc ) for ( unsigned nr=0; nr<=MR; ++nr ) {
      if ( nc == 0 && nr ) continue;
      size_t combos = 1; for ( unsigned j=0; j<nc; ++j ) combos *= 4;
      for ( size_t k=0; k<combos; ++k ) {
        Table t; size_t kk = k; for ( unsigned j=0; j<nc; ++j ) { t.h.push_back( names[j] ); t.c.push_back( mkcol( kk%4 == 0 ? VREAL : kk%4 == 1 ? VBOOL : kk%4 == 2 ? VINT : VLONG, nr, j ) ); kk /= 4; }
        for ( auto & d : D ) { ++var; if ( nc >= 4 && !R.thorough && var % 5 ) continue; roundtrip( R, t, d.first, d.second, var%2 ? 17 : 6, var ); }
        formatted( R, t, 6 ); if ( nc < 4 ) formatted( R, t, 10 );
      }
    }
    R.family("numbers");
    for ( double x : dense_reals(R.thorough) ) for ( int prec : { 3, 6, 17, 20 } ) {
      ++var; Table t; t.h = { "a", "b" }; t.c = { vvec(VREAL,{vreal(x),vreal(1)}), vvec(VREAL,{vreal(2),vreal(x)}) };
      roundtrip( R, t, D[var%D.size()].first, D[var%D.size()].second, prec, var );
      if ( prec == 6 ) formatted( R, t, prec );
    }
    for ( auto x : dense_ints(false) ) { ++var; Table t; t.h = { "a" }; t.c = { vvec(VLONG,{vlong(x)}) }; roundtrip( R, t, '\t', "\t", 17, var ); if ( x == int32_t(x) ) { t.c = { vvec(VINT,{vint(int32_t(x))}) }; roundtrip( R, t, ',', ",", 17, var ); } }
    R.family("many rows and columns");
    for ( unsigned n : { 10u, 33u, 100u, 255u, 256u, 257u, 300u, 1025u, R.thorough ? 65537u : 4097u } ) { ++var; Table t; t.h = { "a", "b" }; t.c = { mkcol(VREAL,n,1), mkcol(VINT,n,2) }; roundtrip( R, t, ' ', " ", 17, var ); formatted( R, t, 6 ); Table w; for ( unsigned j=0; j<n; ++j ) { w.h.push_back( "h" + std::to_string(j) ); w.c.push_back( mkcol(VREAL,2,j) ); } roundtrip( R, w, '\t', "\t", 17, var*3 ); formatted( R, w, 6 ); }
    R.family("headers");
    for ( unsigned len=1; len<=40; ++len ) for ( unsigned nc=1; nc<=3; ++nc ) { ++var; Table t; for ( unsigned j=0; j<nc; ++j ) { t.h.push_back( string( j == nc-1 ? len : 1+j, char('a'+j) ) ); t.c.push_back( mkcol(VREAL,2,j) ); } formatted( R, t, 6 ); roundtrip( R, t, '\t', "\t", 17, var ); }
    for ( int c=1; c<256; ++c ) if ( c != '\n' ) for ( string pre : { "", "h" } ) for ( string post : { "", "x" } ) {
      string h = pre + char(c) + post;
      for ( char d : { ',', '\t' } ) { if ( c == d ) continue; ++var;
        Table t; t.h = { "first", h }; t.c = { mkcol(VREAL,2,0), mkcol(VREAL,2,1) }; if ( !( c == '\r' && pre.empty() ) ) roundtrip( R, t, d, string(1,d), 17, var );
        if ( ( pre.empty() && ( c == '#' || c == '%' || c == ' ' || c == '\t' ) ) || c == '\r' ) continue;
        t.h = { h, "second" }; roundtrip( R, t, d, string(1,d), 17, var ); } }
    R.family("comment lines");
    { vector<vector<string>> G{ {}, {"# comment"}, {"%"}, {"# a,b 1,2"," # indented"}, {"\t%x"," \t #"}, {"#! p = 1.5"}, {"%! name = some text","#"} };
      size_t ng = R.thorough ? G.size() : G.size();
      for ( unsigned nr=0; nr<=2; ++nr ) {
        Table t; t.h = { "x%", "y" }; t.c = { mkcol(VREAL,nr,1), mkcol(VREAL,nr,2) }; unsigned gaps = nr+2; size_t tot = 1; for ( unsigned i=0; i<gaps; ++i ) tot *= ng;
        for ( size_t k=0; k<tot; ++k ) for ( int nl=0; nl<2; ++nl ) {
          vector<vector<string>> g; size_t kk = k; Val p = vnone(); for ( unsigned i=0; i<gaps; ++i ) { size_t q = kk % ng; kk /= ng; g.push_back( G[q] ); if ( q == 5 || q == 6 ) { if ( p.k != MAP ) { p = Val(); p.k = MAP; } if ( q == 5 ) p.put("p") = vreal(1.5); else p.put("name") = vstr("some text"); } }
          commented( R, t, ',', g, nl, false, p, "#%" );
        }
      }
      // empty lines (read_formatted_data2)
      vector<vector<string>> B{ {}, {""}, {"","# c",""}, {"#!k=-3e2","","#! k2 = v"} };
      for ( unsigned nr=0; nr<=3; ++nr ) {
        Table t; t.h = { "x", "y#" }; t.c = { mkcol(VREAL,nr,1), mkcol(VREAL,nr,2) }; unsigned gaps = nr+2; size_t tot = 1; for ( unsigned i=0; i<gaps; ++i ) tot *= B.size();
        for ( size_t k=0; k<tot; ++k ) for ( int nl=0; nl<2; ++nl ) {
          vector<vector<string>> g; size_t kk = k; Val p = vnone(); bool bl = false; for ( unsigned i=0; i<gaps; ++i ) { size_t q = kk % B.size(); kk /= B.size(); g.push_back( B[q] ); if ( q ) bl = true; if ( q == 3 ) { p.k = MAP; p.put("k") = vreal(-300); p.put("k2") = vstr("v"); } }
          commented( R, t, '\t', g, nl, bl, p, "#" );
        }
      }
      // long runs of empty and comment lines, long comment lines
      for ( unsigned pos=0; pos<4; ++pos ) for ( unsigned n : { 3u,4u,5u,6u,7u,8u,9u,10u,15u,16u,17u,31u,33u,64u,100u,255u,256u,257u,1000u } ) for ( int w=0; w<4; ++w ) for ( int nl=0; nl<2; ++nl ) {
        Table t; t.h = { "x", "y" }; t.c = { mkcol(VREAL,2,1), mkcol(VREAL,2,2) }; vector<vector<string>> g(4); bool bl = false;
        if ( w == 3 ) g[pos] = { "#" + string(n,'-') }; else for ( unsigned i=0; i<n; ++i ) { bool e = w == 1 || ( w == 2 && i%3 == 0 ); bl |= e; g[pos].push_back( e ? string() : "# line " + std::to_string(i) ); }
        commented( R, t, ' ', g, nl, bl, vnone(), "#%" );
      }
      // every comment character set
      for ( string cc : { "#", "%", "!", "#%", "/*", "c" } ) for ( char c : cc ) for ( unsigned pos=0; pos<4; ++pos ) {
        Table t; t.h = { "x", "y" }; t.c = { mkcol(VREAL,2,1), mkcol(VREAL,2,2) }; vector<vector<string>> g(4); g[pos] = { string(1,c)+" 3 4", string(1,c) };
        commented( R, t, ' ', g, true, false, vnone(), cc ); commented( R, t, ' ', g, false, false, vnone(), cc );
      }
      // parameters
      for ( auto & kv : vector<std::pair<string,Val>>{ {"1",vreal(1)},{"-2.5e-3",vreal(-2.5e-3)},{"text",vstr("text")},{"two words",vstr("two words")},{"0.1",vreal(0.1)},{"YES",vstr("YES")},{"+7",vreal(7)},{"x1",vstr("x1")},{"1e300",vreal(1e300)} } )
        for ( string lhs : { "a", "two words", "x_1" } ) for ( string sp1 : { "", " ", "\t ", "   " } ) for ( string sp2 : { "", " ", " \t" } ) for ( string sp3 : { "", "  " } ) {
          Table t; t.h = { "x" }; t.c = { mkcol(VREAL,1,1) }; vector<vector<string>> g(3); g[0] = { "#!" + sp1 + lhs + sp2 + "=" + sp2 + kv.first + sp3 }; Val p = vmap({{lhs,kv.second}});
          commented( R, t, ' ', g, true, false, p, "#%" );
        }
    }
    for ( unsigned len=1; len<=80; ++len ) for ( int w=0; w<2; ++w ) { // long names and values
      string x; for ( unsigned i=0; i<len; ++i ) x += char('a'+(i*7)%26);
      Table t; t.h = { "x" }; t.c = { mkcol(VREAL,1,1) }; vector<vector<string>> g(3); g[1] = { w ? "#! " + x + " = 2.5" : "#! n = " + x, "#!z=1" }; Val p = w ? vmap({{x,vreal(2.5)},{"z",vreal(1)}}) : vmap({{"n",vstr(x)},{"z",vreal(1)}});
      commented( R, t, ' ', g, true, false, p, "#%" );
    }
    R.family("parameters into a container in use");
    { vector<Val> old = values_one_per_shape(); old.push_back( vmap({{"p",vint(1)},{"q",vstr("keep")}}) ); old.push_back( vmap({{"p",vmap({{"x",vint(1)}})}}) ); old.push_back( vmap({{"p",vstr("old")},{"r",vreal(7)}}) ); old.push_back( vmap({{"p",distinct_vec(VREAL,3)},{"r",vgen({vint(1)})}}) );
      for ( auto & o : old ) for ( string val : { "1.5", "text" } ) for ( int n=1; n<=3; ++n ) for ( int tight=0; tight<2; ++tight ) {
        if ( R.skip() ) continue;
        R.run( [&]{ return "p = " + val + " and " + std::to_string(n-1) + " more into " + show(o); }, [&]{
          string txt = ( tight ? "#!p=" : "#! p = " ) + val + "\n"; for ( int i=1; i<n; ++i ) txt += "#! " + string(1,char('p'+i)) + " = " + std::to_string(i) + "\n"; txt += "h\n2\n";
          Val e = o; if ( e.k != MAP ) { e = Val(); e.k = MAP; } e.put("p") = val == "text" ? vstr(val) : vreal(1.5); for ( int i=1; i<n; ++i ) e.put(string(1,char('p'+i))) = vreal(i);
          GCN g, q; build( q, o ); std::istringstream i(txt); g.read_formatted_data2( i, "#%", " \t", &q ); REQ_EQ( q, e, "parameters" ); Table t; t.h = {"h"}; t.c = { vvec(VREAL,{vreal(2)}) }; expect2( g, t, 17 ); R.trans(1);
        } );
      } }
    R.family("consecutive tables");
    for ( unsigned a=0; a<=3; ++a ) for ( unsigned b=0; b<=3; ++b ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return std::to_string(a) + " rows, blank line, " + std::to_string(b) + " rows"; }, [&]{
        Table s, t; s.h = { "a", "b" }; s.c = { mkcol(VREAL,a,1), mkcol(VREAL,a,2) }; t.h = { "c", "d", "e" }; t.c = { mkcol(VREAL,b,3), mkcol(VREAL,b,4), mkcol(VREAL,b,5) };
        std::istringstream i( render(s,' ',17) + "\n" + render(t,' ',17) ); GCN g; g.read_formatted_data( i ); expect1( g, s, 17 ); g.read_formatted_data( i ); expect1( g, t, 17 ); R.trans(2);
      } );
    }
    R.family("refused");
    for ( unsigned nh=0; nh<=3; ++nh ) for ( unsigned nc=0; nc<=3; ++nc ) for ( unsigned nr=0; nr<=2; ++nr ) for ( unsigned rag=0; rag<3; ++rag ) {
      if ( nh == nc && ( rag == 0 || nc < 2 ) ) continue;
      if ( R.skip() ) continue;
      R.run( [&]{ return std::to_string(nh) + " headers, " + std::to_string(nc) + " columns, " + std::to_string(nr) + " rows, ragged " + std::to_string(rag); }, [&]{
        GCN g; vec_string_type h; for ( unsigned i=0; i<nh; ++i ) h.push_back( "h" + std::to_string(i) ); g["headers"] = h; vector_type & c = g["data"].set_vector(nc); for ( unsigned j=0; j<nc; ++j ) build( c[j], mkcol( VREAL, nr + ( rag && j == nc-rag%nc-( rag == 2 && nc == 2 ? 0 : 0 ) ? 1 : 0 ), j ) );
        bool ragged = false; for ( unsigned j=1; j<nc; ++j ) ragged = ragged || c[j].get_num_elements() != c[0].get_num_elements();
        if ( nh == nc && !ragged ) return;
        std::ostringstream o; Val b = readback(g);
        REQ( throws( [&]{ g.write_formatted_data(o); } ), "write_formatted_data accepted" );
        REQ( throws( [&]{ write_table(h,c,o); } ), "write_table accepted" );
        REQ( throws( [&]{ write_table_formatted(h,c,o); } ), "write_table_formatted accepted" );
        if ( nh != nc ) { mat_real_type M(nr,nc); REQ( throws( [&]{ write_table(h,M,o); } ), "write_table accepted" ); REQ( throws( [&]{ write_table_formatted(h,M,o); } ), "write_table_formatted accepted" ); }
        REQ_EQ( g, b, "container changed" ); R.trans(5);
      } );
    }
    for ( unsigned nc=1; nc<=5; ++nc ) for ( unsigned row=0; row<3; ++row ) for ( unsigned n=1; n<=7; ++n ) for ( string val : { "", "0", "1", "-2.5", "nan", "1e5", "0.0", "#", "-" } ) for ( int end=0; end<2; ++end ) {
      if ( n == nc || ( val == "#" && n == 1 ) || R.skip() ) continue;
      R.run( [&]{ return "row " + std::to_string(row) + " has " + std::to_string(n) + " of " + std::to_string(nc) + " values " + val + ( end ? " at the end" : "" ); }, [&]{
        string txt = "#c\n"; for ( unsigned j=0; j<nc; ++j ) txt += "h" + std::to_string(j) + " "; txt += "\n"; for ( unsigned i=0; i<3; ++i ) { for ( unsigned j=0; j<( i == row ? n : nc ); ++j ) txt += ( i == row && !val.empty() && ( !end || j+1 == n ) && !( val == "#" && j == 0 ) ? val : std::to_string(i+j) ) + " "; txt += "\n"; }
        { GCN g; std::istringstream i(txt); REQ( throws( [&]{ g.read_formatted_data(i); } ), "read_formatted_data accepted " << show_bytes(txt) ); }
        { GCN g; std::istringstream i(txt); REQ( throws( [&]{ g.read_formatted_data2(i); } ), "read_formatted_data2 accepted " << show_bytes(txt) ); } R.trans(2);
      } );
    }
    for ( auto & v : values_one_per_shape() ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "write_formatted_data of " + show(v); }, [&]{
        std::ostringstream o; GCN g; build(g,v); REQ( throws( [&]{ g.write_formatted_data(o); } ), "accepted" );
        GCN m; build( m["headers"], v ); REQ( throws( [&]{ m.write_formatted_data(o); } ), "accepted without data" );
        GCN d; build( d["data"], v ); REQ( throws( [&]{ d.write_formatted_data(o); } ), "accepted without headers" );
        GCN b; b["headers"] = vec_string_type{"a"}; vector_type & c = b["data"].set_vector(1); build( c[0], v );
        bool num = ( is_vec(v.k) && v.k != VPOINTER && v.k != VSTRING && v.k != VCOMPLEX );
        bool elems = v.size() > 0 && v.k != NOTYPE;
        if ( elems && !num && ( is_scalar(v.k) || is_vec(v.k) || v.k == MAP ) ) REQ( throws( [&]{ b.write_formatted_data(o); } ), "accepted a column that is not a vector of numbers" );
        R.trans(4);
      } );
    }
    for ( string txt : { "", "\n", "# only a comment", "#\n%\n", "\n\n", "#", " ", "h", "h\n", "h\n\n" } ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "degenerate text " + show_bytes(txt); }, [&]{
        { GCN g; std::istringstream i(txt); throws( [&]{ g.read_formatted_data(i); } ); Val r = readback(g); if ( txt[0] == 'h' ) { Table t; t.h = {"h"}; t.c = { mkcol(VREAL,0,0) }; expect1( g, t, 17 ); } else if ( r.k == MAP && r.find("headers") ) REQ( r.find("headers")->s.empty(), "headers " << show(r) ); }
        { GCN g; std::istringstream i(txt); throws( [&]{ g.read_formatted_data2(i); } ); Val r = readback(g); if ( txt[0] == 'h' ) { Table t; t.h = {"h"}; t.c = { mkcol(VREAL,0,0) }; expect2( g, t, 17 ); } else if ( r.k == MAP && r.find("headers") ) REQ( r.find("headers")->s.empty(), "headers " << show(r) ); }
        REQ( throws( [&]{ GCN g; g.read_formatted_data("/nonexistent/file"); } ), "missing file accepted" ); REQ( throws( [&]{ GCN g; g.read_formatted_data2("/nonexistent/file"); } ), "missing file accepted" );
        R.trans(4);
      } );
    }
  }
}
