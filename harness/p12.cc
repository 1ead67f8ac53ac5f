#include "num.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P12";
  char const * const RULE = "every accessor with every position from 0 to past the end (and near the top of the index range) on every vector length and matrix shape of every kind, every generic vector over an alphabet, and all read/write/grow histories of two accesses; the addressed element, the other elements, the size and the refusal of out-of-range reads are compared with a list / column-major matrix model";

  static vector<unsigned> positions( size_t n ) {
    vector<unsigned> p; for ( unsigned i=0; i<=n+2; ++i ) p.push_back(i);
    for ( unsigned i : { 255u, 256u, 65535u, 65536u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu } ) if ( i > n+2 ) p.push_back(i);
    return p;
  }
  static Val sc( bool b ) { return vbool(b); }
  static Val sc( int_type b ) { return vint(b); }
  static Val sc( long_type b ) { return vlong(b); }
  static Val sc( double b ) { return vreal(b); }
  static Val sc( cplx const & b ) { return vcplx(b.real(),b.imag()); }
  static Val sc( string const & b ) { return vstr(b); }
  static Val sc( string_view b ) { return vstr(string(b)); }
  static Val sc( void * b ) { return vptr(reinterpret_cast<uint64_t>(b)); }

  // value or exception; expected == nullptr means the access must throw
  template <class F> static void rd( char const * name, unsigned i, Val const * e, F && f ) {
    Val r; bool t = throws( [&]{ r = sc( f() ); } );
    REQ( t == ( e == nullptr ), name << "(" << i << ") " << ( t ? string("throws") : "returns " + show(r) + " instead of throwing" ) );
    if ( e ) REQ( r == *e, name << "(" << i << ") = " << show(r) << " expected " << show(*e) );
  }
  static void const_reads( Runner & R, Val const & v ) {
    if ( R.skip() ) return;
    R.run( [&]{ return "read-only access to " + show(v); }, [&]{
      GCN g0; build( g0, v ); GCN const & g = g0; string_view w = "where";
      size_t n = is_vec(v.k) || is_mat(v.k) || v.k == VECTOR ? v.size() : 0;
      for ( unsigned i : positions(n) ) {
        Val el; bool in = i < n; if ( in ) el = elem(v,i);
        auto typed = [&]( int k ) -> Val const * { return in && v.k == k ? &el : nullptr; };
        rd( "get_bool_at", i, typed(VBOOL), [&]{ return bool(g.get_bool_at(i,w)); } );
        rd( "get_int_at", i, typed(VINT), [&]{ return g.get_int_at(i,w); } );
        rd( "get_long_at", i, typed(VLONG), [&]{ return g.get_long_at(i,w); } );
        rd( "get_real_at", i, typed(VREAL), [&]{ return g.get_real_at(i,w); } );
        rd( "get_complex_at", i, typed(VCOMPLEX), [&]{ return g.get_complex_at(i,w); } );
        rd( "get_string_at", i, typed(VSTRING), [&]{ return g.get_string_at(i,w); } );
        // numbers
        { double r = 0; bool t = throws( [&]{ r = g.get_number_at(i,w); } ); double e = 0; bool ok = in && to_double(el,e);
          if ( !ok ) REQ( t, "get_number_at(" << i << ") returns " << r ); else if ( el.k == COMPLEX ) { if ( !t ) REQ( same_num(r,e), "get_number_at" ); } else { REQ( !t, "get_number_at(" << i << ") throws" ); REQ( same_num(r,e), "get_number_at(" << i << ") = " << r ); } }
        { cplx r; bool t = throws( [&]{ r = g.get_complex_number_at(i,w); } ); bool ok = in && is_numeric(el.k);
          REQ( t == !ok, "get_complex_number_at(" << i << ") " << (t?"throws":"does not throw") ); if ( ok ) REQ( same_num(r,as_cplx(el)), "get_complex_number_at(" << i << ")" );
          double re = 0, im = 0; t = throws( [&]{ g.get_complex_number_at(i,re,im,w); } ); REQ( t == !ok, "get_complex_number_at(re,im)" ); if ( ok ) REQ( same_num(cplx(re,im),as_cplx(el)), "get_complex_number_at(re,im)" ); }
        // generic vectors
        bool gv = v.k == VECTOR && in;
        auto gcr = [&]( char const * name, std::function<GCN const & ()> f ) { GCN const * p = nullptr; bool t = throws( [&]{ p = &f(); } ); REQ( t == !gv, name << "(" << i << ") " << (t?"throws":"does not throw") ); if ( gv ) { REQ_EQ( *p, el, name ); REQ( p == &g.get_vector()[i], name << "(" << i << ") is another element" ); } };
        gcr( "[] const", [&]() -> GCN const & { return g[i]; } );
        gcr( "() const", [&]() -> GCN const & { return g(i,w); } );
        gcr( "()", [&]() -> GCN const & { return g0(i,w); } );
        gcr( "get_gc_at const", [&]() -> GCN const & { return g.get_gc_at(i,w); } );
        { void * p = nullptr; bool ok = in && ( v.k == VECTOR || v.k == VPOINTER ) && el.k == POINTER; bool t = throws( [&]{ p = g.get_pointer_at<void*>(i); } ); REQ( t == !ok, "get_pointer_at" ); if ( ok ) REQ( reinterpret_cast<uint64_t>(p) == el.w[0], "get_pointer_at value" ); }
      }
      REQ_EQ( g, v, "container after the reads" );
      R.trans( 14*(n+3) ); R.state(v);
    } );
  }
  // matrices
  template <class T, class M> static void mat_reads( Val const & v, GCN & g, M & m, std::function<T const &(unsigned,unsigned)> cget, std::function<T &(unsigned,unsigned)> mget, T other ) {
    M const & cm = m; unsigned nr = v.nr, nc = v.nc;
    REQ( m.num_rows() == nr && m.num_cols() == nc && m.numRows() == nr && m.numCols() == nc && m.size() == size_t(nr)*nc, "shape" );
    REQ( g.num_rows() == nr && g.num_cols() == nc && g.get_numRows() == nr && g.get_numCols() == nc && g.get_num_elements() == nr*nc, "container shape" );
    vector<unsigned> I, J; for ( unsigned i=0; i<=nr+2; ++i ) I.push_back(i); for ( unsigned j=0; j<=nc+2; ++j ) J.push_back(j);
    for ( unsigned x : { 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x10000u } ) { I.push_back(x); J.push_back(x); }
    for ( unsigned i : I ) for ( unsigned j : J ) {
      bool in = i < nr && j < nc; Val e; if ( in ) e = elem( v, i+size_t(j)*nr );
      auto ck = [&]( char const * name, std::function<T const &()> f ) { Val r; bool t = throws( [&]{ r = sc( f() ); } ); REQ( t == !in, name << "(" << i << "," << j << ") on " << nr << "x" << nc << (t?" throws":" does not throw") ); if ( in ) REQ( r == e, name << "(" << i << "," << j << ") = " << show(r) << " expected " << show(e) ); };
      ck( "mat()", [&]() -> T const & { return m(i,j); } );
      ck( "mat() const", [&]() -> T const & { return cm(i,j); } );
      ck( "get_*_at(i,j) const", [&]() -> T const & { return cget(i,j); } );
      ck( "get_*_at(i,j)", [&]() -> T const & { return mget(i,j); } );
    }
    for ( unsigned j : J ) {
      vector<T> c{ other, other }; bool t = throws( [&]{ cm.get_column(j,c); } ); REQ( t == !(j<nc), "get_column(" << j << ")" );
      if ( j < nc ) { REQ( c.size() == nr, "get_column gives " << c.size() ); for ( unsigned i=0; i<nr; ++i ) REQ( sc(c[i]) == elem(v,i+size_t(j)*nr), "get_column(" << j << ")[" << i << "]" );
        std::unique_ptr<T[]> b( new T[nr?nr:1] ); cm.get_column(j,b.get()); for ( unsigned i=0; i<nr; ++i ) REQ( sc(b[i]) == elem(v,i+size_t(j)*nr), "get_column*" );
        vector<T> d; cm.getColumn(j,d); REQ( d == c || c.size() == d.size(), "getColumn" ); cm.getColumn(j,b.get()); }
      else { std::unique_ptr<T[]> b( new T[1] ); REQ( throws( [&]{ cm.get_column(j,b.get()); } ), "get_column* out of range" ); }
    }
    for ( unsigned i : I ) {
      vector<T> c{ other }; bool t = throws( [&]{ cm.get_row(i,c); } ); REQ( t == !(i<nr), "get_row(" << i << ")" );
      if ( i < nr ) { REQ( c.size() == nc, "get_row gives " << c.size() ); for ( unsigned j=0; j<nc; ++j ) REQ( sc(c[j]) == elem(v,i+size_t(j)*nr), "get_row(" << i << ")[" << j << "]" );
        std::unique_ptr<T[]> b( new T[nc?nc:1] ); cm.get_row(i,b.get()); for ( unsigned j=0; j<nc; ++j ) REQ( sc(b[j]) == elem(v,i+size_t(j)*nr), "get_row*" );
        vector<T> d; cm.getRow(i,d); REQ( d.size() == nc, "getRow" ); cm.getRow(i,b.get()); }
      else { std::unique_ptr<T[]> b( new T[1] ); REQ( throws( [&]{ cm.get_row(i,b.get()); } ), "get_row* out of range" ); }
    }
    if ( nr*nc ) { REQ( m.data() == &m(0,0) && cm.data() == &cm(0,0), "data()" ); for ( size_t k=0; k<size_t(nr)*nc; ++k ) REQ( sc(m.data()[k]) == elem(v,k), "data()[" << k << "]" ); }
    REQ_EQ( g, v, "matrix after the reads" );
    // every write changes exactly one element, through each of the writing paths
    for ( unsigned i=0; i<nr; ++i ) for ( unsigned j=0; j<nc; ++j ) for ( int path=0; path<3; ++path ) {
      Val e = v; Val o = sc(other); size_t k = i+size_t(j)*nr; size_t ws = o.w.size(); for ( size_t t=0; t<ws; ++t ) e.w[k*ws+t] = o.w[t];
      build( g, v ); M & mm = m; (void)mm;
      if ( path == 0 ) mget(i,j) = other; else if ( path == 1 ) const_cast<T&>(cget(i,j)) = other; else { T * p = const_cast<T*>(&cget(0,0)); p[k] = other; }
      REQ_EQ( g, e, "after writing (" + std::to_string(i) + "," + std::to_string(j) + ")" );
    }
  }
  static void matrices( Runner & R, Val const & v ) {
    if ( R.skip() ) return;
    R.run( [&]{ return "matrix access " + show(v); }, [&]{
      GCN g; build( g, v ); GCN const & c = g; string_view w = "where";
      switch ( v.k ) {
      case MINT: mat_reads<int_type>( v, g, g.get_mat_int(), [&]( unsigned i, unsigned j ) -> int_type const & { return c.get_int_at(i,j,w); }, [&]( unsigned i, unsigned j ) -> int_type & { return g.get_int_at(i,j); }, 987 ); break;
      case MLONG: mat_reads<long_type>( v, g, g.get_mat_long(), [&]( unsigned i, unsigned j ) -> long_type const & { return c.get_long_at(i,j,w); }, [&]( unsigned i, unsigned j ) -> long_type & { return g.get_long_at(i,j); }, 987 ); break;
      case MREAL: mat_reads<double>( v, g, g.get_mat_real(), [&]( unsigned i, unsigned j ) -> double const & { return c.get_real_at(i,j,w); }, [&]( unsigned i, unsigned j ) -> double & { return g.get_real_at(i,j); }, 987.5 ); break;
      case MCOMPLEX: mat_reads<cplx>( v, g, g.get_mat_complex(), [&]( unsigned i, unsigned j ) -> cplx const & { return c.get_complex_at(i,j,w); }, [&]( unsigned i, unsigned j ) -> cplx & { return g.get_complex_at(i,j); }, cplx(987,6) ); break;
      }
      R.trans( 4*(v.nr+8)*(v.nc+8) ); R.state(v);
    } );
  }
  // read-only matrix access of the wrong kind throws
  static void wrong_matrix( Runner & R, Val const & v ) {
    if ( R.skip() ) return;
    R.run( [&]{ return "matrix access of other kinds to " + show(v); }, [&]{
      GCN g0; build( g0, v ); GCN const & g = g0;
      for ( unsigned i=0; i<3; ++i ) for ( unsigned j=0; j<3; ++j ) {
        if ( v.k != MINT ) REQ( throws( [&]{ g.get_int_at(i,j,"w"); } ), "get_int_at" );
        if ( v.k != MLONG ) REQ( throws( [&]{ g.get_long_at(i,j,"w"); } ), "get_long_at" );
        if ( v.k != MREAL ) REQ( throws( [&]{ g.get_real_at(i,j,"w"); } ), "get_real_at" );
        if ( v.k != MCOMPLEX ) REQ( throws( [&]{ g.get_complex_at(i,j,"w"); } ), "get_complex_at" );
      }
      REQ_EQ( g, v, "container" ); R.trans(36);
    } );
  }

  // ---- growing accesses
  static int const NG = 9;
  static char const * gname( int op ) { static char const * N[] = { "[]", "get_gc_at", "get_bool_at", "get_int_at", "get_long_at", "get_real_at", "get_complex_at", "get_string_at", "get_pointer_at" }; return N[op]; }
  static int gkind( int op ) { static int K[] = { -1, -1, BOOL, INT, LONG, REAL, COMPLEX, STRING, POINTER }; return K[op]; }
  static bool same_elem( Val const & a, Val const & b ) { return a == b || ( is_numeric(a.k) && is_numeric(b.k) && same_num(as_cplx(a),as_cplx(b)) && b.k >= a.k ); }
  static void grow( GCN & g, Val & v, int op, unsigned i ) {
    size_t n = is_scalar(v.k) ? 1 : is_vec(v.k) || v.k == VECTOR ? v.size() : 0;
    Val got; bool hasgot = true; bool t = throws( [&]{
      switch ( op ) {
      case 0: { GCN & r = g[i]; got = readback(r); r.set_string("w"); break; }
      case 1: { GCN & r = g.get_gc_at(i); got = readback(r); r.set_string("w"); break; }
      case 2: got = vbool( g.get_bool_at(i) ); break;
      case 3: { auto & r = g.get_int_at(i); got = sc(r); r = 4321; break; }
      case 4: { auto & r = g.get_long_at(i); got = sc(r); r = 4321; break; }
      case 5: { auto & r = g.get_real_at(i); got = sc(r); r = 4321.5; break; }
      case 6: { auto & r = g.get_complex_at(i); got = sc(r); r = cplx(43,21); break; }
      case 7: { auto & r = g.get_string_at(i); got = sc(r); r = "w"; break; }
      case 8: if ( v.k == VPOINTER || ( v.k == VECTOR && i < n && v.ch[i].k == POINTER ) ) { auto & r = g.get_pointer_at<void*>(i); got = sc(r); r = reinterpret_cast<void*>(4321); } else hasgot = false; break;
      }
    } );
    if ( !hasgot ) return;
    Val r = readback(g); int ek = gkind(op);
    if ( t ) { REQ( r == v, gname(op) << "(" << i << ") throws and changes " << show(v) << " into " << show(r) ); 
      bool seq = v.k == VECTOR || ( is_vec(v.k) && op > 1 && ( elem_kind(v.k) == ek ) );
      REQ( !seq, gname(op) << "(" << i << ") throws on " << show(v) ); return; }
    REQ( is_vec(r.k) || r.k == VECTOR, gname(op) << "(" << i << ") on " << show(v) << " gives " << show(r) );
    bool seq = is_vec(v.k) || v.k == VECTOR || v.k == NOTYPE || is_scalar(v.k);
    if ( seq && !( op < 2 && v.k != VECTOR && v.k != NOTYPE ) ) {
      size_t m = std::max<size_t>( n, size_t(i)+1 );
      REQ( r.size() == m, gname(op) << "(" << i << ") on " << show(v) << " gives " << r.size() << " elements, expected " << m );
      for ( size_t k=0; k<n; ++k ) if ( k != i ) { Val a = is_scalar(v.k) ? v : elem(v,k); REQ( same_elem( a, elem(r,k) ), gname(op) << "(" << i << ") on " << show(v) << " changed element " << k << " to " << show(elem(r,k)) ); }
      for ( size_t k=n; k<m; ++k ) if ( k != i ) { Val e = elem(r,k); bool zero = e.k == NOTYPE || ( e.k == POINTER && e.w[0] == 0 ) || ( e.k == STRING && e.s[0].empty() ) || ( is_numeric(e.k) && as_cplx(e) == cplx(0,0) ); REQ( zero, gname(op) << "(" << i << "): new element " << k << " is " << show(e) ); }
      // the value seen at i
      if ( i < n ) { Val a = is_scalar(v.k) ? v : elem(v,i); if ( ek < 0 ? v.k == VECTOR : ( a.k == ek || ( is_vec(v.k) && is_numeric(a.k) && is_numeric(ek) && a.k <= ek && ek != BOOL ) ) ) REQ( ek < 0 ? got == a : same_elem(a,got), gname(op) << "(" << i << ") on " << show(v) << " reads " << show(got) ); }
      else REQ( got.k == NOTYPE || ( got.k == POINTER && got.w[0] == 0 ) || ( got.k == STRING && got.s[0].empty() ) || ( is_numeric(got.k) && as_cplx(got) == cplx(0,0) ), gname(op) << "(" << i << ") new element reads " << show(got) );
      // the write landed at i
      Val wv; switch ( op ) { case 0: case 1: case 7: wv = vstr("w"); break; case 2: wv = got; break; case 3: wv = vint(4321); break; case 4: wv = vlong(4321); break; case 5: wv = vreal(4321.5); break; case 6: wv = vcplx(43,21); break; default: wv = vptr(4321); }
      REQ( elem(r,i) == wv, gname(op) << "(" << i << ") on " << show(v) << ": element after the write is " << show(elem(r,i)) );
    }
    v = r;
  }
  static void grow_seq( Runner & R, Val const & v0, vector<std::pair<int,unsigned>> const & s ) {
    if ( R.skip() ) return;
    R.run( [&]{ string d = show(v0); for ( auto & p : s ) d += string(" . ") + gname(p.first) + "(" + std::to_string(p.second) + ")"; return d; }, [&]{
      GCN g; build( g, v0 ); Val v = v0; for ( auto & p : s ) { grow( g, v, p.first, p.second ); R.trans(1); R.state(v); }
    } );
  }
  // the data pointers
  static void pointers( Runner & R, Val const & v ) {
    if ( R.skip() ) return;
    R.run( [&]{ return "data pointers of " + show(v); }, [&]{
      GCN g; build( g, v ); GCN const & c = g; size_t n = is_scalar(v.k) ? 1 : is_vec(v.k) || is_mat(v.k) ? v.size() : 0; int ek = elem_kind(v.k);
      auto ck = [&]( int k, auto get, auto cget, auto other ) {
        bool ok = ek == k && v.k != VECTOR && v.k != MAP;
        decltype(get()) p = nullptr; bool t = throws( [&]{ p = get(); } ); REQ( t == !ok, kname(k) << " pointer " << (t?"throws":"does not throw") );
        decltype(cget()) q = nullptr; bool u = throws( [&]{ q = cget(); } ); REQ( u == !ok, kname(k) << " const pointer" );
        if ( ok && n ) { REQ( p == q, "pointers differ" ); for ( size_t i=0; i<n; ++i ) REQ( sc(p[i]) == ( is_scalar(v.k) ? v : elem(v,i) ), "pointer[" << i << "]" );
          for ( size_t i=0; i<n; ++i ) { auto old = p[i]; p[i] = other; Val e = v; Val o = sc(other); size_t ws = o.w.size(); for ( size_t x=0; x<ws; ++x ) e.w[i*ws+x] = o.w[x]; REQ_EQ( g, e, "write through the pointer" ); p[i] = old; } }
        REQ_EQ( g, v, "container" );
      };
      ck( INT, [&]{ return g.get_int_pointer(); }, [&]{ return c.get_int_pointer(); }, int_type(99) );
      ck( LONG, [&]{ return g.get_long_pointer(); }, [&]{ return c.get_long_pointer(); }, long_type(99) );
      ck( REAL, [&]{ return g.get_real_pointer(); }, [&]{ return c.get_real_pointer(); }, 99.5 );
      ck( COMPLEX, [&]{ return g.get_complex_pointer(); }, [&]{ return c.get_complex_pointer(); }, cplx(9,8) );
      R.trans(8); R.state(v);
    } );
  }

  void enumerate( Runner & R ) {
    vector<Val> U = values_medium();
    R.family("read-only");
    for ( auto & v : U ) { const_reads( R, v ); wrong_matrix( R, v ); pointers( R, v ); }
    for ( auto & v : vectors_of_all_lengths( R.thorough ? 150 : 40 ) ) { const_reads( R, v ); pointers( R, v ); }
    { unsigned N = R.thorough ? 12 : 6; for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned a=0; a<=N; ++a ) for ( unsigned b=0; b<=N; ++b ) { Val v = distinct_mat(k,a,b); const_reads( R, v ); matrices( R, v ); wrong_matrix( R, v ); pointers( R, v ); } }
    for ( auto & v : scalars_edge() ) { const_reads( R, v ); pointers( R, v ); }
    vector<Val> A{ vbool(true), vint(7), vlong(1LL<<40), vreal(2.5), vcplx(1,2), vstr("elem"), vptr(64), vnone(), distinct_vec(VINT,2), vmap({{"k",vint(1)}}) };
    R.family("generic vectors");
    vector<Val> GV; for ( auto & a : A ) { GV.push_back( vgen({a}) ); for ( auto & b : A ) { GV.push_back( vgen({a,b}) ); if ( R.thorough ) for ( auto & c : A ) GV.push_back( vgen({a,b,c}) ); } }
    for ( auto & v : GV ) const_reads( R, v );
    R.family("growing");
    vector<Val> S = values_one_per_shape(); for ( auto & v : GV ) S.push_back(v);
    for ( auto & v : S ) for ( int op=0; op<NG; ++op ) for ( unsigned i=0; i<6; ++i ) {
      grow_seq( R, v, {{op,i}} );
      for ( int o2=0; o2<NG; ++o2 ) for ( unsigned j=0; j<5; ++j ) { grow_seq( R, v, {{op,i},{o2,j}} ); if ( R.thorough && i < 3 && j < 3 ) for ( int o3=0; o3<NG; ++o3 ) for ( unsigned k=0; k<4; ++k ) grow_seq( R, v, {{op,i},{o2,j},{o3,k}} ); }
    }
    for ( auto & v : vectors_of_all_lengths( R.thorough ? 100 : 24 ) ) for ( int op=0; op<NG; ++op ) for ( unsigned i : { 0u, 1u, unsigned(v.size()/2), unsigned(v.size() ? v.size()-1 : 0), unsigned(v.size()), unsigned(v.size()+1), unsigned(v.size()+70), 300u } ) grow_seq( R, v, {{op,i}} );
    R.family("matrix from an empty container");
    for ( unsigned i=0; i<5; ++i ) for ( unsigned j=0; j<5; ++j ) for ( int k=0; k<4; ++k ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "get_*_at(" + std::to_string(i) + "," + std::to_string(j) + ") of an empty container, kind " + std::to_string(k); }, [&]{
        GCN g; switch ( k ) { case 0: g.get_int_at(i,j) = 5; break; case 1: g.get_long_at(i,j) = 5; break; case 2: g.get_real_at(i,j) = 5; break; case 3: g.get_complex_at(i,j) = 5; break; }
        Val r = readback(g); REQ( r.k == MINT+k, "kind" ); REQ( r.nr > i && r.nc > j && r.size() == size_t(r.nr)*r.nc, "shape " << r.nr << " x " << r.nc );
        for ( unsigned a=0; a<r.nr; ++a ) for ( unsigned b=0; b<r.nc; ++b ) REQ( as_cplx(elem(r,a+size_t(b)*r.nr)) == cplx( a==i && b==j ? 5 : 0, 0 ), "element " << a << "," << b );
        R.trans(1);
      } );
    }
    R.family("vectors read and written as one-column matrices");
    for ( int k=VBOOL; k<=VCOMPLEX; ++k ) for ( unsigned n=0; n<=5; ++n ) for ( int t=0; t<4; ++t ) for ( unsigned i : { 0u, 1u, 2u, 3u, 4u, 5u, 6u, 0xFFFFFFFFu } ) for ( unsigned j : { 0u, 1u, 2u, 5u, 0xFFFFFFFFu } ) {
      if ( R.skip() ) continue;
      Val v = distinct_vec(k,n);
      R.run( [&]{ return "mutable get_*_at(" + std::to_string(i) + "," + std::to_string(j) + "), kind " + std::to_string(t) + ", on " + show(v); }, [&]{
        GCN g; build( g, v ); cplx r; bool in = i < n && j == 0;
        bool thrown = throws( [&]{ switch ( t ) { case 0: r = cplx( g.get_int_at(i,j), 0 ); break; case 1: r = cplx( double(g.get_long_at(i,j)), 0 ); break; case 2: r = cplx( g.get_real_at(i,j), 0 ); break; case 3: r = g.get_complex_at(i,j); break; } } );
        REQ( thrown || in, "an element that does not exist is not refused" );
        Val a = readback(g); REQ( a.size() == n && ( a == v || ( is_mat(a.k) && a.nr == n && a.nc == 1 ) ), "content after the access: " << show(a) );
        for ( unsigned x=0; x<n; ++x ) REQ( as_cplx(elem(a,x)) == as_cplx(elem(v,x)), "element " << x << " after the access: " << show(a) );
        if ( !thrown ) {
          REQ( r == as_cplx(elem(v,i)), "element read" );
          switch ( t ) { case 0: g.get_int_at(i,j) = 77; break; case 1: g.get_long_at(i,j) = 77; break; case 2: g.get_real_at(i,j) = 77; break; case 3: g.get_complex_at(i,j) = 77; break; }
          a = readback(g); REQ( a.size() == n, "size after the write" ); for ( unsigned x=0; x<n; ++x ) REQ( as_cplx(elem(a,x)) == ( x == i ? cplx(77,0) : as_cplx(elem(v,x)) ), "element " << x << " after the write: " << show(a) );
        }
        R.trans(2); R.state(a);
      } );
    }
    R.family("large members of every shape");
    for ( auto & v : values_large( R.thorough ? 4100 : 1100 ) ) { const_reads( R, v ); wrong_matrix( R, v ); pointers( R, v ); if ( is_mat(v.k) ) matrices( R, v ); for ( int op=0; op<NG; ++op ) for ( unsigned i : { 0u, unsigned(v.size())/2, unsigned(v.size())-1, unsigned(v.size()), unsigned(v.size())+300 } ) grow_seq( R, v, {{op,i}} ); }
  }
}
