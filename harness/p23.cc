#include "text.hh"
#include "GenericContainer/GenericContainerInterface_matlab.hh"
#include <iostream>
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P23";
  char const * const RULE = "the MEX interface compiled against a stand-in for MATLAB's matrix API: every MATLAB class x complexity x all shapes up to a bound with distinct and boundary elements, all cells/structs/struct arrays up to a size over a leaf universe and their nestings, all sparsity patterns of real, complex and logical sparse matrices up to 3x3, char and string values: converted to containers in several earlier states; every container of the kind/shape/nesting/boundary universes converted to MATLAB and back; each direction against an independent statement of what the value denotes";

  // ---------------------------------------------------------------- MATLAB value -> what the container must hold
  static Val num( mxArray const * m, mwSize i, bool im=false ) {
    void const * p = im ? m->im.get() : m->re.get();
    switch ( m->cls ) {
    case mxLOGICAL_CLASS: return vbool( static_cast<bool const*>(p)[i] );
    case mxINT8_CLASS: return vlong( static_cast<int8_t const*>(p)[i] ); case mxUINT8_CLASS: return vlong( static_cast<uint8_t const*>(p)[i] );
    case mxINT16_CLASS: return vlong( static_cast<int16_t const*>(p)[i] ); case mxUINT16_CLASS: return vlong( static_cast<uint16_t const*>(p)[i] );
    case mxINT32_CLASS: return vlong( static_cast<int32_t const*>(p)[i] ); case mxUINT32_CLASS: return vlong( static_cast<uint32_t const*>(p)[i] );
    case mxINT64_CLASS: return vlong( static_cast<int64_t const*>(p)[i] ); case mxUINT64_CLASS: return vlong( int64_t(static_cast<uint64_t const*>(p)[i]) );
    case mxSINGLE_CLASS: return vreal( double(static_cast<float const*>(p)[i]) );
    case mxDOUBLE_CLASS: return vreal( static_cast<double const*>(p)[i] );
    default: return vnone();
    }
  }
  static double asd( mxArray const * m, mwSize i, bool im ) {
    if ( m->cls == mxUINT64_CLASS ) return double( static_cast<uint64_t const*>( static_cast<void const*>( im ? m->im.get() : m->re.get() ) )[i] );
    Val v = num(m,i,im); return v.k == LONG ? double(int64_t(v.w[0])) : bitsd(v.w[0]);
  }
  static string text( mxArray const * m ) { string s; for ( mwSize i=0; i<m->n(); ++i ) s += char(mxGetChars(m)[i]); return s; }
  static Val expect( mxArray const * m ) {
    if ( !m ) return vnone();
    if ( m->cls == mxCELL_CLASS ) { vector<Val> e; for ( auto c : m->ch ) e.push_back( expect(c) ); return vgen(e); }
    if ( m->cls == mxSTRUCT_CLASS ) {
      Val r = vmap({}); size_t nf = m->fields.size();
      for ( size_t f=0; f<nf; ++f ) {
        if ( m->n() == 1 ) { r.put(m->fields[f]) = expect(m->ch[f]); continue; }
        vector<Val> e; for ( size_t i=0; i<m->n(); ++i ) e.push_back( expect(m->ch[i*nf+f]) ); r.put(m->fields[f]) = vgen(e);
      }
      return r;
    }
    if ( m->cls == mxCHAR_CLASS ) return vstr(text(m));
    if ( m->cls == mxOPAQUE_CLASS ) return vstr(m->opaque);
    if ( m->sparse ) {
      vector<Val> jc, ir, v; size_t nc = mxGetN(m), nnz = m->jc[nc];
      for ( size_t i=0; i<=nc; ++i ) jc.push_back( vlong(int64_t(m->jc[i])) );
      for ( size_t i=0; i<nnz; ++i ) ir.push_back( vlong(int64_t(m->ir[i])) );
      for ( size_t i=0; i<nnz; ++i ) v.push_back( m->cx ? vcplx( asd(m,i,false), asd(m,i,true) ) : m->cls == mxLOGICAL_CLASS ? vreal( m->re[i] ? 1 : 0 ) : num(m,i) );
      return vmap({ {"ir",vvec(VLONG,ir)}, {"jc",vvec(VLONG,jc)}, {"values",vvec(m->cx?VCOMPLEX:VREAL,v)} });
    }
    vector<Val> e; for ( mwSize i=0; i<m->n(); ++i ) e.push_back( m->cx ? vcplx( asd(m,i,false), asd(m,i,true) ) : num(m,i) );
    if ( e.size() == 1 ) return e[0];
    if ( m->cls == mxLOGICAL_CLASS ) return vgen(e);
    bool re = m->cls == mxDOUBLE_CLASS || m->cls == mxSINGLE_CLASS;
    if ( m->dims[0] == 1 ) return vvec( m->cx ? VCOMPLEX : re ? VREAL : VLONG, e );
    return vmat( m->cx ? MCOMPLEX : re ? MREAL : MLONG, unsigned(m->dims[0]), unsigned(m->dims[1]), e );
  }
  // the width of integers and the storage of logicals is the interface's choice
  static Val norm( Val v ) {
    if ( v.k == INT ) v = vlong( int32_t(v.w[0]) );
    else if ( v.k == VINT || v.k == MINT ) { for ( auto & x : v.w ) x = uint64_t(int64_t(int32_t(x))); v.k = v.k == VINT ? VLONG : MLONG; }
    else if ( v.k == VBOOL ) v = plain(v);
    for ( auto & c : v.ch ) c = norm(c);
    return v;
  }
  static vector<Val> PRE;
  static void to_gc( Runner & R, mxArray const * m, unsigned pre, char const * what ) {
    GCN g; build( g, PRE[pre%PRE.size()] );
    mxArray_to_GenericContainer( m, g );
    Val got = norm(readback(g)), e = norm(expect(m));
    REQ( got == e, what << ": got " << show(readback(g)) << " | expected " << show(e) );
    R.trans(); R.state(e);
  }
  // ---------------------------------------------------------------- container -> what the MATLAB value must be
  static bool int_class( mxClassID c ) { return c >= mxINT8_CLASS && c <= mxUINT64_CLASS; }
  static string denotes( Val const & v, mxArray const * m, bool column=false ) {
    if ( !m ) return "null array";
    auto shape = [&]( mwSize r, mwSize c ) -> bool { return m->dims.size() == 2 && m->dims[0] == r && m->dims[1] == c; };
    auto row   = [&]( mwSize n ) -> bool { return column ? shape(n,1) || shape(1,n) : shape(1,n); };
    auto elems = [&]( int ek ) -> string {
      if ( ek == BOOL && ( m->cls != mxLOGICAL_CLASS || m->cx ) ) return "not logical";
      if ( ( ek == INT || ek == LONG ) && ( !int_class(m->cls) || m->cx ) ) return "not integer";
      if ( ( ek == REAL || ek == COMPLEX ) && m->cls != mxDOUBLE_CLASS ) return "not double";
      if ( m->cx != ( ek == COMPLEX ) ) return "complexity";
      for ( mwSize i=0; i<m->n(); ++i ) {
        Val e = is_scalar(v.k) ? v : elem(v,i);
        Val g = ek == COMPLEX ? vcplx( asd(m,i,false), asd(m,i,true) ) : num(m,i);
        if ( norm(e) != norm(g) ) return "element " + std::to_string(i) + " is " + show(g) + " instead of " + show(e);
      }
      return "";
    };
    auto isstr = [&]( mxArray const * c, string const & s ) -> bool { return c && c->cls == mxCHAR_CLASS && text(c) == s && ( s.empty() ? c->n() == 0 : c->dims[0] == 1 ); };
    switch ( v.k ) {
    case NOTYPE: case POINTER: case VPOINTER: return m->n() == 0 ? "" : "not empty";
    case BOOL: case INT: case LONG: case REAL: case COMPLEX: if ( !shape(1,1) ) return "not 1x1"; return elems(v.k);
    case STRING: return isstr(m,v.s[0]) ? "" : "wrong char array";
    case VBOOL: case VINT: case VLONG: case VREAL: case VCOMPLEX: if ( !row(v.size()) ) return "shape"; return elems(elem_kind(v.k));
    case VSTRING: if ( m->cls != mxCELL_CLASS || !row(v.s.size()) ) return "not a cell row"; for ( size_t i=0; i<v.s.size(); ++i ) if ( !isstr(m->ch[i],v.s[i]) ) return "string " + std::to_string(i); return "";
    case MINT: case MLONG: case MREAL: case MCOMPLEX: if ( !shape(v.nr,v.nc) ) return "shape"; return elems(elem_kind(v.k));
    case VECTOR: if ( m->cls != mxCELL_CLASS || !row(v.ch.size()) ) return "not a cell row"; for ( size_t i=0; i<v.ch.size(); ++i ) { string s = denotes(v.ch[i],m->ch[i]); if ( !s.empty() ) return "cell " + std::to_string(i) + ": " + s; } return "";
    case MAP:
      if ( m->cls != mxSTRUCT_CLASS || !shape(1,1) || m->fields.size() != v.s.size() ) return "not a 1x1 struct with the right number of fields";
      for ( size_t i=0; i<v.s.size(); ++i ) { int k = mxGetFieldNumber( m, v.s[i].c_str() ); if ( k < 0 ) return "no field " + v.s[i]; string s = denotes(v.ch[i],m->ch[size_t(k)]); if ( !s.empty() ) return "field " + v.s[i] + ": " + s; }
      return "";
    }
    return "?";
  }
  static bool no_nul( Val const & v ) { return all_of( v, []( Val const & x ) { for ( auto & s : x.s ) if ( s.find('\0') != string::npos ) return false; return true; } ); }
  static void both( Runner & R, Val const & v, unsigned pre ) {
    GCN g; build( g, v ); mxArray * m = nullptr;
    GenericContainer_to_mxArray( g, m );
    REQ_EQ( g, v, "conversion changed the container" );
    string s = denotes( v, m ); REQ( s.empty(), "MATLAB value: " << s );
    to_gc( R, m, pre, "back" );
    // the typed overloads
    mxArray * t = nullptr;
    switch ( v.k ) {
    case BOOL: to_mxArray( g.get_bool(), t ); break; case INT: { int_type x = g.get_int(); to_mxArray( x, t ); break; } case LONG: { long_type x = g.get_long(); to_mxArray( x, t ); break; } case REAL: { real_type x = g.get_real(); to_mxArray( x, t ); break; }
    case COMPLEX: to_mxArray( g.get_complex(), t ); break;
    case STRING: { string x( g.get_string() ), y = x + "tail"; to_mxArray( string_view(y).substr(0,x.size()), t ); break; }
    case VBOOL: to_mxArray( g.get_vec_bool(), t ); break; case VINT: to_mxArray( g.get_vec_int(), t ); break; case VLONG: to_mxArray( g.get_vec_long(), t ); break; case VREAL: to_mxArray( g.get_vec_real(), t ); break; case VCOMPLEX: to_mxArray( g.get_vec_complex(), t ); break; case VSTRING: to_mxArray( g.get_vec_string(), t ); break;
    case MINT: to_mxArray( g.get_mat_int(), t ); break; case MLONG: to_mxArray( g.get_mat_long(), t ); break; case MREAL: to_mxArray( g.get_mat_real(), t ); break; case MCOMPLEX: to_mxArray( g.get_mat_complex(), t ); break;
    default: return;
    }
    s = denotes( v, t, true ); REQ( s.empty(), "to_mxArray: " << s );
    to_gc( R, t, pre, "back from to_mxArray" ); R.trans(2);
  }
  static std::ostringstream * OUT = nullptr;
  template <class F> static void trace( F && f ) {
    struct Reset { ~Reset() { mxmock::reset(); } } r;
    OUT->str("");
    try { f(); } catch ( mxmock::Error const & e ) { fail( "matrix API misuse: " + e.what ); }
    REQ( OUT->str().empty(), "output on the console: " << OUT->str().substr(0,100) );
  }
  // ---------------------------------------------------------------- builders
  template <class T> static void fill( mxArray * m, T const * v, size_t nv, size_t off ) { for ( mwSize i=0; i<m->n(); ++i ) { reinterpret_cast<T*>(m->re.get())[i] = v[(i+off)%nv]; if ( m->cx ) reinterpret_cast<T*>(m->im.get())[i] = v[(i+off+1)%nv]; } }
  static mxArray * numeric( mxClassID c, vector<mwSize> const & d, bool cx, size_t off ) {
    mxArray * m = mxmock::make( c, d, cx );
    static bool const B[]{true,false,false,true,true};
    static int8_t const I8[]{1,-2,127,-128,0,3,4}; static uint8_t const U8[]{1,2,255,128,0,3,4}; static int16_t const I16[]{1,-2,32767,-32768,0,3,4}; static uint16_t const U16[]{1,2,65535,32768,0,3,4};
    static int32_t const I32[]{1,-2,INT32_MAX,INT32_MIN,0,3,4}; static uint32_t const U32[]{1,2,4294967295u,2147483648u,0,2147483647u,4}; static int64_t const I64[]{1,-2,INT64_MAX,INT64_MIN,0,(1ll<<53)+1,4}; static uint64_t const U64[]{1,2,4294967296ull,uint64_t(INT64_MAX),0,(1ull<<53)+1,4};
    static float const F[]{1,-2.5f,3.4e38f,-1e-45f,0,-0.0f,0.1f}; static double const D[]{1,-2.5,1.7e308,-5e-324,0,-0.0,0.1};
    switch ( c ) {
    case mxLOGICAL_CLASS: fill(m,B,5,off); break; case mxINT8_CLASS: fill(m,I8,7,off); break; case mxUINT8_CLASS: fill(m,U8,7,off); break; case mxINT16_CLASS: fill(m,I16,7,off); break; case mxUINT16_CLASS: fill(m,U16,7,off); break;
    case mxINT32_CLASS: fill(m,I32,7,off); break; case mxUINT32_CLASS: fill(m,U32,7,off); break; case mxINT64_CLASS: fill(m,I64,7,off); break; case mxUINT64_CLASS: fill(m,U64,7,off); break; case mxSINGLE_CLASS: fill(m,F,7,off); break; default: fill(m,D,7,off);
    }
    return m;
  }
  static mxClassID const NUM[]{ mxLOGICAL_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxSINGLE_CLASS, mxDOUBLE_CLASS };
  static mxArray * opaque( string const & s ) { mxArray * m = mxmock::make( mxOPAQUE_CLASS, {1,1} ); m->name = "string"; m->opaque = s; return m; }
  static mxArray * sparse( unsigned r, unsigned c, unsigned bits, int kind ) { // 0 real 1 complex 2 logical
    mxArray * m = mxmock::make( mxDOUBLE_CLASS, {r,c} ); m->sparse = true; m->cls = kind==2 ? mxLOGICAL_CLASS : mxDOUBLE_CLASS; m->cx = kind==1;
    size_t nnz = 0; for ( unsigned b=0; b<r*c; ++b ) if ( bits>>b&1 ) ++nnz;
    m->ir.reset( new mwIndex[nnz] ); m->jc.reset( new mwIndex[c+1] ); size_t es = kind==2 ? 1 : 8; m->re.reset( new char[nnz*es] ); m->im.reset( kind==1 ? new char[nnz*8] : nullptr );
    size_t k = 0; for ( unsigned j=0; j<c; ++j ) { m->jc[j] = k; for ( unsigned i=0; i<r; ++i ) if ( bits>>(i+j*r)&1 ) { m->ir[k] = i; if ( kind==2 ) m->re[k] = 1; else reinterpret_cast<double*>(m->re.get())[k] = 1.5+double(i)+10*double(j); if ( kind==1 ) reinterpret_cast<double*>(m->im.get())[k] = -double(k); ++k; } }
    m->jc[c] = k; return m;
  }
  static mxArray * strukt( vector<string> const & f, mwSize r, mwSize c, vector<mxArray*> const & v ) { vector<char const*> p; for ( auto & s : f ) p.push_back(s.c_str()); mxArray * m = mxCreateStructMatrix( r, c, int(f.size()), p.data() ); for ( size_t i=0; i<m->ch.size(); ++i ) m->ch[i] = v.empty() ? nullptr : v[i%v.size()]; return m; }
  static mxArray * cell( mwSize r, mwSize c, vector<mxArray*> const & v ) { mxArray * m = mxCreateCellMatrix(r,c); for ( size_t i=0; i<m->ch.size(); ++i ) m->ch[i] = v.empty() ? nullptr : v[i%v.size()]; return m; }
  static unsigned const NLEAF = 20;
  static mxArray * leaf( unsigned k ) {
    switch ( k ) {
    case 0: return nullptr; case 1: return numeric(mxDOUBLE_CLASS,{1,1},false,1); case 2: return numeric(mxDOUBLE_CLASS,{1,3},false,0); case 3: return numeric(mxDOUBLE_CLASS,{2,3},false,0);
    case 4: return numeric(mxLOGICAL_CLASS,{1,1},false,0); case 5: return numeric(mxLOGICAL_CLASS,{2,2},false,0); case 6: return numeric(mxINT32_CLASS,{1,1},false,2); case 7: return numeric(mxUINT32_CLASS,{1,2},false,2);
    case 8: return numeric(mxINT64_CLASS,{2,2},false,3); case 9: return numeric(mxDOUBLE_CLASS,{1,1},true,1); case 10: return numeric(mxDOUBLE_CLASS,{3,1},true,1); case 11: return mxmock_chars("abc"); case 12: return mxmock_chars("");
    case 13: return opaque("str"); case 14: return sparse(2,2,11,0); case 15: return numeric(mxDOUBLE_CLASS,{0,0},false,0); case 16: return cell(1,2,{numeric(mxDOUBLE_CLASS,{1,1},false,3),mxmock_chars("x")}); case 17: return strukt({"p","q"},1,1,{mxmock_chars("v"),numeric(mxINT8_CLASS,{1,1},false,1)});
    case 18: return cell(0,0,{}); default: return strukt({},1,1,{});
    }
  }
  void enumerate( Runner & R ) {
    PRE = { vnone(), vmap({{"old",vint(1)},{"values",vint(2)}}), distinct_vec(VREAL,3), vstr("old"), vgen({vint(1),vstr("x")}), distinct_mat(MINT,2,2), vptr(8), vcplx(1,2) };
    static std::ostringstream out; OUT = &out; std::cout.rdbuf( out.rdbuf() ); std::cerr.rdbuf( out.rdbuf() );
    unsigned cnt = 0;
    auto one = [&]( auto desc, auto mk ) { ++cnt; if ( R.skip() ) return; unsigned c = cnt; R.run( desc, [&]{ trace( [&]{ to_gc( R, mk(), c, "to container" ); } ); } ); };
    unsigned const D = R.thorough ? 9 : 6;
    R.family("numeric");
    for ( auto c : NUM ) for ( bool cx : {false,true} ) { if ( cx && c == mxLOGICAL_CLASS ) continue;
      for ( mwSize r=0; r<=D; ++r ) for ( mwSize k=0; k<=D; ++k ) for ( size_t off=0; off<8; ++off )
        one( [&]{ std::ostringstream s; s << "class " << int(c) << (cx?" complex ":" ") << r << "x" << k << " variant " << off; return s.str(); }, [&]{ return numeric(c,{r,k},cx,off); } ); }
    for ( double d : real_edges() ) for ( double e : real_edges() ) one( [&]{ std::ostringstream s; s << "complex " << d << "," << e; return s.str(); }, [&]{ mxArray * m = mxmock::make( mxDOUBLE_CLASS, {1,1}, true ); *mxGetPr(m) = d; *mxGetPi(m) = e; return m; } );
    for ( double d : dense_reals(R.thorough) ) one( [&]{ std::ostringstream s; s << "double " << d; return s.str(); }, [&]{ return mxCreateDoubleScalar(d); } );
    for ( int64_t l : dense_ints(R.thorough) ) for ( bool u : {false,true} ) { if ( u && l < 0 ) continue; one( [&]{ return "int64 " + std::to_string(l); }, [&]{ mxArray * m = mxmock::make( u?mxUINT64_CLASS:mxINT64_CLASS, {1,1} ); *static_cast<int64_t*>(mxGetData(m)) = l; return m; } ); }
    for ( int64_t l : dense_ints(R.thorough) ) for ( int rep=0; rep<2; ++rep ) one( [&]{ return "(u)int32 " + std::to_string(l); }, [&]{ mxArray * m = mxmock::make( rep?mxUINT32_CLASS:mxINT32_CLASS, {1,mwSize(1+rep)} ); *static_cast<uint32_t*>(mxGetData(m)) = uint32_t(l); return m; } );
    R.family("nd"); // not convertible: must only be safe
    for ( auto c : NUM ) for ( mwSize a=0; a<=2; ++a ) for ( mwSize b=0; b<=2; ++b ) for ( mwSize d=2; d<=3; ++d ) { if ( R.skip() ) continue; R.run( [&]{ return string("3-d array"); }, [&]{ trace( [&]{ GCN g; mxArray_to_GenericContainer( numeric(c,{a,b,d},false,0), g ); readback(g); } ); } ); }
    R.family("text");
    { vector<string> S; for ( int a=1; a<256; ++a ) { S.push_back( string(1,char(a)) ); for ( int b=1; b<256; b += (R.thorough?1:7) ) S.push_back( string(1,char(a))+char(b) ); } for ( size_t n=0; n<=300; n += n<40?1:13 ) S.push_back( string(n,'a') + ( n ? "z" : "" ) );
      for ( auto & s : S ) { one( [&]{ return "char " + show_bytes(s); }, [&]{ return mxmock_chars(s); } ); one( [&]{ return "string " + show_bytes(s); }, [&]{ return opaque(s); } ); } }
    R.family("sparse");
    for ( unsigned r=0; r<=3; ++r ) for ( unsigned c=0; c<=3; ++c ) for ( unsigned b=0; b<(1u<<(r*c)); ++b ) for ( int k=0; k<3; ++k ) one( [&]{ std::ostringstream s; s << "sparse " << r << "x" << c << " pattern " << b << " kind " << k; return s.str(); }, [&]{ return sparse(r,c,b,k); } );
    R.family("cells and structs");
    for ( unsigned a=0; a<NLEAF; ++a ) {
      one( [&]{ return "leaf " + std::to_string(a); }, [&]{ return leaf(a); } );
      for ( unsigned b=0; b<NLEAF; ++b ) {
        auto d = [&]( string const & w ) { return w + " of leaves " + std::to_string(a) + "," + std::to_string(b); };
        for ( mwSize r=0; r<=3; ++r ) for ( mwSize c=0; c<=3; ++c ) {
          one( [&]{ return d("cell "+std::to_string(r)+"x"+std::to_string(c)); }, [&]{ return cell(r,c,{leaf(a),leaf(b)}); } );
          one( [&]{ return d("struct "+std::to_string(r)+"x"+std::to_string(c)); }, [&]{ return strukt({"f"},r,c,{leaf(a),leaf(b)}); } );
          one( [&]{ return d("struct2 "+std::to_string(r)+"x"+std::to_string(c)); }, [&]{ return strukt({"z","a"},r,c,{leaf(a),leaf(b)}); } );
          one( [&]{ return d("struct3 "+std::to_string(r)+"x"+std::to_string(c)); }, [&]{ return strukt({"z","a","m"},r,c,{leaf(a),leaf(b)}); } );
        }
        one( [&]{ return d("nested cells"); }, [&]{ return cell(1,2,{cell(2,1,{leaf(a),leaf(b)}),strukt({"k"},1,1,{cell(1,1,{leaf(b)})})}); } );
        one( [&]{ return d("nested structs"); }, [&]{ return strukt({"s","t"},1,1,{strukt({"u"},1,1,{leaf(a)}),strukt({"v"},2,1,{leaf(b),cell(1,1,{leaf(a)})})}); } );
        if ( R.thorough ) for ( unsigned c=0; c<NLEAF; ++c ) { one( [&]{ return d("cell3"); }, [&]{ return cell(1,3,{leaf(a),leaf(b),leaf(c)}); } ); one( [&]{ return d("struct3"); }, [&]{ return strukt({"c","b","a"},1,1,{leaf(a),leaf(b),leaf(c)}); } ); }
      }
    }
    // ------------------------------------------------------------ containers
    R.family("containers");
    auto back = [&]( Val const & v ) { if ( !no_nul(v) ) return; ++cnt; if ( R.skip() ) return; unsigned c = cnt; R.run( [&]{ return "container " + show(v); }, [&]{ trace( [&]{ both( R, v, c ); } ); } ); };
    vector<Val> U = values_one_per_shape(); { auto M = values_medium(); U.insert( U.end(), M.begin(), M.end() ); auto L = values_lookalike(); U.insert( U.end(), L.begin(), L.end() ); auto E = scalars_edge(); U.insert( U.end(), E.begin(), E.end() ); }
    for ( auto & v : U ) { back(v); for ( auto & c : contexts(v) ) back(c); }
    for ( auto & a : U ) for ( auto & b : U ) { if ( !R.thorough && U.size() > 400 && ( hashv(a)+hashv(b) ) % 4 ) continue; back( vgen({a,b}) ); back( vmap({{"a",a},{"b",b}}) ); }
    for ( int k=VPOINTER; k<=VSTRING; ++k ) for ( unsigned n=0; n<=(R.thorough?64u:24u); ++n ) back( distinct_vec(k,n) );
    for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned r=0; r<=D+2; ++r ) for ( unsigned c=0; c<=D+2; ++c ) back( distinct_mat(k,r,c) );
    for ( int64_t l : dense_ints(R.thorough) ) { back( vlong(l) ); back( vvec(VLONG,{vlong(l),vlong(0)}) ); back( vmat(MLONG,2,1,{vlong(l),vlong(1)}) ); if ( l == int32_t(l) ) { back( vint(int32_t(l)) ); back( vvec(VINT,{vint(int32_t(l)),vint(-1)}) ); back( vmat(MINT,2,1,{vint(int32_t(l)),vint(1)}) ); } }
    for ( double d : dense_reals(R.thorough) ) { back( vreal(d) ); back( vvec(VREAL,{vreal(d),vreal(1)}) ); back( vcplx(d,1) ); back( vcplx(1,d) ); back( vmat(MREAL,2,1,{vreal(d),vreal(1)}) ); }
    for ( int a=1; a<256; ++a ) { string s(1,char(a)); back( vstr(s) ); back( vvec(VSTRING,{vstr("p"+s),vstr(s)}) ); back( vmap({{s,vint(a)},{"zz"+s,vstr(s)}}) ); }
    R.family("large members of every shape");
    for ( auto & v : values_large( R.thorough ? 70000 : 4100 ) ) back( v );
  }
}
