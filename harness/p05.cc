#include "core.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P05";
  char const * const RULE = "for every value: every too small buffer size for serialize, every strict prefix for de_serialize, every single byte replaced by every value, every aligned word replaced by every interesting word; plus all word sequences over a small alphabet up to a length. Buffers are exact-size heap blocks under AddressSanitizer with a 16 MB allocation cap";

  static vector<uint8_t> bytes_of( Val const & v ) {
    GCN g; build( g, v ); vector<uint8_t> b( size_t(g.mem_size()) ); g.serialize( int32_t(b.size()), b.data() ); return b;
  }
  // decode a heap copy of exactly n bytes; returns consumed bytes or -1 if rejected
  static int64_t decode( uint8_t const * data, size_t n, Val const & prior, bool reuse = true ) {
    std::unique_ptr<uint8_t[]> b( new uint8_t[n?n:1] );
    if ( n ) memcpy( b.get(), data, n );
    GCN g; build( g, prior );
    int64_t r = -1;
    try { r = g.de_serialize( int32_t(n), b.get() ); } catch ( std::exception const & ) { r = -1; }
    b.reset(); // nothing may refer to the buffer afterwards
    Val v = readback(g); // must be readable in either case
    if ( r >= 0 ) {
      REQ( size_t(r) <= n, "claims to have read " << r << " bytes of " << n );
      int32_t ms = g.mem_size();
      vector<uint8_t> o( size_t(ms > 0 ? ms : 0) );
      int32_t w = g.serialize( ms, o.data() );
      REQ( w == ms, "the decoded container does not serialize: " << w << " of " << ms );
      GCN h; int32_t r2 = h.de_serialize( ms, o.data() );
      REQ( r2 == ms, "re-decoding consumed " << r2 << " of " << ms );
      REQ_EQ( h, v, "re-decoding" );
    }
    if ( reuse ) { g.set_string("usable"); REQ( g.get_string() == "usable", "container unusable after de_serialize" ); }
    return r;
  }

  static void small_buffers( Runner & R, Val const & v ) {
    size_t n = bytes_of(v).size();
    for ( size_t k=0; k<n; ++k ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "serialize " + show(v) + " into " + std::to_string(k) + " of " + std::to_string(n) + " bytes"; }, [&]{
        GCN g; build( g, v );
        std::unique_ptr<uint8_t[]> b( new uint8_t[k?k:1] );
        b[0] = 0x5A;
        REQ( throws( [&]{ g.serialize( int32_t(k), b.get() ); } ), "accepted a buffer of " << k << " bytes, needs " << n );
        if ( k == 0 ) REQ( b[0] == 0x5A, "wrote into an empty buffer" );
        REQ_EQ( g, v, "source after the failed call" );
        R.trans(1);
      } );
    }
    if ( R.skip() ) return;
    R.run( [&]{ return "serialize(vector) of any size " + show(v); }, [&]{
      GCN g; build( g, v );
      for ( size_t k=0; k<n; k += 1 + n/9 ) { vector<uint8_t> b(k); bool t = throws( [&]{ g.serialize(b); } ); if ( !t ) { REQ( b.size() >= n, "vector not grown" ); GCN h; h.de_serialize(b); REQ_EQ( h, v, "grown vector" ); } }
      R.trans(1);
    } );
  }
  static void prefixes( Runner & R, Val const & v, Val const & prior ) {
    vector<uint8_t> b = bytes_of(v);
    R.state(v);
    for ( size_t k=0; k<b.size(); ++k ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "prefix " + std::to_string(k) + "/" + std::to_string(b.size()) + " of " + show(v) + " into " + show(prior); }, [&]{
        REQ( decode( b.data(), k, prior ) < 0, "a truncated buffer was accepted" );
        R.trans(1);
      } );
    }
  }
  static void corrupt( Runner & R, Val const & v ) {
    vector<uint8_t> b = bytes_of(v);
    for ( size_t k=0; k<b.size(); ++k ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "byte " + std::to_string(k) + " := 0..255 in " + show(v); }, [&]{
        vector<uint8_t> c = b;
        for ( int x=0; x<256; ++x ) { c[k] = uint8_t(x); decode( c.data(), c.size(), vnone(), false ); }
        R.trans(256);
      } );
    }
    static int64_t const W[] = { 0,1,2,3,4,5,6,7,8,9,16,20,21,22,127,128,255,256,1000,65536, 1<<20, (1<<20)+1, 1<<24, 1<<26, 1<<27, 1<<28, 1<<29, 1<<30, 0x3fffffff, 0x7ffffff0, 0x7ffffff8, 0x7ffffffb, 0x7ffffffc, 0x7fffffff, -1,-2,-3,-4,-5,-8,-9, -16, -1000, -65536, INT32_MIN, INT32_MIN+1, INT32_MIN+4, 0x10000001, 0x20000001, 0x40000001 };
    for ( size_t k=0; k+4<=b.size(); ++k ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "word at " + std::to_string(k) + " := interesting values in " + show(v); }, [&]{
        for ( auto x : W ) {
          vector<uint8_t> c = b; uint32_t u = uint32_t(int32_t(x));
          for ( int i=0; i<4; ++i ) c[k+size_t(i)] = uint8_t(u>>(8*i));
          decode( c.data(), c.size(), vnone(), false );
          if ( k+8 <= b.size() ) for ( auto y : { int64_t(0), int64_t(1), int64_t(2), int64_t(65536), int64_t(0x7fffffff), int64_t(-1), int64_t(INT32_MIN), int64_t(1<<30) } ) {
            uint32_t z = uint32_t(int32_t(y)); for ( int i=0; i<4; ++i ) c[k+4+size_t(i)] = uint8_t(z>>(8*i));
            decode( c.data(), c.size(), vnone(), false );
          }
        }
        R.trans(400);
      } );
    }
  }

  void enumerate( Runner & R ) {
    auto U = values_medium();
    vector<Val> X = U;
    for ( auto & v : scalars_small() ) X.push_back(v);
    for ( auto & v : vectors_of_all_lengths( R.thorough ? 40 : 9 ) ) X.push_back(v);
    if ( R.thorough ) for ( auto & v : values_nested( 2, { vint(3), vstr("q") } ) ) X.push_back(v);
    R.family("small buffers"); for ( auto & v : X ) small_buffers( R, v );
    R.family("prefixes"); for ( auto & v : X ) { prefixes( R, v, vnone() ); }
    for ( auto & v : values_one_per_shape() ) for ( auto & p : values_one_per_shape() ) if ( hashv(p)%4 == 0 || R.thorough ) prefixes( R, v, p );
    R.family("corruption"); for ( auto & v : X ) if ( bytes_of(v).size() < (R.thorough ? 900u : 120u) ) corrupt( R, v );
    R.family("all type tags");
    for ( int tag=-300; tag<=300; ++tag ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "tag " + std::to_string(tag) + " followed by 0..40 zero/one/ff bytes"; }, [&]{
        for ( int fill : {0,1,2,0xff,0x7f} ) for ( size_t n=0; n<=40; ++n ) {
          vector<uint8_t> c(4+n,uint8_t(fill)); uint32_t u = uint32_t(tag); for ( int i=0; i<4; ++i ) c[size_t(i)] = uint8_t(u>>(8*i));
          int64_t r = decode( c.data(), c.size(), vnone(), false );
          if ( tag < 0 || tag > 20 ) REQ( r < 0, "unknown type tag accepted" );
        }
        R.trans(205);
      } );
    }
    R.family("word sequences");
    { // exhaustive small-word programs
      vector<int32_t> A; for ( int i=0; i<=21; ++i ) A.push_back(i); A.insert( A.end(), { -1, INT32_MAX, INT32_MIN, 0x10000 } );
      int L = R.thorough ? 5 : 4; size_t k = A.size();
      vector<size_t> idx;
      for ( int len=0; len<=L; ++len ) {
        idx.assign( size_t(len), 0 );
        while ( true ) {
          // group the last position into one case
          if ( len == 0 || idx.back() == 0 ) {
            if ( !R.skip() ) R.run( [&]{ string s = "words"; for ( size_t i=0; i+1<idx.size(); ++i ) s += " " + std::to_string(A[idx[i]]); return s + " *"; }, [&]{
              vector<uint8_t> c( size_t(4*len) );
              for ( int i=0; i<len; ++i ) for ( int t=0; t<4; ++t ) c[size_t(4*i+t)] = uint8_t(uint32_t(A[idx[size_t(i)]])>>(8*t));
              if ( len == 0 ) { REQ( decode( c.data(), 0, vnone(), false ) < 0, "empty buffer accepted" ); return; }
              for ( auto a : A ) { for ( int t=0; t<4; ++t ) c[size_t(4*(len-1)+t)] = uint8_t(uint32_t(a)>>(8*t)); decode( c.data(), c.size(), vnone(), false ); }
              R.trans(k);
            } );
          }
          if ( len == 0 ) break;
          // next index vector, last position skipped (handled in the group)
          int pos = len-2; while ( pos >= 0 && ++idx[size_t(pos)] == k ) { idx[size_t(pos)] = 0; --pos; }
          if ( pos < 0 ) break;
        }
      }
    }
  }
}
