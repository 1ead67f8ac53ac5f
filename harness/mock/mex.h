// A small stand-in for MATLAB's C Matrix API (separate complex storage), enough to run the MEX interface without MATLAB.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
typedef size_t mwSize; typedef size_t mwIndex; typedef ptrdiff_t mwSignedIndex;
typedef bool mxLogical; typedef char16_t mxChar; typedef double mxDouble; typedef int64_t mxInt64; typedef int32_t mxInt32;
typedef uint8_t mxUint8; typedef int8_t mxInt8; typedef uint16_t mxUint16; typedef int16_t mxInt16; typedef uint32_t mxUint32; typedef uint64_t mxUint64; typedef float mxSingle;
enum mxClassID { mxUNKNOWN_CLASS=0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS,
  mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS, mxOPAQUE_CLASS, mxOBJECT_CLASS };
enum mxComplexity { mxREAL=0, mxCOMPLEX=1 };
struct mxArray_tag {
  mxClassID cls{mxDOUBLE_CLASS}; std::vector<mwSize> dims; bool cx{false}, sparse{false};
  std::unique_ptr<char[]> re, im; mwSize cap{0};      // cap: elements held by re / im
  std::vector<mxArray_tag*> ch;                       // cells, or fields x elements
  std::vector<std::string> fields; std::unique_ptr<mwIndex[]> ir, jc; std::string opaque, name;
  mwSize n() const { mwSize r = 1; for ( auto d : dims ) r *= d; return r; }
};
typedef struct mxArray_tag mxArray;
namespace mxmock {
  struct Error { std::string what; };
  inline std::vector<std::unique_ptr<mxArray>> & arena() { static std::vector<std::unique_ptr<mxArray>> A; return A; }
  inline std::vector<void*> & mem() { static std::vector<void*> A; return A; }
  inline void reset() { arena().clear(); for ( void * p : mem() ) free(p); mem().clear(); }
  inline size_t esize( mxClassID c ) { switch ( c ) { case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; default: return 8; } }
  inline mxArray * make( mxClassID c, std::vector<mwSize> d, bool cx=false ) {
    arena().emplace_back( new mxArray ); mxArray * a = arena().back().get();
    while ( d.size() > 2 && d.back() == 1 ) d.pop_back();
    while ( d.size() < 2 ) d.push_back(1);
    a->cls = c; a->dims = d; a->cx = cx; a->cap = a->n();
    if ( c == mxCELL_CLASS ) a->ch.assign( a->n(), nullptr );
    else if ( c != mxSTRUCT_CLASS && c != mxOPAQUE_CLASS ) { size_t b = a->n()*esize(c); a->re.reset( new char[b] ); memset( a->re.get(), 0, b ); if ( cx ) { a->im.reset( new char[b] ); memset( a->im.get(), 0, b ); } }
    return a;
  }
  [[noreturn]] inline void bad( std::string const & s ) { throw Error{s}; }
}
inline int mexPrintf( char const *, ... ) { return 0; }
inline void mexErrMsgTxt( char const * s ) { mxmock::bad(s); }
inline void mexErrMsgIdAndTxt( char const *, char const * s, ... ) { mxmock::bad(s); }
inline void mexWarnMsgTxt( char const * ) {}
inline mwSize mxGetNumberOfElements( mxArray const * a ) { return a->n(); }
inline mwSize mxGetNumberOfDimensions( mxArray const * a ) { return a->dims.size(); }
inline mwSize const * mxGetDimensions( mxArray const * a ) { return a->dims.data(); }
inline size_t mxGetM( mxArray const * a ) { return a->dims[0]; }
inline size_t mxGetN( mxArray const * a ) { size_t r = 1; for ( size_t i=1; i<a->dims.size(); ++i ) r *= a->dims[i]; return r; }
inline mxClassID mxGetClassID( mxArray const * a ) { return a->cls; }
inline char const * mxGetClassName( mxArray const * a ) { static char const * N[]{"unknown","cell","struct","logical","char","void","double","single","int8","uint8","int16","uint16","int32","uint32","int64","uint64","function_handle","opaque","object"}; return a->name.empty() ? N[a->cls] : a->name.c_str(); }
inline bool mxIsClass( mxArray const * a, char const * n ) { return !strcmp( mxGetClassName(a), n ); }
inline bool mxIsComplex( mxArray const * a ) { return a->cx; }
inline bool mxIsSparse( mxArray const * a ) { return a->sparse; }
inline bool mxIsLogical( mxArray const * a ) { return a->cls == mxLOGICAL_CLASS; }
inline bool mxIsChar( mxArray const * a ) { return a->cls == mxCHAR_CLASS; }
inline bool mxIsCell( mxArray const * a ) { return a->cls == mxCELL_CLASS; }
inline bool mxIsStruct( mxArray const * a ) { return a->cls == mxSTRUCT_CLASS; }
inline bool mxIsDouble( mxArray const * a ) { return a->cls == mxDOUBLE_CLASS; }
inline bool mxIsSingle( mxArray const * a ) { return a->cls == mxSINGLE_CLASS; }
inline bool mxIsNumeric( mxArray const * a ) { return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
inline bool mxIsEmpty( mxArray const * a ) { return a->n() == 0; }
inline bool mxIsScalar( mxArray const * a ) { return a->n() == 1; }
inline bool mxIsLogicalScalar( mxArray const * a ) { return mxIsLogical(a) && a->n() == 1; }
inline bool mxIsLogicalScalarTrue( mxArray const * a ) { return mxIsLogicalScalar(a) && a->re[0]; }
inline void * mxGetData( mxArray const * a ) { return a->cls == mxCELL_CLASS || a->cls == mxSTRUCT_CLASS ? nullptr : a->re.get(); }
inline void * mxGetImagData( mxArray const * a ) { return a->im.get(); }
inline double * mxGetPr( mxArray const * a ) { return a->cls == mxDOUBLE_CLASS ? reinterpret_cast<double*>(a->re.get()) : nullptr; }
inline double * mxGetPi( mxArray const * a ) { return a->cls == mxDOUBLE_CLASS ? reinterpret_cast<double*>(a->im.get()) : nullptr; }
inline mxLogical * mxGetLogicals( mxArray const * a ) { return a->cls == mxLOGICAL_CLASS ? reinterpret_cast<mxLogical*>(a->re.get()) : nullptr; }
inline mxChar * mxGetChars( mxArray const * a ) { return a->cls == mxCHAR_CLASS ? reinterpret_cast<mxChar*>(a->re.get()) : nullptr; }
inline size_t mxGetElementSize( mxArray const * a ) { return mxmock::esize(a->cls); }
inline double mxGetScalar( mxArray const * a ) { if ( a->n() == 0 ) mxmock::bad("mxGetScalar of an empty array"); void const * p = a->re.get(); switch ( a->cls ) { case mxLOGICAL_CLASS: return *static_cast<bool const*>(p); case mxINT8_CLASS: return *static_cast<int8_t const*>(p); case mxUINT8_CLASS: return *static_cast<uint8_t const*>(p); case mxINT16_CLASS: return *static_cast<int16_t const*>(p); case mxUINT16_CLASS: return *static_cast<uint16_t const*>(p); case mxINT32_CLASS: return *static_cast<int32_t const*>(p); case mxUINT32_CLASS: return *static_cast<uint32_t const*>(p); case mxINT64_CLASS: return double(*static_cast<int64_t const*>(p)); case mxUINT64_CLASS: return double(*static_cast<uint64_t const*>(p)); case mxSINGLE_CLASS: return *static_cast<float const*>(p); case mxDOUBLE_CLASS: return *static_cast<double const*>(p); default: return 0; } }
inline mwIndex * mxGetIr( mxArray const * a ) { return a->ir.get(); }
inline mwIndex * mxGetJc( mxArray const * a ) { return a->jc.get(); }
inline mxArray * mxGetCell( mxArray const * a, mwIndex i ) { if ( a->cls != mxCELL_CLASS || i >= a->ch.size() ) mxmock::bad("mxGetCell out of range"); return a->ch[i]; }
inline void mxSetCell( mxArray * a, mwIndex i, mxArray * v ) { if ( a->cls != mxCELL_CLASS || i >= a->ch.size() ) mxmock::bad("mxSetCell out of range"); a->ch[i] = v; }
inline int mxGetNumberOfFields( mxArray const * a ) { return a->cls == mxSTRUCT_CLASS ? int(a->fields.size()) : 0; }
inline char const * mxGetFieldNameByNumber( mxArray const * a, int k ) { return k >= 0 && size_t(k) < a->fields.size() ? a->fields[size_t(k)].c_str() : nullptr; }
inline int mxGetFieldNumber( mxArray const * a, char const * f ) { for ( size_t i=0; i<a->fields.size(); ++i ) if ( a->fields[i] == f ) return int(i); return -1; }
inline mxArray * mxGetFieldByNumber( mxArray const * a, mwIndex i, int k ) { if ( a->cls != mxSTRUCT_CLASS || k < 0 || size_t(k) >= a->fields.size() || i >= a->n() ) mxmock::bad("mxGetFieldByNumber out of range"); return a->ch[i*a->fields.size()+size_t(k)]; }
inline void mxSetFieldByNumber( mxArray * a, mwIndex i, int k, mxArray * v ) { if ( a->cls != mxSTRUCT_CLASS || k < 0 || size_t(k) >= a->fields.size() || i >= a->n() ) mxmock::bad("mxSetFieldByNumber out of range"); a->ch[i*a->fields.size()+size_t(k)] = v; }
inline mxArray * mxGetField( mxArray const * a, mwIndex i, char const * f ) { int k = mxGetFieldNumber(a,f); return k < 0 ? nullptr : mxGetFieldByNumber(a,i,k); }
inline void mxSetField( mxArray * a, mwIndex i, char const * f, mxArray * v ) { int k = mxGetFieldNumber(a,f); if ( k >= 0 ) mxSetFieldByNumber(a,i,k,v); }
inline mxArray * mxCreateNumericArray( mwSize nd, mwSize const * d, mxClassID c, mxComplexity f ) { return mxmock::make( c, std::vector<mwSize>(d,d+nd), f == mxCOMPLEX ); }
inline mxArray * mxCreateNumericMatrix( mwSize m, mwSize n, mxClassID c, mxComplexity f ) { return mxmock::make( c, {m,n}, f == mxCOMPLEX ); }
inline mxArray * mxCreateDoubleMatrix( mwSize m, mwSize n, mxComplexity f ) { return mxmock::make( mxDOUBLE_CLASS, {m,n}, f == mxCOMPLEX ); }
inline mxArray * mxCreateDoubleScalar( double v ) { mxArray * a = mxmock::make( mxDOUBLE_CLASS, {1,1} ); *mxGetPr(a) = v; return a; }
inline mxArray * mxCreateLogicalArray( mwSize nd, mwSize const * d ) { return mxmock::make( mxLOGICAL_CLASS, std::vector<mwSize>(d,d+nd) ); }
inline mxArray * mxCreateLogicalMatrix( mwSize m, mwSize n ) { return mxmock::make( mxLOGICAL_CLASS, {m,n} ); }
inline mxArray * mxCreateLogicalScalar( mxLogical v ) { mxArray * a = mxmock::make( mxLOGICAL_CLASS, {1,1} ); *mxGetLogicals(a) = v; return a; }
inline mxArray * mxCreateCellMatrix( mwSize m, mwSize n ) { return mxmock::make( mxCELL_CLASS, {m,n} ); }
inline mxArray * mxCreateCellArray( mwSize nd, mwSize const * d ) { return mxmock::make( mxCELL_CLASS, std::vector<mwSize>(d,d+nd) ); }
inline mxArray * mxCreateStructArray( mwSize nd, mwSize const * d, int nf, char const ** f ) { mxArray * a = mxmock::make( mxSTRUCT_CLASS, std::vector<mwSize>(d,d+nd) ); for ( int i=0; i<nf; ++i ) a->fields.push_back(f[i]); a->ch.assign( a->n()*size_t(nf), nullptr ); return a; }
inline mxArray * mxCreateStructMatrix( mwSize m, mwSize n, int nf, char const ** f ) { mwSize d[2]{m,n}; return mxCreateStructArray( 2, d, nf, f ); }
inline mxArray * mxmock_chars( std::string const & s ) { mxArray * a = mxmock::make( mxCHAR_CLASS, {mwSize(s.empty()?0:1),s.size()} ); for ( size_t i=0; i<s.size(); ++i ) mxGetChars(a)[i] = (unsigned char)s[i]; return a; }
inline mxArray * mxCreateString( char const * s ) { return mxmock_chars(s); }
inline mxArray * mxCreateCharArray( mwSize nd, mwSize const * d ) { return mxmock::make( mxCHAR_CLASS, std::vector<mwSize>(d,d+nd) ); }
inline void * mxMalloc( size_t n ) { void * p = malloc(n?n:1); mxmock::mem().push_back(p); return p; }
inline void * mxCalloc( size_t n, size_t s ) { void * p = mxMalloc(n*s); memset(p,0,n*s); return p; }
inline void mxFree( void * p ) { auto & M = mxmock::mem(); for ( size_t i=0; i<M.size(); ++i ) if ( M[i] == p ) { free(p); M.erase(M.begin()+ptrdiff_t(i)); return; } if ( p ) mxmock::bad("mxFree of foreign memory"); }
inline char * mxArrayToString( mxArray const * a ) { if ( a->cls != mxCHAR_CLASS ) return nullptr; char * p = static_cast<char*>( mxMalloc( a->n()+1 ) ); for ( size_t i=0; i<a->n(); ++i ) p[i] = char(mxGetChars(a)[i]); p[a->n()] = 0; return p; }
inline char * mxArrayToUTF8String( mxArray const * a ) { return mxArrayToString(a); }
inline int mxGetString( mxArray const * a, char * b, mwSize len ) { if ( a->cls != mxCHAR_CLASS || len == 0 ) return 1; size_t i = 0; for ( ; i<a->n() && i+1<len; ++i ) b[i] = char(mxGetChars(a)[i]); b[i] = 0; return i < a->n(); }
inline void mxDestroyArray( mxArray * a ) { auto & A = mxmock::arena(); for ( size_t i=0; i<A.size(); ++i ) if ( A[i].get() == a ) { A.erase(A.begin()+ptrdiff_t(i)); return; } if ( a ) mxmock::bad("mxDestroyArray of a foreign array"); }
inline int mexCallMATLAB( int nl, mxArray ** l, int nr, mxArray ** r, char const * f ) { if ( nl != 1 || nr != 1 || strcmp(f,"char") ) mxmock::bad("mexCallMATLAB"); l[0] = r[0]->cls == mxCHAR_CLASS ? r[0] : mxmock_chars(r[0]->opaque); return 0; }
