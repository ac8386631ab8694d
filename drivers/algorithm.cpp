// Driver for qlibs::algorithm: every array is an exactly sized heap block seen as T(&)[N].
// An element is a pair key/id; ids make every element distinguishable where T carries them.
#include "common.hpp"
#include <include/algorithm.hpp>
#include <functional>
using namespace qlibs;
struct Rec { int k; int id; };
static bool operator<( const Rec &a, const Rec &b ) { return a.k < b.k; }
static bool operator==( const Rec &a, const Rec &b ) { return a.k == b.k; }
static void put( Rec &r, int k, int id ) { r.k = k; r.id = id; }
static void put( int &r, int k, int ) { r = k; }
static void put( float &r, int k, int ) { r = static_cast<float>( k )/4.0f; }
static int key( const Rec &r ) { return r.k; }
static int key( int r ) { return r; }
static int key( float r ) { return static_cast<int>( r*4.0f ); }
static int ident( const Rec &r ) { return r.id; }
static int ident( int ) { return 0; }
static int ident( float ) { return 0; }
static int gPred, gThr;
static bool holds( int k ) { return gPred == 0 ? k < gThr : gPred == 1 ? k == gThr : gPred == 2 ? k >= gThr : ( k % 2 ) == 0; }
template <class T> bool predV( const T x ) { return holds( key( x ) ); }
template <class T> bool predR( const T &x ) { return holds( key( x ) ); }
template <class T> bool desc( const T &a, const T &b ) { return key( a ) > key( b ); }
template <class T> bool asc( const T &a, const T &b ) { return key( a ) < key( b ); }
template <class T> bool par( const T &a, const T &b ) { return key( a ) % 2 < key( b ) % 2; }   // weak order with ties
static std::vector<int> gVisit;
template <class T> void visit( T &x ) { gVisit.push_back( key( x ) ); put( x, key( x ) + 100, ident( x ) ); }

template <class T, size_t N> void go( Args &a, const std::string &op )
{
    Buf<T> b( N );
    T (&arr)[ N ] = *reinterpret_cast<T(*)[ N ]>( b.p );
    const int fl = a.i(), ll = a.i();       // -1: rely on the defaults
    for ( size_t k = 0; k < N; ++k ) put( arr[ k ], static_cast<int>( a.i() ), static_cast<int>( k ) );
    std::vector<int> k0, k1, i1;
    for ( size_t k = 0; k < N; ++k ) k0.push_back( key( arr[ k ] ) );
    const bool dflt = fl < 0;
    const size_t f = dflt ? 0U : static_cast<size_t>( fl ), l = dflt ? N - 1U : static_cast<size_t>( ll );
    long res = 0, x = 0, y = 0;
    T u, w;
    put( u, 0, 0 ); put( w, 0, 0 );
    auto at = [ & ]( T *p ) { return p == nullptr ? -1L : static_cast<long>( p - arr ); };
    gVisit.clear();
    if ( op == "sort" ) {
        x = a.i();                              // 0 operator<, 1 ascending, 2 descending, 3 parity
        bool (*cmp)( const T&, const T& ) = x == 1 ? &asc<T> : x == 2 ? &desc<T> : x == 3 ? &par<T> : nullptr;
        if ( dflt && x == 0 ) algorithm::sort( arr ); else algorithm::sort( arr, f, l, cmp );
    }
    else if ( op == "reverse" ) { if ( dflt ) algorithm::reverse( arr ); else algorithm::reverse( arr, f, l ); }
    else if ( op == "rotate" ) { x = static_cast<long>( a.i() ); if ( x == 1 && dflt ) algorithm::rotate( arr ); else algorithm::rotate( arr, static_cast<int>( x ) ); }
    else if ( op == "swap" ) { x = a.i(); y = a.i(); algorithm::swap( arr[ x ], arr[ y ] ); }
    else if ( op == "fill" ) { x = a.i(); put( u, x, 900 ); if ( dflt ) algorithm::fill( arr, u ); else algorithm::fill( arr, u, f, l ); }
    else if ( op == "find" ) { x = a.i(); put( u, x, 900 ); res = at( dflt ? algorithm::find( arr, u ) : algorithm::find( arr, u, f, l ) ); }
    else if ( op == "bsearch" ) { x = a.i(); put( u, x, 900 ); res = at( dflt ? algorithm::binary_search( arr, u ) : algorithm::binary_search( arr, u, f, l ) ); }
    else if ( op == "replace" ) { x = a.i(); y = a.i(); put( u, x, 900 ); put( w, y, 901 ); if ( dflt ) algorithm::replace( arr, u, w ); else algorithm::replace( arr, u, w, f, l ); }
    else if ( op == "replace_own" ) { const size_t k = a.u(); x = key( arr[ k ] ); y = a.i(); put( w, y, 901 ); if ( dflt ) algorithm::replace( arr, arr[ k ], w ); else algorithm::replace( arr, arr[ k ], w, f, l ); }
    else if ( op == "for_each" ) { if ( dflt ) algorithm::for_each( arr, &visit<T> ); else algorithm::for_each( arr, &visit<T>, f, l ); }
    else {
        gPred = static_cast<int>( a.i() ); gThr = static_cast<int>( a.i() );
        x = gPred; y = gThr;
        if ( op == "any_of" ) res = dflt ? algorithm::any_of( arr, &predV<T> ) : algorithm::any_of( arr, &predV<T>, f, l );
        else if ( op == "all_of" ) res = dflt ? algorithm::all_of( arr, &predV<T> ) : algorithm::all_of( arr, &predV<T>, f, l );
        else if ( op == "count_if" ) res = static_cast<long>( dflt ? algorithm::count_if( arr, &predV<T> ) : algorithm::count_if( arr, &predV<T>, f, l ) );
        else if ( op == "find_if" ) res = at( dflt ? algorithm::find_if( arr, &predV<T> ) : algorithm::find_if( arr, &predV<T>, f, l ) );
        else if ( op == "replace_if" ) { put( w, static_cast<int>( a.i() ), 901 ); res = key( w ); if ( dflt ) algorithm::replace_if( arr, &predR<T>, w ); else algorithm::replace_if( arr, &predR<T>, w, f, l ); }
        else std::exit( 3 );
    }
    for ( size_t k = 0; k < N; ++k ) { k1.push_back( key( arr[ k ] ) ); i1.push_back( ident( arr[ k ] ) ); }
    J( op == "replace_own" ? "replace" : op ).i( "f", f + 1 ).i( "l", l + 1 ).is( "a", k0 ).is( "b", k1 ).is( "id", i1 ).b( "ids", std::is_same<T,Rec>::value ).n( "xx", x )
        .i( "x", op == "rotate" ? ( ( x % static_cast<long>( N ) ) + static_cast<long>( N ) ) % static_cast<long>( N ) : x ).i( "y", y ).i( "res", res ).is( "seen", gVisit );
}
template <class T> void sized( Args &a, const std::string &op, size_t n )
{
    switch ( n ) {
        case 1: go<T,1>( a, op ); break; case 2: go<T,2>( a, op ); break; case 3: go<T,3>( a, op ); break;
        case 4: go<T,4>( a, op ); break; case 5: go<T,5>( a, op ); break; case 6: go<T,6>( a, op ); break;
        case 7: go<T,7>( a, op ); break; case 8: go<T,8>( a, op ); break; case 16: go<T,16>( a, op ); break;
        case 33: go<T,33>( a, op ); break; case 100: go<T,100>( a, op ); break;
        case 257: go<T,257>( a, op ); break; case 1000: go<T,1000>( a, op ); break; case 66000: go<T,66000>( a, op ); break;
        default: std::exit( 3 );
    }
}
int main()
{
    Args a;
    while ( nextOp( a ) ) {
        const std::string op = a.op();
        if ( op == "new" ) { J( "new" ); continue; }
        const int ty = static_cast<int>( a.i() );
        const size_t n = a.u();
        if ( ty == 0 ) sized<int>( a, op, n ); else if ( ty == 1 ) sized<float>( a, op, n ); else sized<Rec>( a, op, n );
    }
    return 0;
}
