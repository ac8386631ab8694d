#include "common.hpp"
#include <qlibs.h>
using namespace qlibs;

// every tap of a short line, some taps of a long one
static std::vector<int> looked( size_t n )
{
    std::vector<int> ix;
    const size_t mid[] = { 127, 255, 256, 257, 511, 1023, 4095, 32767, 65535, 65536, 65537 };
    if ( n <= 600 ) { for ( size_t k = 0; k < n; ++k ) ix.push_back( static_cast<int>( k ) ); return ix; }
    for ( size_t k = 0; k < 4; ++k ) ix.push_back( static_cast<int>( k ) );
    for ( size_t k : mid ) if ( k < n - 4 ) ix.push_back( static_cast<int>( k ) );
    for ( size_t k = n - 4; k < n; ++k ) ix.push_back( static_cast<int>( k ) );
    return ix;
}
static void seen( J &j, tdl &d, size_t n )
{
    std::vector<float> taps, sub;
    const std::vector<int> ix = looked( n );
    for ( int k : ix ) { taps.push_back( d.getAtIndex( static_cast<size_t>( k ) ) ); sub.push_back( d[ k ] ); }
    j.is( "ix", ix ).fs( "taps", taps ).fs( "sub", sub ).f( "oldest", d.getOldest() ).f( "recent", d.getRecent() ).f( "subm1", d[ -1 ] );
    j.f( "subn", d[ static_cast<int>( n ) ] ).f( "subm2", d[ -2 ] ).b( "init", d.isInitialized() );
}

// the forms that take an array by reference; the array is an exactly sized heap block
template <size_t N> static bool byArray( std::unique_ptr<tdl> &d, float *p, size_t n, float x, bool ctor )
{
    if ( n != N ) return false;
    float ( &arr )[ N ] = *reinterpret_cast<float ( * )[ N ]>( p );
    if ( ctor ) { if ( x == 0.0f ) d.reset( new tdl( arr ) ); else d.reset( new tdl( arr, x ) ); }
    else { if ( !d ) d.reset( new tdl ); if ( x == 0.0f ) d->setup( arr ); else d->setup( arr, x ); }
    return true;
}
static bool byArrays( std::unique_ptr<tdl> &d, float *p, size_t n, float x, bool ctor )
{
    return byArray<1>( d, p, n, x, ctor ) || byArray<2>( d, p, n, x, ctor ) || byArray<3>( d, p, n, x, ctor ) || byArray<4>( d, p, n, x, ctor ) || byArray<7>( d, p, n, x, ctor );
}

int main()
{
    Args a;
    std::unique_ptr<tdl> d;
    Buf<float> area;
    size_t n = 0;
    long k = 0;
    while ( nextOp( a ) ) {
        if ( a.op() == "blank" ) { tdl z; J( "blank" ).b( "init", z.isInitialized() ); }
        else if ( a.op() == "new" ) {
            n = static_cast<size_t>( a.u() );
            const float x = a.f();
            // setup may be given storage that is re-used and dirty
            if ( area.n != n ) area.reset( n );
            const long v = k++ % 6;
            if ( v >= 4 ) d.reset();
            if ( ( v >= 4 ) && byArrays( d, area.p, n, x, v == 4 ) ) {}
            else if ( ( v & 1 ) == 0 ) { d.reset( ( x == 0.0f && v ) ? new tdl( area.p, n ) : new tdl( area.p, n, x ) ); }
            else { d.reset( new tdl ); if ( x == 0.0f && v > 1 ) d->setup( area.p, n ); else d->setup( area.p, n, x ); }
            J j( "new" ); j.i( "n", static_cast<long long>( n ) ).f( "x", x ); seen( j, *d, n );
        }
        else if ( a.op() == "resetup" ) { // setup again of a used line
            const float x = a.f();
            if ( !( ( k & 4 ) && byArrays( d, area.p, n, x, false ) ) ) d->setup( area.p, n, x );
            J j( "new" ); j.i( "n", static_cast<long long>( n ) ).f( "x", x ); seen( j, *d, n );
        }
        else if ( a.op() == "ins" ) {
            const float x = a.f();
            if ( k & 2 ) d->insertSample( x ); else ( *d )( x );
            J j( "ins" ); j.f( "x", x ); seen( j, *d, n );
        }
        else if ( a.op() == "burst" ) {     // the samples s, s+1, ..., s+m-1 one after the other
            const long long m = a.i(), s0 = a.i();
            for ( long long q = 0; q < m; ++q ) d->insertSample( static_cast<float>( s0 + q ) );
            J j( "burst" ); j.i( "m", m ).i( "s", s0 ); seen( j, *d, n );
        }
        else if ( a.op() == "flush" ) { const float x = a.f(); if ( x == 0.0f ) d->flush(); else d->flush( x ); J j( "flush" ); j.f( "x", x ); seen( j, *d, n ); }
        else return 3;
    }
    return 0;
}
