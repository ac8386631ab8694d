#include "common.hpp"
#include <qlibs.h>
#include <sstream>
using namespace qlibs;
typedef std::vector<long long> V;
typedef std::vector<std::string> S;

static fp16 R( long long r ) { return fp16::from( static_cast<double>( r )/65536.0 ); }
static J& ss( J &j, const char *k, const S &v )
{
    j.key( k ); j.o += "[";
    for ( size_t i = 0; i < v.size(); ++i ) { if ( i ) j.o += ","; j.o += "\"" + v[ i ] + "\""; }
    j.o += "]"; return j;
}
static V rest( Args &a ) { V v; while ( a.more() ) v.push_back( a.i() ); return v; }

int main()
{
    Args a;
    while ( nextOp( a ) ) {
        const std::string op = a.op();
        if ( op == "new" ) { J( "new" ); continue; }
        if ( op == "arith" ) {
            const std::string f = a.s(); V in = rest( a ), xs, ys, zs, zc, zr;
            for ( size_t k = 0; k + 1 < in.size(); k += 2 ) {
                fp16 x = R( in[ k ] ), y = R( in[ k + 1 ] ), z, c = x;
                xs.push_back( x.raw() ); ys.push_back( y.raw() );
                fp16 *r = nullptr;
                if ( f == "add" ) { z = x + y; r = &( c += y ); }
                else if ( f == "sub" ) { z = x - y; r = &( c -= y ); }
                else if ( f == "mul" ) { z = x*y; r = &( c *= y ); }
                else if ( f == "div" ) { z = x/y; r = &( c /= y ); }
                else return 3;
                zs.push_back( z.raw() ); zc.push_back( c.raw() ); zr.push_back( r->raw() );
            }
            J j( "arith" ); j.s( "f", f ).ns( "xs", xs ).ns( "ys", ys ).ns( "zs", zs ).ns( "zc", zc ).ns( "zr", zr );
        }
        else if ( op == "cmp" ) {
            V in = rest( a ), xs, ys; S zs;
            for ( size_t k = 0; k + 1 < in.size(); k += 2 ) {
                const fp16 x = R( in[ k ] ), y = R( in[ k + 1 ] );
                xs.push_back( x.raw() ); ys.push_back( y.raw() );
                std::string t;
                t += ( x < y ) ? '1' : '0'; t += ( x <= y ) ? '1' : '0'; t += ( x > y ) ? '1' : '0';
                t += ( x >= y ) ? '1' : '0'; t += ( x == y ) ? '1' : '0'; t += ( x != y ) ? '1' : '0';
                zs.push_back( t );
            }
            J j( "cmp" ); j.ns( "xs", xs ).ns( "ys", ys ); ss( j, "zs", zs );
        }
        else if ( op == "un" ) {
            const std::string f = a.s(); V in = rest( a ), xs, zr, zc, zo; S zs;
            for ( long long r : in ) {
                fp16 x = R( r ); xs.push_back( x.raw() );
                if ( f == "inc" || f == "dec" ) {
                    fp16 p = x, q = x;
                    fp16 *rr; fp16 old;
                    if ( f == "inc" ) { rr = &( ++p ); old = q++; } else { rr = &( --p ); old = q--; }
                    zs.push_back( std::to_string( p.raw() ) ); zr.push_back( rr->raw() ); zc.push_back( q.raw() ); zo.push_back( old.raw() );
                }
                else if ( f == "neg" ) zs.push_back( std::to_string( ( -x ).raw() ) );
                else if ( f == "abs" ) zs.push_back( std::to_string( fp16::absolute( x ).raw() ) );
                else if ( f == "floor" ) zs.push_back( std::to_string( fp16::floor( x ).raw() ) );
                else if ( f == "ceil" ) zs.push_back( std::to_string( fp16::ceil( x ).raw() ) );
                else if ( f == "round" ) zs.push_back( std::to_string( fp16::rounding( x ).raw() ) );
                else if ( f == "toint" ) zs.push_back( std::to_string( fp16::toInt( x ) ) );
                else if ( f == "todouble" ) zs.push_back( num( fp16::toDouble( x ) ) );
                else if ( f == "tofloat" ) zs.push_back( num( fp16::toFloat( x ) ) );
                else if ( f == "isovf" ) zs.push_back( x.isOverflow() ? "1" : "0" );
                else if ( f == "isexpmax" ) zs.push_back( x.isExpMax() ? "1" : "0" );
                else if ( f == "copy" ) { fp16 y( x ), z; z = y; zs.push_back( std::to_string( z.raw() ) ); }
                else return 3;
            }
            J j( "un" ); j.s( "f", f ).ns( "xs", xs ); ss( j, "zs", zs ).ns( "zr", zr ).ns( "zc", zc ).ns( "zo", zo );
        }
        else if ( op == "from" ) {
            const std::string f = a.s(); S xs; V zs, zc;
            while ( a.more() ) {
                fp16 c;
                if ( f == "fromint" ) { const int v = static_cast<int>( a.i() ); xs.push_back( std::to_string( v ) ); zs.push_back( fp16::from( v ).raw() ); c = v; }
                else if ( f == "fromfloat" ) { const float v = a.f(); xs.push_back( num( v ) ); zs.push_back( fp16::from( v ).raw() ); c = v; }
                else if ( f == "fromdouble" ) { const double v = a.d(); xs.push_back( num( v ) ); zs.push_back( fp16::from( v ).raw() ); c = v; }
                else return 3;
                zc.push_back( c.raw() );
            }
            J j( "from" ); j.s( "f", f ); ss( j, "xs", xs ).ns( "zs", zs ).ns( "zc", zc );
        }
        else if ( op == "text" ) {
            V in = rest( a ), xs, ds, len; S zs, zc;
            for ( size_t k = 0; k + 1 < in.size(); k += 2 ) {
                const fp16 x = R( in[ k ] ); const int d = static_cast<int>( in[ k + 1 ] );
                Buf<char> b( 64 ); std::memset( b.p, '#', 64 );
                char *r = fp16::toASCII( x, b.p, d );
                std::string t( r == b.p ? std::string( r, strnlen( r, 63 ) ) : std::string( "wrong pointer" ) );
                std::ostringstream os;
                if ( d >= 0 ) { os.precision( d ); os << x; }
                xs.push_back( x.raw() ); ds.push_back( d ); zs.push_back( t ); zc.push_back( os.str() );
                size_t used = 64; while ( used && b.p[ used - 1 ] == '#' ) --used;      // nothing behind the terminator
                len.push_back( static_cast<long long>( used ) - 1 );
            }
            J j( "text" ); j.ns( "xs", xs ).is( "ds", ds ); ss( j, "zs", zs ); ss( j, "zc", zc ).is( "len", len );
        }
        else if ( op == "const" ) {
            S xs; V zs;
#define K( n ) xs.push_back( #n ); zs.push_back( n.raw() );
            K( FP_E ) K( FP_LOG2E ) K( FP_LOG10E ) K( FP_LN2 ) K( FP_LN10 ) K( FP_PI ) K( FP_PI_2 ) K( FP_PI_4 ) K( FP_1_PI ) K( FP_2_PI ) K( FP_2_SQRTPI ) K( FP_SQRT2 ) K( FP_SQRT1_2 )
#define L( n, e ) xs.push_back( n ); zs.push_back( ( e ).raw() );
            L( "lit1", 1_fp ) L( "lit0", 0_fp ) L( "lit32767", 32767_fp ) L( "lit1_5", 1.5_fp ) L( "lit0_1", 0.1_fp ) L( "litbig", 32767.99998_fp ) L( "litneg", -2.75_fp ) L( "litdef", fp16() )
            J j( "const" ); ss( j, "xs", xs ).ns( "zs", zs );
        }
        else if ( op == "fn" ) {
            const std::string f = a.s(); V in = rest( a ), xs, zs;
            for ( long long r : in ) {
                const fp16 x = R( r ); fp16 y;
#define F( n ) else if ( f == #n ) y = fp16::n( x );
                if ( false ) {} F( sqrt ) F( exp ) F( log ) F( log2 ) F( wrapToPi ) F( wrapTo180 ) F( radToDeg ) F( degToRad ) F( sin ) F( cos ) F( tan ) F( atan ) F( asin ) F( acos ) F( cosh ) F( sinh ) F( tanh )
                else return 3;
                xs.push_back( x.raw() ); zs.push_back( y.raw() );
            }
            J j( "fn" ); j.s( "f", f ).ns( "xs", xs ).ns( "zs", zs );
        }
        else if ( op == "fn2" ) {
            const std::string f = a.s(); V in = rest( a ), xs, ys, zs;
            for ( size_t k = 0; k + 1 < in.size(); k += 2 ) {
                const fp16 x = R( in[ k ] ), y = R( in[ k + 1 ] ); fp16 z;
                if ( f == "atan2" ) z = fp16::atan2( x, y ); else if ( f == "pow" ) z = fp16::pow( x, y ); else return 3;
                xs.push_back( x.raw() ); ys.push_back( y.raw() ); zs.push_back( z.raw() );
            }
            J j( "fn2" ); j.s( "f", f ).ns( "xs", xs ).ns( "ys", ys ).ns( "zs", zs );
        }
        else return 3;
    }
    return 0;
}
