// ffmath functions that are exact on the representation of a number.
// Numbers travel as their bits (script: hexadecimal) and are logged as [sign, exponent field, fraction field].
#include <include/ffmath.hpp>
#include "common.hpp"
using namespace qlibs;

static float of( unsigned long long b ) { const uint32_t u = static_cast<uint32_t>( b ); float f; std::memcpy( &f, &u, 4 ); return f; }
static std::vector<int> tr( float f )
{
    uint32_t u; std::memcpy( &u, &f, 4 );
    return { static_cast<int>( u >> 31 ), static_cast<int>( ( u >> 23 ) & 255U ), static_cast<int>( u & 0x7FFFFFU ) };
}
static int cls( float f )
{
    using C = ffmath::classification;
    switch ( ffmath::classify( f ) ) {
        case C::FFP_ZERO: return 0; case C::FFP_SUBNORMAL: return 1; case C::FFP_NORMAL: return 2;
        case C::FFP_INFINITE: return 3; case C::FFP_NAN: return 4; default: return 9;
    }
}

int main()
{
    Args a;
    while ( nextOp( a ) ) {
        const std::string op = a.op();
        if ( op == "new" ) { J( "new" ); }
        else if ( op == "un" ) {
            const float x = of( a.u() );
            J( "un" ).is( "x", tr( x ) ).i( "cls", cls( x ) ).b( "nan", ffmath::isNan( x ) ).b( "inf", ffmath::isInf( x ) )
                .b( "fin", ffmath::isFinite( x ) ).b( "nor", ffmath::isNormal( x ) ).is( "sign", tr( ffmath::sign( x ) ) ).is( "abs", tr( ffmath::absf( x ) ) );
        }
        else if ( op == "int" ) {
            const float x = of( a.u() );
            J( "int" ).is( "x", tr( x ) ).is( "round", tr( ffmath::rounding( x ) ) ).is( "floor", tr( ffmath::floor( x ) ) )
                .is( "ceil", tr( ffmath::ceil( x ) ) ).is( "trunc", tr( ffmath::trunc( x ) ) ).is( "frac", tr( ffmath::frac( x ) ) );
        }
        else if ( op == "rexp" ) {
            const float x = of( a.u() );
            Buf<int32_t> p( 1 );
            const float y = ffmath::rexp( x, p.p );
            J( "rexp" ).is( "x", tr( x ) ).is( "y", tr( y ) ).i( "p", p[ 0 ] ).is( "back", tr( ffmath::ldexp( y, p[ 0 ] ) ) );
        }
        else if ( op == "ldexp" ) {
            const float x = of( a.u() ); const int32_t p = static_cast<int32_t>( a.i() );
            J( "ldexp" ).is( "x", tr( x ) ).i( "p", p ).is( "y", tr( ffmath::ldexp( x, p ) ) );
        }
        else if ( op == "bin" ) {
            const float x = of( a.u() ), y = of( a.u() );
            J( "bin" ).is( "x", tr( x ) ).is( "y", tr( y ) ).is( "cs", tr( ffmath::copysign( x, y ) ) ).is( "next", tr( ffmath::nextAfter( x, y ) ) );
        }
        else if ( op == "mid" ) {
            const float x = of( a.u() ), y = of( a.u() );
            J( "mid" ).is( "x", tr( x ) ).is( "y", tr( y ) ).is( "m", tr( ffmath::midpoint( x, y ) ) );
        }
        else if ( op == "eq" ) {
            const float x = of( a.u() ), y = of( a.u() );
            const bool dflt = !a.more();
            const float t = dflt ? 1.175494351e-38F : of( a.u() );
            J( "eq" ).is( "x", tr( x ) ).is( "y", tr( y ) ).is( "t", tr( t ) ).b( "r", dflt ? ffmath::isEqual( x, y ) : ffmath::isEqual( x, y, t ) );
        }
        else if ( op == "coerce" ) {
            Buf<float> x( 1 ); x[ 0 ] = of( a.u() );
            const float x0 = x[ 0 ], lo = of( a.u() ), hi = of( a.u() );
            const bool r = ffmath::inRangeCoerce( x[ 0 ], lo, hi );
            J( "coerce" ).is( "x", tr( x0 ) ).is( "lo", tr( lo ) ).is( "hi", tr( hi ) ).b( "r", r ).is( "y", tr( x[ 0 ] ) );
        }
        else if ( op == "mm" ) {
            const float x = of( a.u() ), y = of( a.u() ), z = of( a.u() ), w = of( a.u() );
            J( "mm" ).is( "x", tr( x ) ).is( "y", tr( y ) ).is( "z", tr( z ) ).is( "w", tr( w ) )
                .is( "max1", tr( ffmath::Max( x ) ) ).is( "min1", tr( ffmath::Min( x ) ) )
                .is( "max2", tr( ffmath::Max( x, y ) ) ).is( "min2", tr( ffmath::Min( x, y ) ) )
                .is( "max4", tr( ffmath::Max( x, y, z, w ) ) ).is( "min4", tr( ffmath::Min( x, y, z, w ) ) );
        }
        else if ( op == "rem" ) {
            const float x = of( a.u() ), y = of( a.u() );
            J( "rem" ).is( "x", tr( x ) ).is( "y", tr( y ) ).is( "rem", tr( ffmath::rem( x, y ) ) ).is( "mod", tr( ffmath::mod( x, y ) ) );
        }
        else if ( op == "const" ) {
            J( "const" ).is( "inf", tr( ffmath::getInf() ) ).is( "nan", tr( ffmath::getNan() ) );
        }
        else return 3;
    }
    return 0;
}
