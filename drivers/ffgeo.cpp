// ffmath helpers: wrapping, interpolation, mapping, geometry.
#include <include/ffmath.hpp>
#include "common.hpp"
using namespace qlibs;

int main()
{
    Args a;
    std::unique_ptr<Buf<float>> px, py;
    while ( nextOp( a ) ) {
        const std::string op = a.op();
        if ( op == "new" ) { J( "new" ); }
        else if ( op == "wrap" ) {
            const float x = a.f();
            J( op ).f( "x", x ).f( "pi", ffmath::wrapToPi( x ) ).f( "pi2", ffmath::wrapTo2Pi( x ) ).f( "d180", ffmath::wrapTo180( x ) ).f( "d360", ffmath::wrapTo360( x ) );
        }
        else if ( op == "lerp" ) {
            const float p = a.f(), q = a.f(), t = a.f();
            J( op ).f( "a", p ).f( "b", q ).f( "t", t ).f( "y", ffmath::lerp( p, q, t ) );
        }
        else if ( op == "lerp2" ) {
            const float p = a.f(), q = a.f(), t1 = a.f(), t2 = a.f();
            J( op ).f( "a", p ).f( "b", q ).f( "t1", t1 ).f( "t2", t2 ).f( "y1", ffmath::lerp( p, q, t1 ) ).f( "y2", ffmath::lerp( p, q, t2 ) );
        }
        else if ( op == "map" ) {
            const float x = a.f(), lo = a.f(), hi = a.f(), p = a.f(), q = a.f();
            J( op ).f( "x", x ).f( "lo", lo ).f( "hi", hi ).f( "a", p ).f( "b", q ).f( "n", ffmath::normalize( x, lo, hi ) ).f( "m", ffmath::map( x, lo, hi, p, q ) );
        }
        else if ( op == "poly" ) {
            const size_t n = static_cast<size_t>( a.u() );
            px.reset( new Buf<float>( n ) ); py.reset( new Buf<float>( n ) );
            for ( size_t k = 0 ; k < n ; ++k ) { ( *px )[ k ] = a.f(); ( *py )[ k ] = a.f(); }
            while ( a.more() ) {
                const float x = a.f(), y = a.f();
                J( op ).fs( "px", px->vec() ).fs( "py", py->vec() ).f( "x", x ).f( "y", y ).b( "r", ffmath::inPolygon( x, y, px->p, py->p, n ) );
            }
        }
        else if ( op == "circle" ) {
            const float x = a.f(), y = a.f(), cx = a.f(), cy = a.f(), r = a.f();
            J( op ).f( "x", x ).f( "y", y ).f( "cx", cx ).f( "cy", cy ).f( "rad", r ).b( "r", ffmath::inCircle( x, y, cx, cy, r ) );
        }
        else return 3;
    }
    return 0;
}
