#include "common.hpp"
#include <qlibs.h>
using namespace qlibs;
int main()
{
    Args a; std::unique_ptr<nState> s;
    while ( nextOp( a ) ) {
        const std::string op = a.op();
        if ( op == "new" ) {
            const long long k = a.i(); float v[ 3 ] = { 0, 0, 0 };
            for ( int q = 0; q < k; ++q ) v[ q ] = a.f();
            s.reset( k == 0 ? new nState : k == 1 ? new nState( v[ 0 ] ) : k == 2 ? new nState( v[ 0 ], v[ 1 ] ) : new nState( v[ 0 ], v[ 1 ], v[ 2 ] ) );
            J( "new" ).f( "x", v[ 0 ] ).f( "p", v[ 1 ] ).f( "r", v[ 2 ] ).f( "val", ( *s )() );
        }
        else if ( op == "init" ) {
            const long long k = a.i(); float v[ 3 ] = { 0, 0, 0 };
            for ( int q = 0; q < k; ++q ) v[ q ] = a.f();
            if ( k == 0 ) s->init(); else if ( k == 1 ) s->init( v[ 0 ] ); else if ( k == 2 ) s->init( v[ 0 ], v[ 1 ] ); else s->init( v[ 0 ], v[ 1 ], v[ 2 ] );
            J( "init" ).f( "x", v[ 0 ] ).f( "p", v[ 1 ] ).f( "r", v[ 2 ] ).f( "val", ( *s )() );
        }
        else if ( op == "im" ) {
            const std::string m = a.s();
            s->setIntegrationMethod( m == "rect" ? INTEGRATION_RECTANGULAR : m == "trap" ? INTEGRATION_TRAPEZOIDAL : m == "simp" ? INTEGRATION_SIMPSON : INTEGRATION_QUADRATIC );
            J( "im" ).s( "m", m ).f( "val", ( *s )() );
        }
        else if ( op == "dm" ) {
            const std::string m = a.s();
            s->setDerivationMethod( m == "two" ? DERIVATION_2POINTS : m == "back" ? DERIVATION_BACKWARD : DERIVATION_FORWARD );
            J( "dm" ).s( "m", m ).f( "val", ( *s )() );
        }
        else if ( op == "int" || op == "der" ) {
            const float x = a.f(), dt = a.f(); const long long u = a.i();   // 0: no update, 1: update, 2: default argument
            float y;
            if ( op == "int" ) y = u == 2 ? s->integrate( x, dt ) : s->integrate( x, dt, u == 1 );
            else y = u == 2 ? s->derive( x, dt ) : s->derive( x, dt, u == 1 );
            J( op ).f( "s", x ).f( "dt", dt ).b( "upd", u != 0 ).f( "y", y ).f( "val", ( *s )() );
        }
        else if ( op == "ops" ) {
            const float k = a.f(); nState &z = *s;
            J( "ops" ).f( "k", k ).f( "add", z + k ).f( "radd", k + z ).f( "sub", z - k ).f( "rsub", k - z ).f( "mul", z*k ).f( "rmul", k*z ).f( "div", z/k ).f( "rdiv", z() != 0.0f ? k/z : 0.0f ).f( "val", z() );
        }
        else return 3;
    }
    return 0;
}
