// ffmath special functions: gamma family, erf, expint, zeta, elliptic integrals, polynomials, Bessel functions.
#include <include/ffmath.hpp>
#include "common.hpp"
using namespace qlibs;

int main()
{
    Args a;
    while ( nextOp( a ) ) {
        const std::string op = a.op();
        if ( op == "new" ) { J( "new" ); continue; }
        if ( op == "tgamma" ) { const float x = a.f(); J( op ).f( "x", x ).f( "y", ffmath::tgamma( x ) ); }
        else if ( op == "lgamma" ) { const float x = a.f(); J( op ).f( "x", x ).f( "y", ffmath::lgamma( x ) ); }
        else if ( op == "factorial" ) { const float x = a.f(); J( op ).f( "x", x ).f( "y", ffmath::factorial( x ) ); }
        else if ( op == "beta" ) { const float x = a.f(), z = a.f(); J( op ).f( "x", x ).f( "z", z ).f( "y", ffmath::beta( x, z ) ); }
        else if ( op == "erf" ) { const float x = a.f(); J( op ).f( "x", x ).f( "y", ffmath::erf( x ) ).f( "c", ffmath::erfc( x ) ); }
        else if ( op == "expint" ) { const float x = a.f(); J( op ).f( "x", x ).f( "y", ffmath::expint( x ) ); }
        else if ( op == "zeta" ) { const float x = a.f(); J( op ).f( "x", x ).f( "y", ffmath::riemann_zeta( x ) ); }
        else if ( op == "comp1" ) { const float k = a.f(); J( op ).f( "k", k ).f( "y", ffmath::comp_ellint_1( k ) ); }
        else if ( op == "comp2" ) { const float k = a.f(); J( op ).f( "k", k ).f( "y", ffmath::comp_ellint_2( k ) ); }
        else if ( op == "comp3" ) { const float k = a.f(), nu = a.f(); J( op ).f( "k", k ).f( "nu", nu ).f( "y", ffmath::comp_ellint_3( k, nu ) ); }
        else if ( op == "inc1" ) { const float k = a.f(), p = a.f(); J( op ).f( "k", k ).f( "phi", p ).f( "y", ffmath::ellint_1( k, p ) ); }
        else if ( op == "inc2" ) { const float k = a.f(), p = a.f(); J( op ).f( "k", k ).f( "phi", p ).f( "y", ffmath::ellint_2( k, p ) ); }
        else if ( op == "inc3" ) { const float k = a.f(), nu = a.f(), p = a.f(); J( op ).f( "k", k ).f( "nu", nu ).f( "phi", p ).f( "y", ffmath::ellint_3( k, nu, p ) ); }
        else if ( op == "poly" ) {
            const std::string f = a.s(); const size_t n = a.u(); const float x = a.f();
            float y;
            if ( f == "hermite" ) y = ffmath::hermite( n, x );
            else if ( f == "laguerre" ) y = ffmath::laguerre( n, x );
            else if ( f == "legendre" ) y = ffmath::legendre( n, x );
            else return 3;
            J( op ).s( "f", f ).u( "n", n ).f( "x", x ).f( "y", y );
        }
        else if ( op == "assoc" ) {
            const std::string f = a.s(); const size_t n = a.u(), m = a.u(); const float x = a.f();
            float y;
            if ( f == "laguerre" ) y = ffmath::assoc_laguerre( n, m, x );
            else if ( f == "legendre" ) y = ffmath::assoc_legendre( n, m, x );
            else if ( f == "sph" ) y = ffmath::sph_legendre( n, m, x );
            else return 3;
            J( op ).s( "f", f ).u( "n", n ).u( "m", m ).f( "x", x ).f( "y", y );
        }
        else if ( op == "bes" ) {
            const std::string f = a.s(); const float nu = a.f(), x = a.f();
            float y;
            if ( f == "I" ) y = ffmath::cyl_bessel_i( nu, x );
            else if ( f == "J" ) y = ffmath::cyl_bessel_j( nu, x );
            else if ( f == "K" ) y = ffmath::cyl_bessel_k( nu, x );
            else if ( f == "N" ) y = ffmath::cyl_neumann( nu, x );
            else if ( f == "j" ) y = ffmath::sph_bessel( static_cast<size_t>( nu ), x );
            else if ( f == "n" ) y = ffmath::sph_neumann( static_cast<size_t>( nu ), x );
            else return 3;
            J( op ).s( "f", f ).f( "nu", nu ).f( "x", x ).f( "y", y );
        }
        else return 3;
    }
    return 0;
}
