// ffmath elementary functions: one call per line.
#include <include/ffmath.hpp>
#include "common.hpp"
using namespace qlibs;
typedef float ( *Fn )( float );
struct Ent { const char *n; Fn f; };
static const Ent T[] = {
    { "sqrt", ffmath::sqrt }, { "rSqrt", ffmath::rSqrt }, { "cbrt", ffmath::cbrt }, { "rCbrt", ffmath::rCbrt }, { "recip", ffmath::recip },
    { "sin", ffmath::sin }, { "cos", ffmath::cos }, { "tan", ffmath::tan }, { "asin", ffmath::asin }, { "acos", ffmath::acos }, { "atan", ffmath::atan },
    { "exp2", ffmath::exp2 }, { "exp", ffmath::exp }, { "exp10", ffmath::exp10 }, { "expm1", ffmath::expm1 },
    { "log2", ffmath::log2 }, { "log", ffmath::log }, { "log10", ffmath::log10 }, { "log1p", ffmath::log1p },
    { "sinh", ffmath::sinh }, { "cosh", ffmath::cosh }, { "tanh", ffmath::tanh }, { "asinh", ffmath::asinh }, { "acosh", ffmath::acosh }, { "atanh", ffmath::atanh },
};

int main()
{
    Args a;
    while ( nextOp( a ) ) {
        const std::string op = a.op();
        if ( op == "new" ) { J( "new" ); continue; }
        if ( op == "consts" ) {
            using C = ffmath::numbers;
            const struct { const char *n; float v; } c[] = {
                { "e", C::e() }, { "log2e", C::log2e() }, { "log10e", C::log10e() }, { "ln2", C::ln2() }, { "ln10", C::ln10() }, { "pi", C::pi() },
                { "inv_pi", C::inv_pi() }, { "inv_sqrtpi", C::inv_sqrtpi() }, { "sqrt2", C::sqrt2() }, { "sqrt3", C::sqrt3() },
                { "inv_sqrt2", C::inv_sqrt2() }, { "inv_sqrt3", C::inv_sqrt3() }, { "egamma", C::egamma() }, { "phi", C::phi() },
                { "twice_pi", C::twice_pi() }, { "half_pi", C::half_pi() }, { "quarter_pi", C::quarter_pi() }, { "radian", C::radian() },
                { "lnpi", C::lnpi() }, { "ln_sqrt_2pi", C::ln_sqrt_2pi() },
                { "pi", ffmath::FFP_PI }, { "twice_pi", ffmath::FFP_2PI }, { "two_inv_pi", ffmath::FFP_2_PI }, { "two_inv_sqrtpi", ffmath::FFP_2_SQRTPI }, { "log10_2", ffmath::FFP_LOG10_2 },
            };
            for ( const auto &x : c ) { J( "const" ).s( "c", x.n ).f( "v", x.v ); }
            continue;
        }
        const float x = a.f();
        if ( op == "hypot" ) { const float y = a.f(); J( op ).f( "x", x ).f( "y", y ).f( "r", ffmath::hypot( x, y ) ); continue; }
        if ( op == "atan2" ) { const float y = a.f(); J( op ).f( "y", x ).f( "x", y ).f( "r", ffmath::atan2( x, y ) ); continue; }
        if ( op == "pow" ) { const float y = a.f(); J( op ).f( "x", x ).f( "y", y ).f( "r", ffmath::pow( x, y ) ); continue; }
        Fn f = nullptr;
        for ( const auto &t : T ) if ( op == t.n ) f = t.f;
        if ( !f ) return 3;
        J( "fn" ).s( "f", op ).f( "x", x ).f( "y", f( x ) );
    }
    return 0;
}
