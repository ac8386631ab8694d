// new N v | new N (default initial value) ; x v ; steps T dt
#include "common.hpp"
#include <qlibs.h>
using namespace qlibs;
struct Any { virtual ~Any() {} virtual float step( float ) = 0; };
template<size_t N> struct T : Any { std::unique_ptr<transportDelay<N>> d; float step( float x ) override { return ( *d )( x ); } };
template<size_t N> struct D : Any { std::unique_ptr<discreteDelay<N>> d; float step( float x ) override { return ( *d )( x ); } };
template<size_t N> Any* mk( bool def, float v ) {
    if ( def ) { auto *t = new D<N>; t->d.reset( new discreteDelay<N>() ); return t; }
    auto *t = new T<N>; t->d.reset( new transportDelay<N>( v ) ); return t;
}
int main()
{
    Args a; std::unique_ptr<Any> d;
    while ( nextOp( a ) ) {
        const std::string op = a.op(); J j( op );
        if ( op == "new" ) {
            const long long n = a.i(); const bool def = !a.more(); const float v = def ? 0.0f : a.f();
            switch ( n ) {
                case 1: d.reset( mk<1>( def, v ) ); break; case 2: d.reset( mk<2>( def, v ) ); break; case 3: d.reset( mk<3>( def, v ) ); break;
                case 4: d.reset( mk<4>( def, v ) ); break; case 5: d.reset( mk<5>( def, v ) ); break; case 8: d.reset( mk<8>( def, v ) ); break;
                case 17: d.reset( mk<17>( def, v ) ); break; case 64: d.reset( mk<64>( def, v ) ); break; case 100: d.reset( mk<delayFromTime( 2.5f, 0.025f )>( def, v ) ); break;
                case 300: d.reset( mk<300>( def, v ) ); break; case 65535: d.reset( mk<65535>( def, v ) ); break; case 65536: d.reset( mk<65536>( def, v ) ); break; case 70000: d.reset( mk<70000>( def, v ) ); break;
                default: return 3;
            }
            j.i( "n", n ).f( "v", v );
        }
        else if ( op == "x" ) { const float x = a.f(); j.f( "x", x ).f( "y", d->step( x ) ); }
        else if ( op == "burst" ) {     // inputs s, s+1, ...: the answers are watched at the beginning and at the end
            const long long m = a.i(), s0 = a.i();
            std::vector<int> ix; std::vector<float> y;
            for ( long long q = 0; q < m; ++q ) { const float r = d->step( static_cast<float>( s0 + q ) ); if ( q < 3 || m - q < 4 || q == 256 ) { ix.push_back( static_cast<int>( q ) ); y.push_back( r ); } }
            j.i( "m", m ).i( "s", s0 ).is( "ix", ix ).fs( "y", y );
        }
        else if ( op == "steps" ) { const float t = a.f(), dt = a.f(); j.f( "t", t ).f( "dt", dt ).u( "k", delayFromTime( t, dt ) ); }
        else return 3;
    }
    return 0;
}
