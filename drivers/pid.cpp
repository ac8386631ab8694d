#include "common.hpp"
#include <qlibs.h>
using namespace qlibs;
int main()
{
    Args a; std::unique_ptr<pidController> p; std::unique_ptr<real_t> refp( new real_t( 0.0f ) ); real_t &ref = *refp; bool live = false;
    while ( nextOp( a ) ) {
        const std::string op = a.op(); J j( op );
        if ( op == "new" || op == "setup" ) {
            if ( op == "new" ) { p.reset( new pidController ); live = false; ref = 0.0f; }
            const float kc = a.f(), ki = a.f(), kd = a.f(), dt = a.f(); const bool st = a.more() && a.i() == 1;
            pidGains g = { kc, ki, kd };
            const bool ok = st ? p->setup( g, dt ) : p->setup( kc, ki, kd, dt );
            live = live || ok;
            j.f( "kc0", kc ).f( "ki0", ki ).f( "kd0", kd ).f( "dt", dt ).b( "ok", ok );
        }
        else if ( op == "ctl" ) { const float w = a.f(), y = a.f(); ref = a.f(); const float u = p->control( w, y ); j.f( "w", w ).f( "y", y ).f( "ref", ref ).f( "u", u ); }
        else if ( op == "gains" ) {
            const float x = a.f(), y = a.f(), z = a.f(); const bool st = a.more() && a.i() == 1; pidGains g = { x, y, z };
            j.f( "a", x ).f( "b", y ).f( "d", z ).b( "ok", st ? p->setGains( g ) : p->setGains( x, y, z ) );
        }
        else if ( op == "params" ) { const float x = a.f(), y = a.f(), z = a.f(); j.f( "p", x ).f( "ti", y ).f( "td", z ).b( "ok", p->setParams( x, y, z ) ); }
        else if ( op == "series" ) j.b( "ok", p->setSeries() );
        else if ( op == "extra" ) { const float x = a.f(), y = a.f(); j.f( "a", x ).f( "b", y ).b( "ok", p->setExtraGains( x, y ) ); }
        else if ( op == "sat" ) { const float x = a.f(), y = a.f(); j.f( "a", x ).f( "b", y ).b( "ok", p->setSaturation( x, y ) ); }
        else if ( op == "eps" ) { const float x = a.f(); j.f( "a", x ).b( "ok", p->setEpsilon( x ) ); }
        else if ( op == "beta" ) { const float x = a.f(); j.f( "a", x ).b( "ok", p->setDerivativeFilter( x ) ); }
        else if ( op == "tau" ) { const float x = a.f(); j.f( "a", x ).b( "ok", p->setDerivativeFilterTimeConstant( x ) ); }
        else if ( op == "mode" ) { const std::string s = a.s(); j.s( "s", s ).b( "ok", p->setMode( s == "man" ? pidMode::PID_MANUAL : pidMode::PID_AUTOMATIC ) ); }
        else if ( op == "dir" ) { const std::string s = a.s(); j.s( "s", s ).b( "ok", p->setDirection( s == "bwd" ? pidDirection::PID_BACKWARD : pidDirection::PID_FORWARD ) ); }
        else if ( op == "weight" ) { const float x = a.f(), y = a.f(); j.f( "a", x ).f( "b", y ).b( "ok", p->setReferenceWeighting( x, y ) ); }
        else if ( op == "manual" ) { const float x = a.f(); j.f( "a", x ).b( "ok", p->setManualInput( x ) ); }
        else if ( op == "mrac" ) { float x = 0.5f, y = 0.01f; bool ok; if ( a.more() ) { x = a.f(); y = a.f(); ok = p->setModelReferenceControl( ref, x, y ); } else ok = p->setModelReferenceControl( ref ); j.f( "a", x ).f( "b", y ).b( "ok", ok ); }
        else if ( op == "unmrac" ) j.b( "ok", p->removeModelReferenceControl() );
        else if ( op == "reset" ) j.b( "ok", p->reset() );
        else if ( op == "im" ) { const std::string m = a.s(); p->setIntegrationMethod( m == "rect" ? INTEGRATION_RECTANGULAR : m == "trap" ? INTEGRATION_TRAPEZOIDAL : m == "simp" ? INTEGRATION_SIMPSON : INTEGRATION_QUADRATIC ); j.s( "s", m ); }
        else if ( op == "dm" ) { const std::string m = a.s(); p->setDerivationMethod( m == "two" ? DERIVATION_2POINTS : m == "back" ? DERIVATION_BACKWARD : DERIVATION_FORWARD ); j.s( "s", m ); }
        else return 3;
        const pidGains g = live ? p->getGains() : pidGains{ 0, 0, 0 };
        j.f( "kc", g.Kc ).f( "ki", g.Ki ).f( "kd", g.Kd );
    }
    return 0;
}
