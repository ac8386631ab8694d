#include "common.hpp"
#include <qlibs.h>
using namespace qlibs;
int main()
{
    Args a; std::unique_ptr<pidController> p; pidAutoTuning *t = nullptr; bool live = false; double pa = 0.8, pk = 2.0, yp = 0.0; bool open = false; float uo = 0.0f, dtv = 1.0f;
    while ( nextOp( a ) ) {
        const std::string op = a.op(); J j( op );
        if ( op == "new" || op == "setup" ) {
            if ( op == "new" ) { p.reset( new pidController ); delete[] t; t = new pidAutoTuning[ 2 ]; live = false; open = false; uo = 0.0f; yp = 0.0; pa = 0.8; pk = 2.0; }
            const float kc = a.f(), ki = a.f(), kd = a.f(), dt = a.f(); const bool ok = p->setup( kc, ki, kd, dt ); live = live || ok; if ( ok ) { dtv = dt; open = false; }
            j.f( "kc0", kc ).f( "ki0", ki ).f( "kd0", kd ).f( "dt", dt ).b( "ok", ok );
        }
        else if ( op == "plant" ) { pa = a.d(); pk = a.d(); if ( a.more() ) yp = a.d(); }
        else if ( op == "sat" ) { const float x = a.f(), y = a.f(); j.b( "ok", p->setSaturation( x, y ) ); }
        else if ( op == "open" ) { open = true; j.b( "ok", p->setMode( pidMode::PID_MANUAL ) && p->setExtraGains( 0.0f, 1.0f ) ); }   // open loop: u follows the manual input only
        else if ( op == "gains" ) { const float x = a.f(), y = a.f(), z = a.f(); j.f( "a", x ).f( "b", y ).f( "d", z ).b( "ok", p->setGains( x, y, z ) ); }
        else if ( op == "bind" ) { const int k = static_cast<int>( a.i() ); j.i( "k", k ).b( "ok", p->bindAutoTuning( t[ k ] ) ); }
        else if ( op == "unbind" ) j.b( "ok", p->unbindAutoTuning() );
        else if ( op == "enable" ) { const std::string s = a.s(); const uint32_t n = s == "ever" ? pidAutoTuning::UNDEFINED : static_cast<uint32_t>( std::stoul( s ) ); j.i( "n", s == "ever" ? 0 : n ).b( "ok", p->enableAutoTuning( n ) ); }
        else if ( op == "params" ) { const float x = a.f(), y = a.f(), z = a.f(); j.f( "mu", x ).f( "sp", y ).f( "l", z ).b( "ok", p->setAutoTuningParameters( x, y, z ) ); }
        else if ( op == "type" ) { const std::string s = a.s(); j.s( "s", s ).b( "ok", p->setAutoTuningControllerType( s == "P" ? pidType::PID_TYPE_P : s == "PI" ? pidType::PID_TYPE_PI : s == "PD" ? pidType::PID_TYPE_PD : pidType::PID_TYPE_PID ) ); }
        else if ( op == "reset" ) j.b( "ok", p->reset() );
        else if ( op == "step" ) { const float w = a.f(); const double noise = a.d(); const float y = static_cast<float>( yp + noise ); if ( open ) (void)p->setManualInput( ( w - uo )/( 2.0f*dtv ) ); const float u = p->control( w, y ); uo = u; yp = pa*yp + pk*( 1.0 - pa )*u; j.f( "y", y ).f( "u", u ); }
        else if ( op == "run" ) {     // many steps under a square wave; only the moments of change are logged
            const uint64_t n = static_cast<uint64_t>( std::stoull( a.s() ) ); uint64_t first = 0, changes = 0, rep = 0, lost = 0;
            pidGains g0 = p->getGains();
            for ( uint64_t k = 1; k <= n; ++k ) {
                const float w = ( k/40U ) % 2U ? 1.0f : 2.5f, y = static_cast<float>( yp );
                if ( open ) (void)p->setManualInput( ( w - uo )/( 2.0f*dtv ) );
                const float u = p->control( w, y ); uo = u; yp = pa*yp + pk*( 1.0 - pa )*u;
                const pidGains g1 = p->getGains();
                if ( g1.Kc != g0.Kc || g1.Ki != g0.Ki || g1.Kd != g0.Kd ) { ++changes; if ( first == 0 ) first = k; g0 = g1; }
                if ( p->isAutoTuningComplete() ) { if ( rep == 0 ) rep = k; } else if ( rep != 0 ) ++lost;
            }
            auto cap = []( uint64_t v ) { return static_cast<long>( v > 2000000000U ? 2000000000U : v ); };
            j.i( "n", cap( n ) ).i( "first", cap( first ) ).i( "changes", cap( changes ) ).i( "rep", cap( rep ) ).i( "lost", cap( lost ) );
        }
        else return 3;
        const pidGains g = live ? p->getGains() : pidGains{ 0, 0, 0 };
        j.f( "kc", g.Kc ).f( "ki", g.Ki ).f( "kd", g.Kd ).b( "done", p->isAutoTuningComplete() );
        j.key( "est" ); j.o += "[";
        for ( int k = 0; k < 2; ++k ) { const pidGains e = t[ k ].getEstimates(); j.o += std::string( k ? "," : "" ) + "[\"" + num( e.Kc ) + "\",\"" + num( e.Ki ) + "\",\"" + num( e.Kd ) + "\"]"; }
        j.o += "]";
    }
    delete[] t;
    return 0;
}
