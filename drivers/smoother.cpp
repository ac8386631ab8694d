#include "common.hpp"
#include <qlibs.h>
#include <functional>
using namespace qlibs;

// "setup kind n a b c win wgt w1 tmpl": a null pointer is passed where win/wgt/w1 is 0
struct Box {
    Buf<float> win, wgt, w1;
    std::unique_ptr<smootherLPF1> lpf1; std::unique_ptr<smootherLPF2> lpf2; std::unique_ptr<smootherMWM1> mwm1;
    std::unique_ptr<smootherMWM2> mwm2; std::unique_ptr<smootherMOR1> mor1; std::unique_ptr<smootherMOR2> mor2;
    std::unique_ptr<smootherGMWF> gmwf; std::unique_ptr<smootherEXPW> expw; std::unique_ptr<smootherKLMN> klmn;
    std::unique_ptr<smootherDESF> desf; std::unique_ptr<smootherALNF> alnf;
    smoother *s{ nullptr };
};
typedef float A4[ 4 ];
#define ARR( p ) ( *reinterpret_cast<A4*>( p ) )

int main()
{
    Args g; std::unique_ptr<Box> b; std::string kind;
    while ( nextOp( g ) ) {
        const std::string op = g.op();
        if ( op == "new" || op == "setup" ) {
            const std::string k = g.s(); const size_t n = static_cast<size_t>( g.u() );
            const float a = g.f(), bb = g.f(), c = g.f();
            const bool win = g.i() != 0, wgt = g.i() != 0, w1 = g.i() != 0; const long long how = g.i(); const bool tm = how == 1 && n == 4 && win && wgt;
            if ( op == "new" ) { b.reset( new Box ); kind = k; }
            // buffers must outlive a rejected set-up, so new ones are only taken when the size changes
            const size_t nn = n ? n : 1U;      // a window without elements still has an address
            Buf<float> nw( nn ), ng( nn ), n1( nn );
            for ( size_t q = 0; q < nn; ++q ) { nw[ q ] = 1e9f; ng[ q ] = -1e9f; n1[ q ] = 1e8f; }      // dirty storage
            // "2": the storage of the set-up before, with what the filter left in it
            const bool reuse = how == 2 && op == "setup" && b->win.p && b->win.n == nn && win && wgt && w1;
            if ( reuse ) { std::swap( b->win.p, nw.p ); std::swap( b->wgt.p, ng.p ); std::swap( b->w1.p, n1.p ); }
            float *pw = win ? nw.p : nullptr, *pg = wgt ? ng.p : nullptr, *p1 = w1 ? n1.p : nullptr;
            bool ok = false;
#define MK( K, T ) if ( !b->K ) b->K.reset( new T ); b->s = b->K.get();
            if ( k == "lpf1" ) { MK( lpf1, smootherLPF1 ) ok = a == 0.9f ? b->lpf1->setup() : b->lpf1->setup( a ); }
            else if ( k == "lpf2" ) { MK( lpf2, smootherLPF2 ) ok = a == 0.9f ? b->lpf2->setup() : b->lpf2->setup( a ); }
            else if ( k == "expw" ) { MK( expw, smootherEXPW ) ok = a == 0.8f ? b->expw->setup() : b->expw->setup( a ); }
            else if ( k == "klmn" ) { MK( klmn, smootherKLMN ) ok = b->klmn->setup( a, bb, c ); }
            else if ( k == "desf" ) { MK( desf, smootherDESF ) ok = b->desf->setup( a, bb, n ); }
            else if ( k == "mwm1" ) { MK( mwm1, smootherMWM1 ) ok = tm ? b->mwm1->setup( ARR( pw ) ) : b->mwm1->setup( pw, n ); }
            else if ( k == "mwm2" ) { MK( mwm2, smootherMWM2 ) ok = tm ? b->mwm2->setup( ARR( pw ) ) : b->mwm2->setup( pw, n ); }
            else if ( k == "mor1" ) { MK( mor1, smootherMOR1 ) ok = a == 0.9f ? ( tm ? b->mor1->setup( ARR( pw ) ) : b->mor1->setup( pw, n ) ) : tm ? b->mor1->setup( ARR( pw ), a ) : b->mor1->setup( pw, n, a ); }
            else if ( k == "mor2" ) { MK( mor2, smootherMOR2 ) ok = a == 0.9f ? ( tm ? b->mor2->setup( ARR( pw ) ) : b->mor2->setup( pw, n ) ) : tm ? b->mor2->setup( ARR( pw ), a ) : b->mor2->setup( pw, n, a ); }
            else if ( k == "gmwf" ) { MK( gmwf, smootherGMWF ) ok = tm ? b->gmwf->setup( a, bb, ARR( pw ), ARR( pg ) ) : b->gmwf->setup( a, bb, pw, pg, n ); }
            else if ( k == "alnf" ) {
                MK( alnf, smootherALNF )
                ok = !tm ? b->alnf->setup( a, bb, n, pw, pg, p1 ) : w1 ? b->alnf->setup( a, bb, ARR( pw ), ARR( pg ), ARR( p1 ) ) : b->alnf->setup( a, ARR( pw ), ARR( pg ) );
            }
            else return 3;
            if ( ok || reuse ) { std::swap( b->win.p, nw.p ); std::swap( b->win.n, nw.n ); std::swap( b->wgt.p, ng.p ); std::swap( b->wgt.n, ng.n ); std::swap( b->w1.p, n1.p ); std::swap( b->w1.n, n1.n ); }
            const float blog = ( k == "alnf" && tm && !w1 ) ? 0.0f : bb;
            J( op ).s( "kind", k ).i( "n", static_cast<long long>( n ) ).f( "a", a ).f( "b", blog ).f( "c", c ).b( "win", win ).b( "wgt", wgt ).b( "w1", w1 ).b( "ok", ok );
        }
        else if ( op == "x" ) { const float x = g.f(); J( "x" ).f( "x", x ).f( "y", b->s->smooth( x ) ); }
        else if ( op == "reset" ) {
            bool ok;
            if ( kind == "mwm2" ) ok = b->mwm2->reset(); else if ( kind == "mor2" ) ok = b->mor2->reset(); else ok = b->s->reset();
            J( "reset" ).b( "ok", ok );
        }
        else return 3;
    }
    return 0;
}
