// kind d: new|setup d MODE nb na b... a...     kind c: new|setup c MODE n dt b... a...   (n+1 coefficients each)
// MODE 0 pointers+sizes, 1 arrays / transfer function object (fixed sizes), 2 null num, 3 null den, 4 null states
#include "common.hpp"
#include <qlibs.h>
using namespace qlibs;
typedef std::vector<float> V;
#ifdef LTISYS_EVAL_MODEL_OBSERVABLE
#define OBS true
#else
#define OBS false
#endif
struct Obj {
    bool disc{ false };
    std::unique_ptr<discreteSystem> d; std::unique_ptr<continuousSystem> c;
    std::vector<std::shared_ptr<void>> keep;
    ltisys* sys() { return disc ? static_cast<ltisys*>( d.get() ) : static_cast<ltisys*>( c.get() ); }
    template<class T> T* store( size_t n ) { auto b = std::make_shared<Buf<T>>( n ); keep.push_back( b ); return b->p; }
    float* copy( const V &v ) { if ( v.empty() ) return store<float>( 1 ); float *p = store<float>( v.size() ); std::copy( v.begin(), v.end(), p ); return p; }
    template<size_t NB, size_t NA> bool dtf( const V &b, const V &a, bool arrays ) {
        float nb[ NB ], na[ NA ]; std::copy( b.begin(), b.end(), nb ); std::copy( a.begin(), a.end(), na );
        if ( arrays ) {
            struct S { float n[ NB ], m[ NA ]; };
            auto q = std::make_shared<S>(); keep.push_back( q );
            std::copy( b.begin(), b.end(), q->n ); std::copy( a.begin(), a.end(), q->m );
            float *x = store<float>( NB > NA ? NB : NA );
            for ( size_t k = 0; k < ( NB > NA ? NB : NA ); ++k ) x[ k ] = -77.0f;
            if ( !d ) { d.reset( new discreteSystem( q->n, q->m, x ) ); return d->isInitialized(); }
            return d->setup( q->n, q->m, x );
        }
        auto t = std::make_shared<discreteTF<NB, NA>>( nb, na ); keep.push_back( t );
        if ( !d ) { d.reset( new discreteSystem( *t ) ); return d->isInitialized(); }
        return d->setup( *t );
    }
    template<size_t N> bool ctf( const V &b, const V &a, float dt, bool arrays ) {
        float nb[ N + 1 ], na[ N + 1 ]; std::copy( b.begin(), b.end(), nb ); std::copy( a.begin(), a.end(), na );
        auto t = std::make_shared<continuousTF<N>>( nb, na ); keep.push_back( t );
        if ( !c ) { if ( arrays ) c.reset( new continuousSystem( t->num, t->den, t->states, dt ) ); else c.reset( new continuousSystem( *t, dt ) ); return c->isInitialized(); }
        return arrays ? c->setup( t->num, t->den, t->states, dt ) : c->setup( *t, dt );
    }
    // mode 6: the storage of the last set-up of the same dimensions, states as they were left, coefficients overwritten
    float *ln{ nullptr }, *ld{ nullptr }, *lx{ nullptr }; nState *ls{ nullptr }; size_t lnb{ 0 }, lna{ 0 };
    bool same( int mode, const V &b, const V &a ) {
        if ( mode != 6 || !ln || lnb != b.size() || lna != a.size() ) return false;
        std::copy( b.begin(), b.end(), ln ); std::copy( a.begin(), a.end(), ld );
        return true;
    }
    bool make( int mode, const V &b, const V &a, float dt ) {
        if ( disc ) {
            if ( same( mode, b, a ) ) return d->setup( ln, ld, lx, lnb, lna );
            if ( mode == 1 || mode == 5 ) {
                const size_t k = b.size()*10 + a.size();
                switch ( k ) { case 33: return dtf<3,3>( b, a, mode == 5 ); case 23: return dtf<2,3>( b, a, mode == 5 ); case 32: return dtf<3,2>( b, a, mode == 5 ); case 14: return dtf<1,4>( b, a, mode == 5 ); case 41: return dtf<4,1>( b, a, mode == 5 ); default: break; }
            }
            float *pn = mode == 2 ? nullptr : copy( b ), *pd = mode == 3 ? nullptr : copy( a );
            const size_t ns = b.size() > a.size() ? b.size() : a.size();
            float *px = mode == 4 ? nullptr : store<float>( ns ? ns : 1 );
            if ( px ) for ( size_t k = 0; k < ns; ++k ) px[ k ] = 123.0f;
            if ( pn && pd && px && !b.empty() && !a.empty() ) { ln = pn; ld = pd; lx = px; lnb = b.size(); lna = a.size(); }
            if ( !d ) { d.reset( new discreteSystem( pn, pd, px, b.size(), a.size() ) ); return d->isInitialized(); }
            return d->setup( pn, pd, px, b.size(), a.size() );
        }
        if ( same( mode, b, a ) ) {
            // the integration method belongs to the caller's state objects and stays with them: start from the default one
            for ( size_t k = 0; k + 1 < lna; ++k ) ls[ k ].setIntegrationMethod( INTEGRATION_TRAPEZOIDAL );
            return c->setup( ln, ld, ls, lna - 1, dt );
        }
        if ( mode == 1 || mode == 5 ) switch ( a.size() ) { case 2: return ctf<1>( b, a, dt, mode == 5 ); case 3: return ctf<2>( b, a, dt, mode == 5 ); case 4: return ctf<3>( b, a, dt, mode == 5 ); default: break; }
        float *pn = mode == 2 ? nullptr : copy( b ), *pd = mode == 3 ? nullptr : copy( a );
        nState *px = nullptr;
        if ( mode != 4 ) { const size_t n = a.size() > 1 ? a.size() - 1 : 1; auto s = std::shared_ptr<nState>( new nState[ n ], []( nState *q ) { delete[] q; } ); keep.push_back( s ); px = s.get(); for ( size_t k = 0; k < n; ++k ) px[ k ].init( 9.0f, -5.0f, 3.0f ); }
        if ( pn && pd && px && a.size() > 1 ) { ln = pn; ld = pd; ls = px; lnb = b.size(); lna = a.size(); }
        if ( !c ) { c.reset( new continuousSystem( pn, pd, px, a.size() ? a.size() - 1 : 0, dt ) ); return c->isInitialized(); }
        return c->setup( pn, pd, px, a.size() ? a.size() - 1 : 0, dt );
    }
};
int main()
{
    Args a; std::unique_ptr<Obj> o;
    while ( nextOp( a ) ) {
        const std::string op = a.op();
        J j( op );
        if ( op == "new" || op == "setup" ) {
            const bool disc = a.s() == "d"; const int mode = static_cast<int>( a.i() );
            size_t nb, na; float dt = 0;
            if ( disc ) { nb = a.u(); na = a.u(); } else { nb = na = a.u() + 1; dt = a.f(); }
            V b( nb ), d( na ); for ( auto &x : b ) x = a.f(); for ( auto &x : d ) x = a.f();
            if ( op == "new" ) { o.reset( new Obj ); o->disc = disc; }
            const bool ok = o->make( mode, b, d, dt );
            j.s( "kind", disc ? "d" : "c" ).b( "obs", OBS ).b( "null", mode >= 2 && mode <= 4 ).fs( "b", b ).fs( "a", d ).f( "dt", dt ).b( "ok", ok );
        }
        else if ( op == "u" ) { const float u = a.f(); const float y = o->sys()->excite( u ); j.f( "u", u ).f( "y", y ); }
        else if ( op == "init" ) {
            V x; bool own = false;
            while ( a.more() ) { if ( a.peek() == "own" ) { a.s(); own = true; } else x.push_back( a.f() ); }
            if ( own && o->disc && o->lx ) x.assign( o->lx, o->lx + std::max( o->lnb, o->lna - 1 ) );       // the states the system is in
            if ( own && !o->disc && o->ls ) for ( size_t k = 0; k + 1 < o->lna; ++k ) x.push_back( o->ls[ k ]() );
            bool ok;
            if ( x.empty() ) ok = o->sys()->setInitStates(); else { Buf<float> t( x.size() ); std::copy( x.begin(), x.end(), t.p ); ok = o->sys()->setInitStates( t.p ); }
            j.fs( "xi", x ).b( "ok", ok );
        }
        else if ( op == "sat" ) { const float lo = a.f(), hi = a.f(); j.f( "lo", lo ).f( "hi", hi ).b( "ok", o->sys()->setSaturation( lo, hi ) ); }
        else if ( op == "delay" ) { const size_t n = a.u(); const float v = a.f(); j.i( "n", n ).f( "v", v ).b( "ok", v == 0.0f ? o->sys()->setDelay( o->store<float>( n ), n ) : o->sys()->setDelay( o->store<float>( n ), n, v ) ); }
        else if ( op == "im" ) {
            const std::string m = a.s();
            j.s( "m", m ).b( "ok", o->c->setIntegrationMethod( m == "rect" ? INTEGRATION_RECTANGULAR : m == "trap" ? INTEGRATION_TRAPEZOIDAL : m == "simp" ? INTEGRATION_SIMPSON : INTEGRATION_QUADRATIC ) );
        }
        else if ( op == "fir" ) {
            const size_t n = a.u(); const bool hasc = a.i() != 0; const float x = a.f();
            Buf<float> w( n ), c( n ); for ( size_t k = 0; k < n; ++k ) w[ k ] = a.f();
            if ( hasc ) for ( size_t k = 0; k < n; ++k ) c[ k ] = a.f();
            j.f( "x", x ).fs( "w", w.vec() ).fs( "c", hasc ? c.vec() : V() );
            const float y = hasc ? discreteSystem::updateFIR( w.p, n, x, c.p ) : discreteSystem::updateFIR( w.p, n, x );
            j.f( "y", y ).fs( "w2", w.vec() );
        }
        else return 3;
        const ltisysType t = o->sys()->getType();
        j.b( "live", o->sys()->isInitialized() ).s( "type", t == LTISYS_TYPE_DISCRETE ? "discrete" : t == LTISYS_TYPE_CONTINUOUS ? "continuous" : "unknown" );
    }
    return 0;
}
