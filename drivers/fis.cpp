// Driver for qlibs::fis.  Observes only the public interface: return values, the caller's rule-strength
// array, the caller's aggregated-region arrays and the crisp outputs.
#include "common.hpp"
#include <include/fis.hpp>
#include <map>
using namespace qlibs;

static real_t userMF( const fis::ioBase * const, const real_t *p, const size_t ) { return p[ 0 ]; }

struct Sys {
    virtual ~Sys() {}
    virtual bool setup() = 0;
    virtual bool setupInput( int t, float a, float b ) = 0;
    virtual bool setupOutput( int t, float a, float b ) = 0;
    virtual bool inMF( int io, int m, int s, const float *p, float h, bool user, bool defh ) = 0;
    virtual bool outMF( int io, int m, int s, const float *p, float h, bool user, bool defh ) = 0;
    virtual bool par( int p, int v ) = 0;
    virtual bool method( int m ) = 0;
    virtual bool weights( float *w ) = 0;
    virtual bool set( int t, float x ) = 0;
    virtual void select( int t ) = 0;
    virtual void put( float x ) = 0;
    virtual void puti( int x ) = 0;
    virtual bool fuzzify() = 0;
    virtual bool inference() = 0;
    virtual bool deFuzzify() = 0;
    virtual bool get( int t, float &v ) = 0;
    virtual float index( int t ) = 0;
    virtual size_t points() = 0;
    virtual fis::output *out( int t ) = 0;
    virtual const float *strengths() = 0;
};

template <class S> struct Common : Sys {
    S s;
    template <class... A> Common( A... a ) : s( a... ) {}
    bool setupInput( int t, float a, float b ) override { return s.setupInput( static_cast<fis::tag>( t ), a, b ); }
    bool setupOutput( int t, float a, float b ) override { return s.setupOutput( static_cast<fis::tag>( t ), a, b ); }
    bool inMF( int io, int m, int sh, const float *p, float h, bool user, bool defh ) override {
        const fis::tag a = static_cast<fis::tag>( io ), b = static_cast<fis::tag>( m );
        if ( user ) return defh ? s.setupInputMF( a, b, &userMF, p ) : s.setupInputMF( a, b, &userMF, p, h );
        return defh ? s.setupInputMF( a, b, static_cast<fis::shapeMF>( sh ), p ) : s.setupInputMF( a, b, static_cast<fis::shapeMF>( sh ), p, h );
    }
    bool outMF( int io, int m, int sh, const float *p, float h, bool user, bool defh ) override {
        const fis::tag a = static_cast<fis::tag>( io ), b = static_cast<fis::tag>( m );
        if ( user ) return defh ? s.setupOutputMF( a, b, &userMF, p ) : s.setupOutputMF( a, b, &userMF, p, h );
        return defh ? s.setupOutputMF( a, b, static_cast<fis::shapeMF>( sh ), p ) : s.setupOutputMF( a, b, static_cast<fis::shapeMF>( sh ), p, h );
    }
    bool par( int p, int v ) override { return s.setParameter( static_cast<fis::parameter>( p ), static_cast<fis::paramValue>( v ) ); }
    bool method( int m ) override { return s.setDeFuzzMethod( static_cast<fis::deFuzzMethod>( m ) ); }
    bool weights( float *w ) override { return s.setRuleWeights( w ); }
    bool set( int t, float x ) override { return s.setInput( static_cast<fis::tag>( t ), x ); }
    void select( int t ) override { const fis::tag g = static_cast<fis::tag>( t ); s << g; }
    void put( float x ) override { const real_t v = x; s << v; }
    void puti( int x ) override { s << x; }
    bool fuzzify() override { return s.fuzzify(); }
    bool inference() override { return s.inference(); }
    bool deFuzzify() override { return s.deFuzzify(); }
    bool get( int t, float &v ) override { return s.getOutput( static_cast<fis::tag>( t ), v ); }
    float index( int t ) override { return s[ static_cast<fis::tag>( t ) ]; }
    size_t points() override { return s.getNumberOfPoints(); }
};

struct Inst : Common<fis::instance> {
    int type; size_t ni, no, nmi, nmo, nr; bool nullw;
    std::unique_ptr<fis::input[]> in;
    std::unique_ptr<fis::output[]> o;
    std::unique_ptr<fis::mf[]> mi, mo;
    const fis::rules *r;
    std::unique_ptr<float[]> w;
    bool nullin;
    Inst( int t, size_t a, size_t b, size_t c, size_t d, size_t e, bool nw, bool nin, const fis::rules *rr )
        : type( t ), ni( a ), no( b ), nmi( c ), nmo( d ), nr( e ), nullw( nw ), in( new fis::input[ a ] ), o( new fis::output[ b ] ),
          mi( new fis::mf[ c ] ), mo( new fis::mf[ d ] ), r( rr ), w( new float[ e ]() ), nullin( nin ) {}
    void again( int t, size_t a, size_t b, size_t c, size_t d, size_t e, bool nw, bool nin, const fis::rules *rr ) {
        type = t; ni = a; no = b; nmi = c; nmo = d; nr = e; nullw = nw; nullin = nin; r = rr;
        in.reset( new fis::input[ a ] ); o.reset( new fis::output[ b ] ); mi.reset( new fis::mf[ c ] ); mo.reset( new fis::mf[ d ] ); w.reset( new float[ e ]() );
    }
    bool setup() override {
        return s.setup( static_cast<fis::type>( type ), nullin ? nullptr : in.get(), ni, o.get(), no, mi.get(), nmi, mo.get(), nmo, r, nr, nullw ? nullptr : w.get() );
    }
    fis::output *out( int t ) override { return &o[ t ]; }
    const float *strengths() override { return w.get(); }
};
// the wrapper class, in one fixed shape per inference type
template <fis::type T> struct Wrap : Common< fis::system<T, 2, 2, 4, 4, 3> > {
    explicit Wrap( const fis::rules *r ) : Common< fis::system<T, 2, 2, 4, 4, 3> >( r ) {}
    bool setup() override { return this->s.setup(); }
    fis::output *out( int ) override { return nullptr; }
    const float *strengths() override { return nullptr; }
};

int main()
{
    Args a;
    std::unique_ptr<Sys> s;
    std::vector< std::unique_ptr<float[]> > mem;
    std::vector< std::unique_ptr<fis::rules[]> > rmem;
    std::map<int, std::pair<float*, float*> > region;
    size_t no = 0, nr = 0; bool wrapped = false; float *lastW = nullptr;
    while ( nextOp( a ) ) {
        const std::string op = a.op();
        if ( op == "new" || op == "setup" ) {   // new wrap? type ni no nmi nmo nr nullw nullin tokens...
            const std::string kind = a.s();
            const int type = static_cast<int>( a.i() );
            const size_t ni = a.u(), o = a.u(), nmi = a.u(), nmo = a.u(), r = a.u();
            const bool nullw = a.i() != 0, nullin = a.i() != 0;
            std::vector<int> tok;
            while ( a.more() ) tok.push_back( static_cast<int>( a.i() ) );
            std::unique_ptr<fis::rules[]> rr( new fis::rules[ tok.size() ] );
            for ( size_t k = 0; k < tok.size(); ++k ) rr[ k ] = static_cast<fis::rules>( tok[ k ] );
            const fis::rules *rp = rr.get();
            rmem.push_back( std::move( rr ) );
            region.clear();
            if ( op == "new" ) {
                wrapped = kind == "w";
                if ( !wrapped ) s.reset( new Inst( type, ni, o, nmi, nmo, r, nullw, nullin, rp ) );
                else if ( type == 0 ) s.reset( new Wrap<fis::Mamdani>( rp ) );
                else if ( type == 1 ) s.reset( new Wrap<fis::Sugeno>( rp ) );
                else s.reset( new Wrap<fis::Tsukamoto>( rp ) );
            }
            else static_cast<Inst*>( s.get() )->again( type, ni, o, nmi, nmo, r, nullw, nullin, rp );
            no = o; nr = r;
            const bool ok = s->setup();
            J( op ).i( "type", type ).i( "ni", ni ).i( "no", o ).i( "nmi", nmi ).i( "nmo", nmo ).i( "nr", r ).b( "valid", !nullw && !nullin ).is( "rules", tok ).b( "ok", ok ).i( "pts", s->points() );
        }
        else if ( op == "in" || op == "out" ) {
            const int t = a.i(); const float lo = a.f(), hi = a.f();
            const bool ok = op == "in" ? s->setupInput( t, lo, hi ) : s->setupOutput( t, lo, hi );
            J( op ).i( "t", t ).f( "lo", lo ).f( "hi", hi ).b( "ok", ok );
        }
        else if ( op == "imf" || op == "omf" ) {   // io mf shape(-1: user function) h|- points...
            const int io = a.i(), m = a.i(), sh = a.i();
            const std::string hs = a.s(); const bool defh = hs == "-";
            const float h = defh ? 1.0f : std::strtof( hs.c_str(), nullptr );
            std::vector<float> p;
            while ( a.more() ) p.push_back( a.f() );
            std::unique_ptr<float[]> pp( new float[ p.size() ] );
            for ( size_t k = 0; k < p.size(); ++k ) pp[ k ] = p[ k ];
            const float *q = pp.get(); mem.push_back( std::move( pp ) );
            const bool ok = op == "imf" ? s->inMF( io, m, sh < 0 ? 0 : sh, q, h, sh < 0, defh ) : s->outMF( io, m, sh < 0 ? 0 : sh, q, h, sh < 0, defh );
            J( op ).i( "io", io ).i( "mf", m ).i( "shape", sh < 0 ? 0 : sh ).f( "h", h ).fs( "p", p ).b( "ok", ok );
        }
        else if ( op == "par" ) { const int p = a.i(), v = a.i(); const bool ok = s->par( p, v ); J( op ).i( "p", p ).i( "v", v ).b( "ok", ok ); }
        else if ( op == "method" ) { const int m = a.i(); const bool ok = s->method( m ); J( op ).i( "m", m ).b( "ok", ok ); }
        else if ( op == "weights" ) {
            std::vector<float> p;
            while ( a.more() ) p.push_back( a.f() );
            float *q = nullptr;
            if ( !p.empty() ) {
                std::unique_ptr<float[]> pp( new float[ p.size() ] );
                for ( size_t k = 0; k < p.size(); ++k ) pp[ k ] = p[ k ];
                q = pp.get(); mem.push_back( std::move( pp ) );
            }
            const bool ok = s->weights( q );
            if ( q ) lastW = q;
            J( op ).fs( "w", p ).b( "ok", ok );
        }
        else if ( op == "reweigh" ) {   // new weights written over the array handed over last
            std::vector<float> p;
            while ( a.more() ) p.push_back( a.f() );
            if ( lastW ) for ( size_t k = 0; k < p.size(); ++k ) lastW[ k ] = p[ k ];
            J( op ).fs( "w", p );
        }
        else if ( op == "store" ) {   // t n nullx
            const int t = a.i(); const size_t n = a.u(); const bool nul = a.i() != 0;
            std::unique_ptr<float[]> x( new float[ n ]() ), y( new float[ n ]() );
            const bool ok = s->out( t )->storeAggregatedRegion( nul ? nullptr : x.get(), y.get(), n );
            if ( ok ) region[ t ] = std::make_pair( x.get(), y.get() );
            mem.push_back( std::move( x ) ); mem.push_back( std::move( y ) );
            J( op ).i( "t", t ).i( "n", n ).b( "nul", nul ).b( "ok", ok );
        }
        else if ( op == "set" ) { const int t = a.i(); const float x = a.f(); const bool ok = s->set( t, x ); J( op ).i( "t", t ).f( "x", x ).b( "ok", ok ); }
        else if ( op == "sel" ) { const int t = a.i(); s->select( t ); J( op ).i( "t", t ); }
        else if ( op == "put" ) { const float x = a.f(); s->put( x ); J( op ).f( "x", x ); }
        else if ( op == "puti" ) { const int x = a.i(); s->puti( x ); J( "put" ).f( "x", x ); }
        else if ( op == "fuz" ) { const bool ok = s->fuzzify(); J( op ).b( "ok", ok ); }
        else if ( op == "inf" ) {
            const bool ok = s->inference();
            J e( op ); e.b( "ok", ok );
            std::vector<float> w; if ( s->strengths() ) w.assign( s->strengths(), s->strengths() + nr );
            e.b( "seen", s->strengths() != nullptr ).fs( "w", w );
        }
        else if ( op == "def" ) {
            const bool ok = s->deFuzzify();
            std::vector<float> v;
            for ( size_t t = 0; t < no; ++t ) { float y = 0; if ( ok ) s->get( static_cast<int>( t ), y ); v.push_back( y ); }
            J e( op ); e.b( "ok", ok ).fs( "v", v );
            e.key( "reg" ); e.o += "["; bool first = true;
            if ( ok ) for ( auto &g : region ) {
                if ( !first ) e.o += ",";
                first = false;
                e.o += "{\"t\":" + std::to_string( g.first );
                e.fs( "x", std::vector<float>( g.second.first, g.second.first + s->points() ) );
                e.fs( "y", std::vector<float>( g.second.second, g.second.second + s->points() ) );
                e.o += "}";
            }
            e.o += "]";
        }
        else if ( op == "get" ) { const int t = a.i(); float v = 12345.0f; const bool ok = s->get( t, v ); J( op ).i( "t", t ).b( "ok", ok ).f( "v", v ); }
        else if ( op == "idx" ) { const int t = a.i(); const float v = s->index( t ); J( op ).i( "t", t ).f( "v", v ); }
        else return 3;
    }
    return 0;
}
