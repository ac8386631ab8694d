// Shared by all drivers: script reading (one operation per line) and NDJSON event logging.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <memory>

struct Args {
    std::vector<std::string> t;
    size_t p{ 1 };
    const std::string& op() const { return t[ 0 ]; }
    bool more() const { return p < t.size(); }
    std::string peek() const { return p < t.size() ? t[ p ] : std::string(); }
    std::string s() { if ( p >= t.size() ) { std::fprintf( stderr, "script: missing argument in '%s'\n", t[0].c_str() ); std::exit( 3 ); } return t[ p++ ]; }
    float f() { const std::string v = s(); return std::strtof( v.c_str(), nullptr ); }
    double d() { const std::string v = s(); return std::strtod( v.c_str(), nullptr ); }
    long long i() { const std::string v = s(); return std::strtoll( v.c_str(), nullptr, 0 ); }
    unsigned long long u() { const std::string v = s(); return std::strtoull( v.c_str(), nullptr, 0 ); }
};

// With VERIF_INTERLEAVE the driver runs once per slot, each in its own coroutine with its own objects; the script line
// "k|op ..." is executed by slot k, and what it logs is prefixed with "k|".
#ifdef VERIF_INTERLEAVE
#include <ucontext.h>
int driverMain();
struct Fleet {
    static const int N = 4;
    ucontext_t home, ctx[ N ];
    std::vector<char> stack[ N ];
    bool started[ N ], ended[ N ];
    int rc[ N ];
    int cur;
    std::string line;
    bool eof;
    void go( int k ) { cur = k; swapcontext( &home, &ctx[ k ] ); if ( ended[ k ] && rc[ k ] != 0 ) std::exit( rc[ k ] ); }
    void start( int k );
};
static Fleet fleet;
static void fleetEntry() { const int k = fleet.cur; fleet.rc[ k ] = driverMain(); fleet.ended[ k ] = true; }
inline void Fleet::start( int k )
{
    started[ k ] = true; ended[ k ] = false; stack[ k ].resize( 1 << 20 );
    getcontext( &ctx[ k ] ); ctx[ k ].uc_stack.ss_sp = stack[ k ].data(); ctx[ k ].uc_stack.ss_size = stack[ k ].size(); ctx[ k ].uc_link = &home;
    makecontext( &ctx[ k ], &fleetEntry, 0 );
    go( k );      // up to its first nextOp
}
static bool nextLine( std::string &l ) { swapcontext( &fleet.ctx[ fleet.cur ], &fleet.home ); l = fleet.line; return !fleet.eof; }
static std::string mark() { return std::to_string( fleet.cur ) + "|"; }
int main()
{
    std::string l;
    fleet.eof = false;
    while ( std::getline( std::cin, l ) ) {
        if ( l.size() < 3 || l[ 1 ] != '|' ) continue;
        const int k = l[ 0 ] - '0';
        if ( k < 0 || k >= Fleet::N ) return 3;
        if ( !fleet.started[ k ] ) fleet.start( k );
        fleet.line = l.substr( 2 );
        fleet.go( k );
    }
    fleet.eof = true;
    for ( int k = 0; k < Fleet::N; ++k ) if ( fleet.started[ k ] && !fleet.ended[ k ] ) fleet.go( k );
    return 0;
}
#define main driverMain
#else
static inline bool nextLine( std::string &l ) { return static_cast<bool>( std::getline( std::cin, l ) ); }
static inline const char *mark() { return ""; }
#endif

// "hold N op ..." repeats an operation N times. Of a run of identical events only the first is logged: a settled object that answers
// the same thing again does not move, which in the specification is a stuttering step.
struct Hold { unsigned long long left; std::string last; };
static Hold held = { 0, "" };
static inline bool nextOp( Args &a )
{
    std::string line;
    if ( held.left > 0 ) { --held.left; a.p = 1; return true; }
    held.last.clear();
    while ( nextLine( line ) ) {
        std::istringstream is( line );
        a.t.clear(); a.p = 1;
        std::string w;
        while ( is >> w ) a.t.push_back( w );
        if ( a.t.size() > 2 && a.t[ 0 ] == "hold" ) {
            held.left = std::strtoull( a.t[ 1 ].c_str(), nullptr, 0 ) - 1U;
            a.t.erase( a.t.begin(), a.t.begin() + 2 );
        }
        if ( !a.t.empty() && a.t[ 0 ][ 0 ] != '#' ) return true;
    }
    return false;
}

static inline std::string num( double x )   // exact: C99 hexadecimal
{
    if ( x != x ) return "nan";
    if ( x > 1.7e308 && x == 2*x ) return "inf";
    if ( x < -1.7e308 && x == 2*x ) return "-inf";
    char b[ 64 ];
    std::snprintf( b, sizeof b, "%a", x );
    return b;
}

struct J {
    std::string o;
    explicit J( const std::string &op ) { o = mark(); o += "{\"op\":\"" + op + "\""; }
    J& key( const char *k ) { o += ",\""; o += k; o += "\":"; return *this; }
    J& f( const char *k, double v ) { key( k ); o += "\"" + num( v ) + "\""; return *this; }
    J& i( const char *k, long long v ) { key( k ); o += std::to_string( v ); return *this; }         // must fit 32 bit
    J& n( const char *k, long long v ) { key( k ); o += "\"" + std::to_string( v ) + "\""; return *this; }  // any width, as a Num string
    J& u( const char *k, unsigned long long v ) { key( k ); o += "\"" + std::to_string( v ) + "\""; return *this; }
    J& b( const char *k, bool v ) { key( k ); o += v ? "true" : "false"; return *this; }
    J& s( const char *k, const std::string &v ) {
        key( k ); o += "\"";
        for ( unsigned char c : v ) {
            if ( c == '"' || c == '\\' ) { o += '\\'; o += static_cast<char>( c ); }
            else if ( c < 32 || c > 126 ) { char e[ 8 ]; std::snprintf( e, sizeof e, "\\u%04x", c ); o += e; }
            else o += static_cast<char>( c );
        }
        o += "\""; return *this;
    }
    template <class C> J& fs( const char *k, const C &v ) {
        key( k ); o += "["; bool first = true;
        for ( auto x : v ) { if ( !first ) o += ","; first = false; o += "\"" + num( x ) + "\""; }
        o += "]"; return *this;
    }
    template <class C> J& is( const char *k, const C &v ) {
        key( k ); o += "["; bool first = true;
        for ( auto x : v ) { if ( !first ) o += ","; first = false; o += std::to_string( static_cast<long long>( x ) ); }
        o += "]"; return *this;
    }
    template <class C> J& ns( const char *k, const C &v ) {   // wide integers, as Num strings
        key( k ); o += "["; bool first = true;
        for ( auto x : v ) { if ( !first ) o += ","; first = false; o += "\"" + std::to_string( static_cast<long long>( x ) ) + "\""; }
        o += "]"; return *this;
    }
    ~J() {
        o += "}\n";
        if ( held.left > 0 || !held.last.empty() ) { if ( o == held.last ) return; held.last = o; }
        std::fwrite( o.data(), 1, o.size(), stdout ); std::fflush( stdout );
    }
};

// A heap block of exactly n elements, so that AddressSanitizer sees every access outside it.
template <class T> struct Buf {
    T *p; size_t n;
    explicit Buf( size_t n_ = 0 ) : p( n_ ? static_cast<T*>( std::malloc( n_*sizeof( T ) ) ) : nullptr ), n( n_ ) { if ( p ) std::memset( static_cast<void*>( p ), 0, n*sizeof( T ) ); }
    ~Buf() { std::free( p ); }
    Buf( const Buf& ) = delete; Buf& operator=( const Buf& ) = delete;
    void reset( size_t m ) { std::free( p ); n = m; p = m ? static_cast<T*>( std::malloc( m*sizeof( T ) ) ) : nullptr; if ( p ) std::memset( static_cast<void*>( p ), 0, m*sizeof( T ) ); }
    T& operator[]( size_t i ) { return p[ i ]; }
    std::vector<T> vec() const { return std::vector<T>( p, p + n ); }
};
#endif
