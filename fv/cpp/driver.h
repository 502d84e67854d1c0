// Common part of the C++ drivers: command input, JSON output, storages that watch memory exactly.
#pragma once
#include <flatdata/flatdata.h>

#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <type_traits>
#include <vector>

namespace fv
{
struct In
{
    std::vector< std::string > t;
    size_t i = 0;
    bool done( ) const { return i >= t.size( ); }
    const std::string&
    s( )
    {
        if ( done( ) )
        {
            std::cerr << "DRIVER: command too short" << std::endl;
            std::_Exit( 77 );
        }
        return t[ i++ ];
    }
    uint64_t
    n( )
    {
        const std::string& v = s( );
        return v[ 0 ] == '-' ? static_cast< uint64_t >( std::strtoll( v.c_str( ), nullptr, 10 ) )
                             : std::strtoull( v.c_str( ), nullptr, 10 );
    }
    std::string
    bytes( )
    {
        const std::string& v = s( );
        std::string out;
        for ( size_t k = 1; k + 1 < v.size( ); k += 2 )
        {
            out.push_back( static_cast< char >( std::strtoul( v.substr( k, 2 ).c_str( ), nullptr, 16 ) ) );
        }
        return out;
    }
};

struct Out
{
    std::ostringstream o;
    void raw( const std::string& s ) { o << s; }
    void
    str( const std::string& s )
    {
        static const char* d = "0123456789abcdef";
        o << '"';
        for ( unsigned char c : s )
        {
            if ( c < 32 || c > 126 || c == '"' || c == '\\' )
            {
                o << "\\u00" << d[ c >> 4 ] << d[ c & 15 ];
            }
            else
            {
                o << c;
            }
        }
        o << '"';
    }
    void
    hex( const unsigned char* p, size_t n )
    {
        static const char* d = "0123456789abcdef";
        o << '"';
        for ( size_t k = 0; k < n; k++ )
        {
            o << d[ p[ k ] >> 4 ] << d[ p[ k ] & 15 ];
        }
        o << '"';
    }
    template < typename T >
    typename std::enable_if< std::is_enum< T >::value >::type
    num( T v )
    {
        num( static_cast< typename std::underlying_type< T >::type >( v ) );
    }
    void num( bool v ) { o << ( v ? 1 : 0 ); }
    template < typename T >
    typename std::enable_if< std::is_integral< T >::value && !std::is_same< T, bool >::value >::type
    num( T v )
    {
        if ( std::is_signed< T >::value )
        {
            o << static_cast< long long >( v );
        }
        else
        {
            o << static_cast< unsigned long long >( v );
        }
    }
};

struct Sep
{
    Out& o;
    bool first = true;
    void
    next( )
    {
        if ( !first )
        {
            o.raw( "," );
        }
        first = false;
    }
};

template < typename T >
T
conv( uint64_t v )
{
    return static_cast< T >( v );
}

// -------------------------------------------------------------------------------------------------
// A storage in memory: every resource is handed out in an allocation of exactly its size, writes are
// logged. It follows the interface the library documents for storages.

struct Event
{
    char kind;  // 'c' create, 'w' write, 'f' flush
    std::string name;
    size_t offset;
    std::string data;
};

struct Disk
{
    std::map< std::string, std::string > files;
    std::set< std::string > dirs;
    std::vector< Event > log;
    std::vector< std::pair< void*, size_t > > given;
    bool logging = false;
    long long fail_after = -1;   // bytes until writing fails
    long long fail_calls = -1;   // failing writes until writing works again
    size_t buffer = 0;           // bytes a stream keeps back before it writes them
    ~Disk( )
    {
        for ( auto& g : given )
        {
            std::free( g.first );
        }
    }
};

class DiskBuf : public std::streambuf
{
public:
    DiskBuf( std::shared_ptr< Disk > disk, const std::string& name )
        : m_disk( disk )
        , m_name( name )
    {
        m_disk->files[ name ] = "";
        if ( m_disk->logging )
        {
            m_disk->log.push_back( Event{ 'c', name, 0, "" } );
        }
    }

    ~DiskBuf( ) override
    {
        drain( );
    }

protected:
    std::streamsize
    xsputn( const char* s, std::streamsize n ) override
    {
        if ( m_disk->buffer == 0 )
        {
            return put( s, n );
        }
        if ( m_pending.size( ) + n > m_disk->buffer && !drain( ) )
        {
            return 0;
        }
        if ( static_cast< size_t >( n ) > m_disk->buffer )
        {
            return put( s, n );
        }
        m_pending.append( s, n );
        return n;
    }
    bool
    drain( )
    {
        size_t done = m_pending.empty( ) ? 0 : put( m_pending.data( ), m_pending.size( ) );
        m_pending.erase( 0, done );
        return m_pending.empty( );
    }
    std::streamsize
    put( const char* s, std::streamsize n )
    {
        std::streamsize want = n;
        if ( m_disk->fail_after >= 0 )
        {
            n = std::min< std::streamsize >( n, m_disk->fail_after );
            m_disk->fail_after -= n;
            if ( n < want && m_disk->fail_calls > 0 && --m_disk->fail_calls == 0 )
            {
                m_disk->fail_after = -1;
            }
        }
        std::string& f = m_disk->files[ m_name ];
        if ( f.size( ) < m_pos + n )
        {
            f.resize( m_pos + n );
        }
        std::memcpy( &f[ 0 ] + m_pos, s, n );
        if ( m_disk->logging )
        {
            m_disk->log.push_back( Event{ 'w', m_name, m_pos, std::string( s, n ) } );
        }
        m_pos += n;
        (void)want;
        return n;
    }
    int
    overflow( int c ) override
    {
        char ch = static_cast< char >( c );
        return xsputn( &ch, 1 ) == 1 ? c : EOF;
    }
    int
    sync( ) override
    {
        if ( m_disk->logging )
        {
            m_disk->log.push_back( Event{ 'f', m_name, 0, "" } );
        }
        return drain( ) ? 0 : -1;
    }
    std::streampos
    seekoff( std::streamoff off, std::ios_base::seekdir dir, std::ios_base::openmode ) override
    {
        if ( !drain( ) )
        {
            return std::streampos( std::streamoff( -1 ) );
        }
        if ( dir == std::ios_base::beg )
        {
            m_pos = off;
        }
        else if ( dir == std::ios_base::cur )
        {
            m_pos += off;
        }
        else
        {
            m_pos = m_disk->files[ m_name ].size( ) + off;
        }
        return m_pos;
    }
    std::streampos
    seekpos( std::streampos pos, std::ios_base::openmode ) override
    {
        if ( !drain( ) )
        {
            return std::streampos( std::streamoff( -1 ) );
        }
        m_pos = pos;
        return m_pos;
    }

private:
    std::shared_ptr< Disk > m_disk;
    std::string m_name;
    size_t m_pos = 0;
    std::string m_pending;
};

class DiskStream : public std::ostream
{
public:
    DiskStream( std::shared_ptr< Disk > disk, const std::string& name )
        : std::ostream( nullptr )
        , m_buf( disk, name )
    {
        rdbuf( &m_buf );
    }

private:
    DiskBuf m_buf;
};

class DiskStorage : public flatdata::ResourceStorage
{
public:
    DiskStorage( std::shared_ptr< Disk > disk, const std::string& prefix )
        : m_disk( disk )
        , m_prefix( prefix )
    {
    }
    std::unique_ptr< flatdata::ResourceStorage >
    create_directory( const char* key ) override
    {
        m_disk->dirs.insert( m_prefix + key + "/" );
        return std::unique_ptr< flatdata::ResourceStorage >( new DiskStorage( m_disk, m_prefix + key + "/" ) );
    }
    std::unique_ptr< flatdata::ResourceStorage >
    directory( const char* key ) override
    {
        if ( !m_disk->dirs.count( m_prefix + key + "/" ) )
        {
            return nullptr;
        }
        return std::unique_ptr< flatdata::ResourceStorage >( new DiskStorage( m_disk, m_prefix + key + "/" ) );
    }
    bool
    exists( const char* key ) override
    {
        return m_disk->files.count( m_prefix + key ) || m_disk->dirs.count( m_prefix + key + "/" );
    }

protected:
    std::shared_ptr< std::ostream >
    create_output_stream( const char* key ) override
    {
        return std::shared_ptr< std::ostream >( new DiskStream( m_disk, m_prefix + key ) );
    }
    flatdata::MemoryDescriptor
    read_resource( const char* key ) override
    {
        auto f = m_disk->files.find( m_prefix + key );
        if ( f == m_disk->files.end( ) || f->second.empty( ) )
        {
            return flatdata::MemoryDescriptor( );
        }
        char* p = static_cast< char* >( std::malloc( f->second.size( ) ) );
        std::memcpy( p, f->second.data( ), f->second.size( ) );
        m_disk->given.emplace_back( p, f->second.size( ) );
        return flatdata::MemoryDescriptor( p, f->second.size( ) );
    }

private:
    std::shared_ptr< Disk > m_disk;
    std::string m_prefix;
};

inline void
load( const boost::filesystem::path& root, const std::string& prefix, Disk& disk )
{
    namespace fs = boost::filesystem;
    for ( fs::directory_iterator it( root ), end; it != end; ++it )
    {
        std::string name = prefix + it->path( ).filename( ).string( );
        if ( fs::is_directory( it->path( ) ) )
        {
            disk.dirs.insert( name + "/" );
            load( it->path( ), name + "/", disk );
        }
        else
        {
            std::ifstream f( it->path( ).string( ), std::ios::binary );
            std::stringstream ss;
            ss << f.rdbuf( );
            disk.files[ name ] = ss.str( );
        }
    }
}

struct Ctx
{
    std::map< std::string, std::shared_ptr< Disk > > disks;

    // file:DIR (create) open:DIR tar:FILE tarsub:FILE:SUB mem:DIR exact:DIR disk:NAME
    std::shared_ptr< flatdata::ResourceStorage >
    storage( const std::string& spec )
    {
        size_t c = spec.find( ':' );
        std::string kind = spec.substr( 0, c ), arg = spec.substr( c + 1 );
        if ( kind == "file" )
        {
            return flatdata::FileResourceStorage::create( arg.c_str( ) );
        }
        if ( kind == "open" )
        {
            return flatdata::FileResourceStorage::open( arg.c_str( ) );
        }
        if ( kind == "tar" )
        {
            return flatdata::TarArchiveResourceStorage::create( arg.c_str( ) );
        }
        if ( kind == "tarsub" )
        {
            size_t k = arg.rfind( ':' );
            return flatdata::TarArchiveResourceStorage::create( arg.substr( 0, k ).c_str( ),
                                                                arg.substr( k + 1 ).c_str( ) );
        }
        if ( kind == "disk" )
        {
            auto& d = disks[ arg ];
            if ( !d )
            {
                d = std::make_shared< Disk >( );
            }
            return std::make_shared< DiskStorage >( d, "" );
        }
        auto d = std::make_shared< Disk >( );
        if ( !arg.empty( ) )
        {
            load( arg, "", *d );
        }
        if ( kind == "exact" )
        {
            return std::make_shared< DiskStorage >( d, "" );
        }
        if ( kind == "mem" )
        {
            auto m = flatdata::MemoryResourceStorage::create( );
            for ( auto& x : d->dirs )
            {
                m->create_directory( x.substr( 0, x.size( ) - 1 ).c_str( ) );
            }
            for ( auto& f : d->files )
            {
                m->assign_value( f.first.c_str( ),
                                 flatdata::MemoryDescriptor( f.second.data( ), f.second.size( ) ) );
            }
            return std::shared_ptr< flatdata::ResourceStorage >( std::move( m ) );
        }
        std::cerr << "DRIVER: unknown storage " << spec << std::endl;
        std::_Exit( 77 );
    }
};

// -------------------------------------------------------------------------------------------------
// dumping of resources; `Dump` of a generated structure is specialised by the generated part

template < typename S >
struct Dump;   // static void all( Out&, S ); static void fill( S::MutatorType, In& )

template < typename S >
void
dump_one( Out& o, S s )
{
    Dump< S >::all( o, s );
}

inline void
dump_res( Out& o, const flatdata::MemoryDescriptor& d )
{
    if ( !d )
    {
        o.raw( "null" );
        return;
    }
    o.hex( d.data( ), d.size( ) );
}

template < typename S >
void
dump_res( Out& o, const flatdata::ArrayView< S >& v )
{
    if ( !v )
    {
        o.raw( "null" );
        return;
    }
    o.raw( "{\"n\":" );
    o.num( v.size( ) );
    o.raw( ",\"v\":[" );
    Sep sep{ o };
    for ( size_t i = 0; i < v.size( ); i++ )
    {
        sep.next( );
        dump_one< S >( o, v[ i ] );
    }
    o.raw( "],\"it\":" );
    size_t k = 0;
    bool same = v.empty( ) == ( v.size( ) == 0 ) && static_cast< size_t >( v.end( ) - v.begin( ) ) == v.size( );
    for ( auto x : v )
    {
        same = same && k < v.size( ) && x.data( ) == v[ k ].data( );
        k++;
    }
    o.raw( same && k == v.size( ) ? "true" : "false" );
    o.raw( ",\"describe\":" );
    o.str( v.describe( ) );
    o.raw( "}" );
}

template < typename... S >
struct MultiDump;

template < typename I, typename... S >
void
dump_res( Out& o, const flatdata::MultiArrayView< I, S... >& v )
{
    if ( !v )
    {
        o.raw( "null" );
        return;
    }
    o.raw( "{\"n\":" );
    o.num( v.size( ) );
    o.raw( ",\"v\":[" );
    Sep sep{ o };
    for ( size_t i = 0; i < v.size( ); i++ )
    {
        sep.next( );
        o.raw( "[" );
        Sep s2{ o };
        auto visit = [ & ]( auto x ) {
            using X = decltype( x );
            s2.next( );
            o.raw( "[" );
            o.num( static_cast< size_t >( flatdata::index_of< X, S... >::value ) );
            o.raw( "," );
            dump_one< X >( o, x );
            o.raw( "]" );
        };
        v.for_each( i, visit );
        o.raw( "]" );
    }
    o.raw( "],\"describe\":" );
    o.str( v.describe( ) );
    o.raw( "}" );
}

// elements of one type by the typed iterator
template < typename E, typename I, typename... S >
void
dump_iter( Out& o, const flatdata::MultiArrayView< I, S... >& v )
{
    o.raw( "[" );
    Sep sep{ o };
    for ( size_t i = 0; v && i < v.size( ); i++ )
    {
        sep.next( );
        o.raw( "[" );
        Sep s2{ o };
        for ( auto it = v.template iterator< E >( i ); it.valid( ); ++it )
        {
            s2.next( );
            dump_one< E >( o, *it );
        }
        o.raw( "]" );
    }
    o.raw( "]" );
}

// An instance: a generated structure
template < typename S >
typename std::enable_if< ( S::IS_OVERLAPPING_WITH_NEXT || !S::IS_OVERLAPPING_WITH_NEXT )
                         && !std::is_base_of< flatdata::Archive, S >::value >::type
dump_res( Out& o, const S& s )
{
    if ( !s )
    {
        o.raw( "null" );
        return;
    }
    dump_one< S >( o, s );
}

template < typename A >
struct DumpArchive;   // static void all( Out&, const A& )

template < typename A >
typename std::enable_if< std::is_base_of< flatdata::Archive, A >::value >::type
dump_res( Out& o, const A& a )
{
    if ( !a.is_open( ) )
    {
        o.raw( "null" );
        return;
    }
    DumpArchive< A >::all( o, a );
}

template < typename R >
void
dump_res( Out& o, const boost::optional< R >& r )
{
    if ( !r )
    {
        o.raw( "null" );
        return;
    }
    dump_res( o, *r );
}

// -------------------------------------------------------------------------------------------------

struct BuilderBase
{
    virtual ~BuilderBase( ) = default;
    virtual bool is_open( ) = 0;
    // op: "set", "start", "grow", "close", "drop"; returns false on unknown resources
    virtual void op( const std::string& op, const std::string& res, In& in, Out& o ) = 0;
    virtual std::shared_ptr< BuilderBase > child( const std::string& res ) = 0;
};

using OpenFn = void ( * )( std::shared_ptr< flatdata::ResourceStorage >, Out& );
using BuilderFn = std::shared_ptr< BuilderBase > ( * )( std::shared_ptr< flatdata::ResourceStorage > );

struct ArchiveFns
{
    OpenFn open;
    BuilderFn builder;
};

std::map< std::string, ArchiveFns >& archives( );
void extra( const std::string& cmd, In& in, Out& o );   // schema specific commands

template < typename A >
void
open_archive( std::shared_ptr< flatdata::ResourceStorage > s, Out& o )
{
    auto a = A::open( s );
    o.raw( "{\"open\":" );
    o.raw( a.is_open( ) ? "true" : "false" );
    o.raw( static_cast< bool >( a ) == a.is_open( ) ? "" : ",\"bool\":1" );
    std::string d = a.describe( );
    o.raw( ",\"describe\":" );
    o.str( d );
    o.raw( ",\"data\":" );
    DumpArchive< A >::all( o, a );
    o.raw( "}" );
}

template < typename S, typename Vec >
void
fill_rows( Vec& v, In& in )
{
    size_t n = in.n( );
    for ( size_t i = 0; i < n; i++ )
    {
        Dump< S >::fill( v.grow( ), in );
    }
}

// run one command line; result is one line of JSON
void run( In& in, Out& o );
}  // namespace fv
