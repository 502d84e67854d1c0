#include "driver.h"

namespace fv
{
static void
program( In& in, Out& o )
{
    // a program over builders: results are listed in order
    Ctx ctx;
    std::map< std::string, std::shared_ptr< flatdata::ResourceStorage > > stores;
    std::map< std::string, std::shared_ptr< BuilderBase > > builders;
    o.raw( "[" );
    Sep sep{ o };
    while ( !in.done( ) )
    {
        std::string cmd = in.s( );
        sep.next( );
        if ( cmd == "storage" )   // storage NAME SPEC
        {
            std::string name = in.s( );
            stores[ name ] = ctx.storage( in.s( ) );
            o.raw( stores[ name ] ? "true" : "false" );
        }
        else if ( cmd == "log" )   // log DISK : record the writes from now on
        {
            auto& d = ctx.disks[ in.s( ) ];
            if ( !d )
            {
                d = std::make_shared< Disk >( );
            }
            d->logging = true;
            o.raw( "true" );
        }
        else if ( cmd == "limit" )   // limit DISK N
        {
            auto& d = ctx.disks[ in.s( ) ];
            if ( !d )
            {
                d = std::make_shared< Disk >( );
            }
            d->fail_after = static_cast< long long >( in.n( ) );
            o.raw( "true" );
        }
        else if ( cmd == "glitch" )   // glitch DISK N CALLS: after N bytes so many writes fail
        {
            auto& d = ctx.disks[ in.s( ) ];
            if ( !d )
            {
                d = std::make_shared< Disk >( );
            }
            d->fail_after = static_cast< long long >( in.n( ) );
            d->fail_calls = static_cast< long long >( in.n( ) );
            o.raw( "true" );
        }
        else if ( cmd == "buffer" )   // buffer DISK N: streams keep back up to so many bytes
        {
            auto& d = ctx.disks[ in.s( ) ];
            if ( !d )
            {
                d = std::make_shared< Disk >( );
            }
            d->buffer = in.n( );
            o.raw( "true" );
        }
        else if ( cmd == "make" )   // make DISK COUNT (NAME HEX)...
        {
            auto d = std::make_shared< Disk >( );
            ctx.disks[ in.s( ) ] = d;
            size_t n = in.n( );
            for ( size_t i = 0; i < n; i++ )
            {
                std::string name = in.s( );
                d->files[ name ] = in.bytes( );
                for ( size_t k = name.find( '/' ); k != std::string::npos; k = name.find( '/', k + 1 ) )
                {
                    d->dirs.insert( name.substr( 0, k + 1 ) );
                }
            }
            o.raw( "true" );
        }
        else if ( cmd == "die" )   // the process ends without any clean-up
        {
            std::_Exit( 0 );
        }
        else if ( cmd == "mark" )   // mark DISK: number of events so far
        {
            o.num( ctx.disks[ in.s( ) ]->log.size( ) );
        }
        else if ( cmd == "events" )
        {
            o.raw( "[" );
            Sep s2{ o };
            for ( auto& e : ctx.disks[ in.s( ) ]->log )
            {
                s2.next( );
                o.raw( std::string( "[\"" ) + e.kind + "\"," );
                o.str( e.name );
                o.raw( "," );
                o.num( e.offset );
                o.raw( "," );
                o.hex( reinterpret_cast< const unsigned char* >( e.data.data( ) ), e.data.size( ) );
                o.raw( "]" );
            }
            o.raw( "]" );
        }
        else if ( cmd == "files" )   // files DISK
        {
            o.raw( "{" );
            Sep s2{ o };
            for ( auto& f : ctx.disks[ in.s( ) ]->files )
            {
                s2.next( );
                o.str( f.first );
                o.raw( ":" );
                o.hex( reinterpret_cast< const unsigned char* >( f.second.data( ) ), f.second.size( ) );
            }
            o.raw( "}" );
        }
        else if ( cmd == "open" )   // open ARCHIVE STORE
        {
            std::string a = in.s( );
            archives( )[ a ].open( stores[ in.s( ) ], o );
        }
        else if ( cmd == "builder" )   // builder NAME ARCHIVE STORE
        {
            std::string name = in.s( ), a = in.s( );
            builders[ name ] = archives( )[ a ].builder( stores[ in.s( ) ] );
            o.raw( builders[ name ] && builders[ name ]->is_open( ) ? "true" : "false" );
        }
        else if ( cmd == "child" )   // child NEW PARENT RES
        {
            std::string name = in.s( );
            auto& p = builders[ in.s( ) ];
            builders[ name ] = p->child( in.s( ) );
            o.raw( builders[ name ] && builders[ name ]->is_open( ) ? "true" : "false" );
        }
        else if ( cmd == "end" )   // end NAME
        {
            builders.erase( in.s( ) );
            o.raw( "true" );
        }
        else   // OP BUILDER RES ...
        {
            auto& b = builders[ in.s( ) ];
            std::string res = in.s( );
            try
            {
                Out tmp;
                b->op( cmd, res, in, tmp );
                o.raw( tmp.o.str( ) );
            }
            catch ( const std::exception& e )
            {
                o.raw( "{\"threw\":" );
                o.str( e.what( ) );
                o.raw( "}" );
            }
        }
    }
    o.raw( "]" );
}

void
run( In& in, Out& o )
{
    std::string cmd = in.s( );
    if ( cmd == "open" )   // open ARCHIVE SPEC...
    {
        std::string a = in.s( );
        o.raw( "[" );
        Sep sep{ o };
        while ( !in.done( ) )
        {
            sep.next( );
            Ctx ctx;
            auto s = ctx.storage( in.s( ) );
            if ( !s )
            {
                o.raw( "{\"storage\":false}" );
                continue;
            }
            try
            {
                Out tmp;
                archives( )[ a ].open( s, tmp );
                o.raw( tmp.o.str( ) );
            }
            catch ( const std::exception& e )
            {
                o.raw( "{\"threw\":" );
                o.str( e.what( ) );
                o.raw( "}" );
            }
        }
        o.raw( "]" );
    }
    else if ( cmd == "program" )
    {
        program( in, o );
    }
    else
    {
        extra( cmd, in, o );
    }
}
}  // namespace fv

int
main( )
{
    std::ios::sync_with_stdio( false );
    std::string line;
    while ( std::getline( std::cin, line ) )
    {
        fv::In in;
        std::string tok;
        std::istringstream ss( line );
        while ( ss >> tok )
        {
            in.t.push_back( tok );
        }
        fv::Out o;
        fv::run( in, o );
        std::cout << o.o.str( ) << "\n" << std::flush;
    }
    return 0;
}
