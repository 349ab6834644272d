// C22: looking at objects tells the truth and changes nothing.
#include "work.h"
#include <sstream>
#include <E57Version.h>
using namespace work;

namespace
{
   struct Sink
   {
      std::ostringstream os;
      explicit Sink( Rng &r )
      {
         // the caller's formatting is the caller's
         switch ( r.below( 4 ) )
         {
            case 0:
               os.precision( 3 );
               break;
            case 1:
               os << std::hex << std::showbase;
               break;
            case 2:
               os.fill( '*' );
               os.setf( std::ios::scientific, std::ios::floatfield );
               break;
            default:
               break;
         }
      }
   };

   struct Look : Spy
   {
      Rng r;
      ImageFile imf;
      string fileName;
      bool writing;
      bool many; // dumps of readers and writers are long
      int looks = 250, dumped = 400000; // how much to look at
      vector<e57::Node> kept;
      vector<e57::SourceDestBuffer> keptBuffers;
      vector<e57::CompressedVectorWriter> keptWriters;
      vector<e57::CompressedVectorReader> keptReaders;

      Look( uint64_t seed, ImageFile f, string name, bool w ) : r( seed, 5 ), imf( std::move( f ) ), fileName( std::move( name ) ), writing( w ), many( r.chance( 1, 3 ) )
      {
      }

      // No exception, the stream as it was, the same text again, all lines indented as asked.
      template <class X> void dump( const X &x, const string &what, bool always = false )
      {
         if ( dumped <= 0 && !always )
         {
            return;
         }
         const unsigned seed = unsigned( r.below( 1 << 20 ) );
         const int indent = int( r.below( 12 ) );
         Rng a( seed ), b( seed ), d( seed );
         Sink one( a ), two( b ), three( d );
         const auto flags = one.os.flags();
         const auto precision = one.os.precision();
         const auto fill = one.os.fill();
         auto go = [&]( std::ostringstream &os, int in ) {
            const auto o = mon::attempt( [&] { x.dump( in, os ); } );
            MON_CHECK( !o.threw, "dump-failed", what + ": " + o.str() );
         };
         go( one.os, 0 );
         MON_CHECK( one.os.flags() == flags && one.os.precision() == precision && one.os.fill() == fill && one.os.good(), "dump-spoils-stream", what );
         go( two.os, 0 );
         MON_CHECK( one.os.str() == two.os.str(), "dump-changes", what );
         go( three.os, indent );
         const string in( size_t( indent ), ' ' ), t = one.os.str(), u = three.os.str();
         // (not of text with lines of its own)
         if ( t.find( '\r' ) == string::npos && t.find( "\n\n" ) == string::npos )
         {
            std::istringstream l( t ), m( u );
            string p, q;
            bool lines = true;
            while ( std::getline( l, p ) )
            {
               lines = lines && std::getline( m, q ) && ( q == in + p || p == q );
            }
            MON_CHECK( lines && !std::getline( m, q ), "dump-indent", what );
            // the first line is the object's own
            MON_CHECK( t.empty() || u.compare( 0, in.size() + 1, in + t[0] ) == 0, "dump-indent", what );
         }
         mon::count( "dumps" );
         mon::count( "dumped bytes", t.size() );
         dumped -= int( t.size() );
      }

      template <class H> void common( const H &h, const e57::Node &n, const string &what )
      {
         MON_CHECK( h.isRoot() == n.isRoot(), "is-root", what );
         MON_CHECK( h.parent() == n.parent(), "parent", what );
         MON_CHECK( h.pathName() == n.pathName(), "path-name", what );
         MON_CHECK( h.elementName() == n.elementName(), "element-name", what );
         MON_CHECK( h.destImageFile() == imf && n.destImageFile() == imf && !( h.destImageFile() != imf ), "destination", what );
         MON_CHECK( h.isAttached() == n.isAttached(), "is-attached", what );
         const e57::Node back = h;
         MON_CHECK( back == n && !( back != n ), "handle", what );
         const H copy( h );
         MON_CHECK( e57::Node( copy ) == n, "copied-handle", what );
         const auto o = mon::attempt( [&] { h.checkInvariant( r.chance( 1, 2 ), true ); } );
         MON_CHECK( !o.threw, "invariant", what + ": " + o.str() );
         if ( r.chance( 1, 4 ) && dumped > 0 )
         {
            dump( h, what );
            std::ostringstream a, b;
            h.dump( 3, a );
            n.dump( 3, b );
            MON_CHECK( a.str() == b.str(), "dump-of-handle", what );
         }
         mon::count( "handles compared" );
      }
      static bool eq( double a, double b )
      {
         return model::bitsOf( a ) == model::bitsOf( b );
      }
      void node( const e57::Node &n, const Node &m ) override
      {
         if ( !r.chance( 1, 2 ) || looks <= 0 )
         {
            return;
         }
         looks--;
         file();
         const string what = fmt( "%s %s", model::tname( m.type ), n.pathName().c_str() );
         const auto o = mon::attempt( [&] { e57::Node( n ).checkInvariant( r.chance( 1, 2 ), r.chance( 1, 2 ) ); } );
         MON_CHECK( !o.threw, "invariant", what + ": " + o.str() );
         switch ( m.type )
         {
            case T::Structure:
               MON_CHECK( n.type() == e57::TypeStructure, "type", what );
               common( e57::StructureNode( n ), n, what );
               break;
            case T::Vector:
               MON_CHECK( n.type() == e57::TypeVector, "type", what );
               MON_CHECK( e57::VectorNode( n ).allowHeteroChildren() == m.hetero, "value", what );
               common( e57::VectorNode( n ), n, what );
               break;
            case T::CompressedVector:
            {
               MON_CHECK( n.type() == e57::TypeCompressedVector, "type", what );
               e57::CompressedVectorNode v( n );
               common( v, n, what );
               MON_CHECK( v.prototype().parent() == v.prototype() && v.codecs().isRoot(), "prototype-root", what );
               MON_CHECK( v.prototype().isAttached() == n.isAttached() && v.codecs().isAttached() == n.isAttached(), "prototype-attached", what );
               common( v.codecs(), v.codecs(), what + " codecs" );
               mon::attempt( [&] { v.prototype().checkInvariant(); } );
               break;
            }
            case T::Integer:
            {
               MON_CHECK( n.type() == e57::TypeInteger, "type", what );
               e57::IntegerNode v( n );
               MON_CHECK( v.value() == m.iv && v.minimum() == m.imin && v.maximum() == m.imax, "value", what );
               common( v, n, what );
               break;
            }
            case T::Scaled:
            {
               MON_CHECK( n.type() == e57::TypeScaledInteger, "type", what );
               e57::ScaledIntegerNode v( n );
               MON_CHECK( v.rawValue() == m.iv && v.minimum() == m.imin && v.maximum() == m.imax && eq( v.scale(), m.scale ) && eq( v.offset(), m.offset ), "value", what );
               auto scaled = [&]( int64_t raw, double got, const char *w ) {
                  const long double want = scaledOf( m, raw );
                  const long double mag = std::fabs( static_cast<long double>( raw ) * m.scale ) + std::fabs( static_cast<long double>( m.offset ) );
                  MON_CHECK( !std::isfinite( double( mag * 2 ) ) || std::fabs( static_cast<long double>( got ) - want ) <= mag * 0x1p-50L + 0x1p-1070L, "scaled-value", what + " " + w );
               };
               scaled( m.iv, v.scaledValue(), "value" );
               scaled( m.imin, v.scaledMinimum(), "minimum" );
               scaled( m.imax, v.scaledMaximum(), "maximum" );
               common( v, n, what );
               break;
            }
            case T::Float:
            {
               MON_CHECK( n.type() == e57::TypeFloat, "type", what );
               e57::FloatNode v( n );
               MON_CHECK( v.value() == m.fv && v.minimum() == m.fmin && v.maximum() == m.fmax && ( v.precision() == e57::PrecisionSingle ) == m.single, "value", what );
               common( v, n, what );
               break;
            }
            case T::String:
            {
               MON_CHECK( n.type() == e57::TypeString, "type", what );
               e57::StringNode v( n );
               MON_CHECK( v.value() == m.sv, "value", what );
               common( v, n, what );
               break;
            }
            case T::Blob:
            {
               MON_CHECK( n.type() == e57::TypeBlob, "type", what );
               e57::BlobNode v( n );
               MON_CHECK( v.byteCount() == int64_t( m.blob.size() ), "value", what );
               common( v, n, what );
               break;
            }
         }
         if ( kept.size() < 30 )
         {
            kept.push_back( n );
         }
         else
         {
            kept[r.below( 30 )] = n;
         }
         mon::distinct( "looked at", fmt( "%s %d %d", model::tname( m.type ), n.isAttached(), writing ) );
      }
      void file( int writers = 0, int readers = 0 )
      {
         MON_CHECK( imf.isOpen() && imf.isWritable() == writing && imf.fileName() == fileName, "file-state", fileName );
         MON_CHECK( imf.writerCount() == writers && imf.readerCount() == readers, "counts", fmt( "%d writers, %d readers", imf.writerCount(), imf.readerCount() ) );
         ImageFile copy( imf );
         MON_CHECK( copy == imf && !( copy != imf ) && e57::Node( copy.root() ) == e57::Node( imf.root() ), "copied-handle", "file" );
         const auto o = mon::attempt( [&] { imf.checkInvariant( r.chance( 1, 20 ) ); } );
         MON_CHECK( !o.threw, "invariant", "file: " + o.str() );
         if ( r.chance( 1, 20 ) )
         {
            dump( imf, "file" );
         }
      }
      void buffer( const e57::SourceDestBuffer &s, const Buf &b, const string &path ) override
      {
         static const e57::MemoryRepresentation reps[] = { e57::Int8, e57::UInt8, e57::Int16, e57::UInt16, e57::Int32, e57::UInt32, e57::Int64, e57::Bool, e57::Real32, e57::Real64, e57::UString };
         const string what = "buffer " + path;
         MON_CHECK( s.pathName() == path, "buffer-path", what + ": " + s.pathName() );
         MON_CHECK( s.memoryRepresentation() == reps[b.mem], "buffer-representation", what );
         MON_CHECK( s.capacity() == b.cap, "buffer-capacity", what + fmt( ": %zu", s.capacity() ) );
         MON_CHECK( s.doConversion() == b.conv && s.doScaling() == b.scal, "buffer-conversion", what );
         MON_CHECK( s.stride() == ( b.mem == STR ? sizeof( string ) : b.stride ), "buffer-stride", what + fmt( ": %zu", s.stride() ) );
         const auto o = mon::attempt( [&] { s.checkInvariant(); } );
         MON_CHECK( !o.threw, "invariant", what + ": " + o.str() );
         if ( r.chance( 1, 3 ) )
         {
            dump( s, what );
         }
         e57::SourceDestBuffer copy( s );
         MON_CHECK( copy.capacity() == s.capacity() && copy.pathName() == path, "copied-handle", what );
         mon::count( "buffers looked at" );
         mon::distinct( "looked at", fmt( "buffer %s %d %d", memName( b.mem ), b.conv, b.scal ) );
      }
      template <class X> void transfer( X &x, const e57::CompressedVectorNode &cv, bool open, const char *what )
      {
         MON_CHECK( x.isOpen() == open, "transfer-open", what );
         MON_CHECK( e57::Node( x.compressedVectorNode() ) == e57::Node( cv ), "transfer-node", what );
         const auto o = mon::attempt( [&] { x.checkInvariant( r.chance( 1, 2 ) ); } );
         MON_CHECK( !o.threw, "invariant", string( what ) + ": " + o.str() );
         if ( r.chance( 1, many ? 2 : 20 ) )
         {
            dump( x, what );
         }
         mon::count( "transfers looked at" );
      }
      void writer( e57::CompressedVectorWriter &w, const e57::CompressedVectorNode &cv, bool open ) override
      {
         file( open );
         transfer( w, cv, open, open ? "writer" : "closed writer" );
         if ( !open && keptWriters.size() < 3 )
         {
            keptWriters.push_back( w );
         }
      }
      void reader( e57::CompressedVectorReader &rd, const e57::CompressedVectorNode &cv, bool open ) override
      {
         file( 0, open );
         transfer( rd, cv, open, open ? "reader" : "closed reader" );
         if ( !open && keptReaders.size() < 3 )
         {
            keptReaders.push_back( rd );
         }
      }
      // everything that is left when the file was closed or is gone
      template <class H> void closedHandle( const e57::Node &n, const char *what )
      {
         const auto o = mon::attempt( [&] { H( n ).checkInvariant( true ); } );
         MON_CHECK( !o.threw, string( "invariant-after-close-" ) + what, o.str() );
         mon::count( ( string( "closed handles checked: " ) + what ).c_str() );
      }

      // Whether the typed handles, too, have nothing against a file that is closed
      void typed( const e57::Node &n )
      {
         switch ( n.type() )
         {
            case e57::TypeStructure:
               return closedHandle<e57::StructureNode>( n, "structure" );
            case e57::TypeVector:
               return closedHandle<e57::VectorNode>( n, "vector" );
            case e57::TypeCompressedVector:
               return closedHandle<e57::CompressedVectorNode>( n, "compressed vector" );
            case e57::TypeInteger:
               return closedHandle<e57::IntegerNode>( n, "integer" );
            case e57::TypeScaledInteger:
               return closedHandle<e57::ScaledIntegerNode>( n, "scaled integer" );
            case e57::TypeFloat:
               return closedHandle<e57::FloatNode>( n, "float" );
            case e57::TypeString:
               return closedHandle<e57::StringNode>( n, "string" );
            case e57::TypeBlob:
               return closedHandle<e57::BlobNode>( n, "blob" );
         }
      }

      void after( bool gone )
      {
         for ( auto &n : kept )
         {
            if ( !gone )
            {
               const auto o = mon::attempt( [&] { n.checkInvariant( true, true ); } );
               MON_CHECK( !o.threw, "invariant-after-close", o.str() );
               typed( n );
            }
            dump( n, gone ? "element of a file that is gone" : "element of a closed file", true );
            mon::count( "dumps after closing" );
         }
         for ( auto &w : keptWriters )
         {
            dump( w, gone ? "writer of a file that is gone" : "writer of a closed file" );
         }
         for ( auto &w : keptReaders )
         {
            dump( w, gone ? "reader of a file that is gone" : "reader of a closed file" );
         }
      }
   };

   struct Watch
   {
      explicit Watch( Spy *s )
      {
         spy() = s;
      }
      ~Watch()
      {
         spy() = nullptr;
      }
   };

   void visit( Look &l, const e57::Node &n, const Node &m )
   {
      l.node( n, m );
      for ( size_t k = 0; k < m.kids.size(); k++ )
      {
         const e57::Node kid = n.type() == e57::TypeVector ? e57::VectorNode( n ).get( int64_t( k ) ) : e57::StructureNode( n ).get( int64_t( k ) );
         visit( l, kid, m.kids[k] );
      }
      if ( m.type == T::CompressedVector )
      {
         visit( l, e57::CompressedVectorNode( n ).prototype(), *m.proto );
         visit( l, e57::CompressedVectorNode( n ).codecs(), *m.codecs );
      }
   }

   // The same calls as work::write makes, watched or not. Returns what the object said last.
   void write( Job &j, const string &path, const string &name, bool watched, uint64_t seed )
   {
      Rng r( j.seed, 77 );
      std::unique_ptr<Look> look;
      {
         ImageFile imf( path, "w" );
         if ( watched )
         {
            look.reset( new Look( seed, imf, name, true ) );
         }
         Watch w( look.get() );
         for ( auto &x : j.ext )
         {
            imf.extensionsAdd( x.first, x.second );
         }
         Builder b( imf, r );
         b.populate( imf.root(), j.root );
         const bool first = r.chance( 1, 2 );
         if ( first )
         {
            b.writeBlobs();
         }
         for ( auto &p : b.cvs )
         {
            writeRecords( imf, e57::CompressedVectorNode( p.node ), *p.m, r );
            if ( watched )
            {
               visit( *look, imf.root(), j.root );
            }
         }
         if ( !first )
         {
            b.writeBlobs();
         }
         if ( watched )
         {
            visit( *look, imf.root(), j.root );
            look->dump( imf, "file" );
         }
         imf.close();
         if ( watched )
         {
            MON_CHECK( !imf.isOpen() && !look->imf.isOpen(), "file-state", "closed" );
            const auto o = mon::attempt( [&] { imf.checkInvariant( true ); } );
            MON_CHECK( !o.threw, "invariant-after-close", o.str() );
            look->dump( imf, "closed file", true );
            look->after( false );
            mon::count( "files watched while written" );
         }
         if ( watched )
         {
            // its own handle is given up as well
            ImageFile other( look->imf );
            (void)other;
         }
      }
      if ( look )
      {
         // move everything but the file handle out of the way of its end
         auto kept = std::move( look->kept );
         auto kw = std::move( look->keptWriters );
         const uint64_t s = look->r.u64();
         look.reset();
         for ( auto &n : kept )
         {
            std::ostringstream os;
            const auto o = mon::attempt( [&] { n.dump( int( s % 5 ), os ); } );
            MON_CHECK( !o.threw, "dump-failed", "element of a file that is gone: " + o.str() );
            mon::count( "dumps when the file is gone" );
         }
         for ( auto &w : kw )
         {
            std::ostringstream os;
            const auto o = mon::attempt( [&] { w.dump( int( s % 5 ), os ); } );
            MON_CHECK( !o.threw, "dump-failed", "writer of a file that is gone: " + o.str() );
         }
      }
   }
   bytes read( Job &j, const string &path, const string &name, bool watched, uint64_t seed )
   {
      bytes out;
      ImageFile imf( path, "r" );
      std::unique_ptr<Look> look;
      if ( watched )
      {
         look.reset( new Look( seed, imf, name, false ) );
         visit( *look, imf.root(), j.root );
         look->file();
      }
      {
         Watch w( look.get() );
         put( out, ext( imf ) );
         put( out, describe( imf.root() ) );
         names( out, imf.root() );
      }
      if ( watched )
      {
         visit( *look, imf.root(), j.root );
      }
      imf.close();
      if ( watched )
      {
         look->dump( imf, "closed file", true );
         look->after( false );
         mon::count( "files watched while read" );
      }
      return out;
   }
   void foundation( mon::Ctx &c, Job &j )
   {
      const string a = c.path( "a.e57" ), b = c.path( "b.e57" );
      const uint64_t seed = c.rng.u64();
      write( j, a, a, false, seed );
      write( j, b, b, true, seed );
      const bytes x = mon::slurp( a ), y = mon::slurp( b );
      MON_CHECK( x == y, "looking-changed-the-file", j.shape );
      mon::count( "bytes compared", x.size() );
      const bytes p = read( j, a, a, false, seed ), q = read( j, a, a, true, seed + 1 );
      MON_CHECK( p == q, "looking-changed-what-is-read", j.shape );
      MON_CHECK( mon::slurp( a ) == x, "looking-changed-the-file", "while reading" );
      mon::count( "results compared" );
      ::remove( a.c_str() );
      ::remove( b.c_str() );
   }

   // -------------------------------------------------------- the simple interface
   template <class W> void raw( W &w, Look &l, const string &path, size_t scans, size_t images )
   {
      ImageFile imf = w.GetRawIMF();
      MON_CHECK( imf.isOpen() && imf.fileName() == path && w.IsOpen(), "raw-file", path );
      e57::StructureNode root = w.GetRawE57Root();
      MON_CHECK( e57::Node( root ) == e57::Node( imf.root() ), "raw-root", "" );
      e57::VectorNode d = w.GetRawData3D(), i = w.GetRawImages2D();
      MON_CHECK( d.childCount() == int64_t( scans ) && i.childCount() == int64_t( images ), "raw-counts",
                 fmt( "%" PRId64 " scans, %" PRId64 " images instead of %zu and %zu", d.childCount(), i.childCount(), scans, images ) );
      MON_CHECK( root.isDefined( "data3D" ) && root.get( "data3D" ) == e57::Node( d ), "raw-data3d", "" );
      MON_CHECK( root.isDefined( "images2D" ) && root.get( "images2D" ) == e57::Node( i ), "raw-images2d", "" );
      for ( int64_t k = 0; k < d.childCount(); k++ )
      {
         e57::StructureNode s( d.get( k ) );
         MON_CHECK( s.isDefined( "points" ) && s.isDefined( "guid" ), "raw-scan", "" );
      }
      const auto o = mon::attempt( [&] {
         imf.checkInvariant( true );
         root.checkInvariant( true );
      } );
      MON_CHECK( !o.threw, "invariant", "simple: " + o.str() );
      l.dump( imf, "simple" );
      mon::count( "raw handles" );
   }
   void throughSimple( mon::Ctx &c, Job &j )
   {
      const string a = c.path( "a.e57" );
      bytes first;
      for ( int watched = 0; watched < 2; watched++ )
      {
         Rng r( j.seed, 77 );
         e57::WriterOptions o;
         o.guid = "{file}";
         e57::Writer w( a, o );
         Look l( c.rng.u64(), w.GetRawIMF(), a, true );
         size_t scans = 0, images = 0;
         for ( auto &s : j.scans )
         {
            simple::write( w, s, r );
            scans++;
            if ( watched )
            {
               raw( w, l, a, scans, images );
            }
         }
         for ( auto &i : j.images )
         {
            simple::writeImage( w, i, r );
            images++;
            if ( watched )
            {
               raw( w, l, a, scans, images );
            }
         }
         MON_CHECK( w.Close(), "close-refused", "" );
         MON_CHECK( !w.IsOpen(), "writer-open", "closed" );
         if ( watched )
         {
            l.dump( l.imf, "closed file", true );
            MON_CHECK( mon::slurp( a ) == first, "looking-changed-the-file", j.shape );
         }
         else
         {
            first = mon::slurp( a );
         }
      }
      e57::Reader rd( a, e57::ReaderOptions{} );
      Look l( c.rng.u64(), rd.GetRawIMF(), a, false );
      raw( rd, l, a, j.scans.size(), j.images.size() );
      Rng r( j.seed, 78 );
      for ( size_t k = 0; k < j.scans.size(); k++ )
      {
         simple::readScan( rd, int64_t( k ), j.scans[k], r );
         raw( rd, l, a, j.scans.size(), j.images.size() );
      }
      for ( size_t k = 0; k < j.images.size(); k++ )
      {
         simple::readImage( rd, int64_t( k ), j.images[k], r );
         raw( rd, l, a, j.scans.size(), j.images.size() );
      }
      MON_CHECK( rd.Close() && !rd.IsOpen(), "reader-open", "closed" );
      l.dump( l.imf, "closed file", true );
      ::remove( a.c_str() );
   }

   // -------------------------------------------------------- what errors say
   void errors( mon::Ctx &c )
   {
      std::map<string, int> texts;
      for ( int k = int( e57::Success ); k <= int( e57::ErrorBadInputDataSize ); k++ )
      {
         const string t = e57::Utilities::errorCodeToString( e57::ErrorCode( k ) );
         MON_CHECK( !t.empty() && !texts.count( t ), "error-text", fmt( "%d: %s", k, t.c_str() ) );
         texts[t] = k;
      }
      const string none = e57::Utilities::errorCodeToString( e57::ErrorCode( 100000 ) );
      MON_CHECK( !texts.count( none ), "error-text", "unknown code" );
      const string p = c.path( "e.e57" );
      ImageFile imf( p, "w" );
      e57::StructureNode s( imf );
      imf.root().set( "a", s );
      const std::function<void()> wrong[] = {
         [&] { imf.root().set( "a", e57::StructureNode( imf ) ); },
         [&] { imf.root().get( "b" ); },
         [&] { imf.root().get( 7 ); },
         [&] { imf.root().get( "a//b" ); },
         [&] { e57::IntegerNode( imf, 5, 6, 7 ); },
         [&] { e57::IntegerNode( e57::Node( s ) ); },
         [&] { ImageFile( c.path( "missing/x.e57" ), "r" ); },
         [&] { ImageFile( c.path( "missing/x.e57" ), "w" ); },
         [&] { ImageFile( p, "x" ); },
         [&] { imf.root().set( "b", s ); },
         [&] { imf.root().set( "q:b", e57::StructureNode( imf ) ); },
         [&] { s.checkInvariant(); imf.extensionsAdd( "x", "http://x" ); imf.extensionsAdd( "x", "http://y" ); },
      };
      for ( size_t k = 0; k < sizeof wrong / sizeof wrong[0]; k++ )
      {
         try
         {
            wrong[k]();
            mon::fail( "no-error", fmt( "%zu", k ) );
         }
         catch ( const e57::E57Exception &e )
         {
            const string what = fmt( "%zu: %d", k, int( e.errorCode() ) );
            MON_CHECK( e.errorCode() != e57::Success && e.errorStr() == e57::Utilities::errorCodeToString( e.errorCode() ), "error-code", what );
            MON_CHECK( e.what() && *e.what(), "error-what", what );
            MON_CHECK( e.sourceFileName() && *e.sourceFileName() && e.sourceLineNumber() > 0 && e.sourceFunctionName() && *e.sourceFunctionName(), "error-place", what );
            std::ostringstream os;
            e.report( "here.cpp", 12, "there", os );
            MON_CHECK( os.str().find( e.errorStr() ) != string::npos && os.str().find( e.context() ) != string::npos, "error-report", what + ": " + os.str() );
            mon::count( "errors examined" );
         }
      }
      imf.cancel();
      int major = -1, minor = -1;
      string id;
      e57::Utilities::getVersions( major, minor, id );
      MON_CHECK( major == 1 && minor == 0 && !id.empty(), "versions", fmt( "%d.%d", major, minor ) );
      MON_CHECK( e57::Version::library() == id && e57::Version::astmMajor() == 1 && e57::Version::astmMinor() == 0, "versions", id );
   }
}

static void run( mon::Ctx &c )
{
   Job j = make( c.rng, int( c.rng.below( 3 ) > 1 ) );
   mon::note( j.shape );
   j.simple ? throughSimple( c, j ) : foundation( c, j );
   if ( c.rng.chance( 1, 20 ) )
   {
      errors( c );
   }
   mon::distinct( "case", j.shape + fmt( " %" PRIx64, j.seed ) );
   mon::sample( j.shape );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C22";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
