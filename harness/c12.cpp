// C12: open/close states and exclusivity rules are enforced safely.
// A model of the states of files, nodes, readers and writers predicts the outcome of every call in a random history.
#include "api.h"
#include "ref.h"
#include <algorithm>
using namespace api;
using std::set;
using std::unique_ptr;

namespace
{
   using Codes = set<int>;

   int64_t ival( unsigned cv, uint64_t rec )
   {
      return int64_t( ( cv * 7919ULL + rec * 31 + 5 ) % 1000 );
   }
   double dval( unsigned cv, uint64_t rec )
   {
      return double( cv ) * 1e6 + double( rec ) / 3.0;
   }
   string sval( unsigned cv, uint64_t rec )
   {
      return fmt( "s%u-%" PRIu64, cv, rec ) + string( ( rec * 37 + cv ) % 61 * ( rec % 13 == 0 ? 5 : 1 ), 'x' );
   }

   // memory of one set of designated buffers; lives until the end of the case
   struct Mem
   {
      size_t cap;
      vector<int64_t> a;
      vector<double> b;
      vector<string> c;
      explicit Mem( size_t n ) : cap( n ), a( n ), b( n ), c( n )
      {
      }
      void fill( unsigned cv, uint64_t from, size_t n )
      {
         for ( size_t k = 0; k < n && k < cap; k++ )
         {
            a[k] = ival( cv, from + k );
            b[k] = dval( cv, from + k );
            c[k] = sval( cv, from + k );
         }
      }
   };
   struct Cv
   {
      unsigned id;
      size_t file;
      int fields; // 1..3
      bool attached = false;
      string name;
      uint64_t records = 0;
      bool written = false; // a writer has completed
      vector<e57::CompressedVectorNode> h;
   };
   struct Blob
   {
      size_t file;
      string name;
      bytes want;
      vector<e57::BlobNode> h;
   };
   struct File
   {
      string path;
      int mode; // 0 write, 1 read, 2 memory
      bool open = true;
      bytes data;
      vector<ImageFile> h;
      bool gone() const
      {
         return h.empty();
      }
   };
   struct Writer
   {
      size_t cv;
      uint64_t pending = 0;
      bool open = true;
      size_t mem;
      vector<e57::CompressedVectorWriter> h;
   };
   struct Reader
   {
      size_t cv;
      uint64_t at = 0;
      bool open = true;
      bool broken = false;
      size_t mem;
      vector<e57::CompressedVectorReader> h;
   };

   struct World
   {
      mon::Ctx &c;
      Rng &r;
      vector<unique_ptr<Mem>> mems;
      vector<File> files;
      vector<Cv> cvs;
      vector<Blob> blobs;
      vector<Writer> writers;
      vector<Reader> readers;
      unsigned serial = 0;
      string seq;

      explicit World( mon::Ctx &cc ) : c( cc ), r( cc.rng )
      {
      }

      // ------------------------------------------------------------- verdicts
      // run one call; ok is allowed if mayOk, otherwise one of the codes
      bool call( const char *what, bool mayOk, const Codes &codes, const std::function<void()> &f, const string &info = "" )
      {
         auto o = mon::attempt( f );
         mon::note( fmt( "%s%s%s -> %s", what, info.empty() ? "" : " ", info.c_str(), o.threw ? fmt( "%d", int( o.code ) ).c_str() : "ok" ) );
         mon::count( "calls made" );
         mon::distinct( "call and outcome", fmt( "%s:%d", what, o.threw ? int( o.code ) : 0 ) );
         seq += fmt( "%s%d,", what, o.threw ? int( o.code ) : 0 );
         if ( !o.threw )
         {
            MON_CHECK( mayOk, fmt( "forbidden-call-accepted:%s", what ), fmt( "%s: expected %s", info.c_str(), names( codes ).c_str() ) );
            return true;
         }
         MON_CHECK( codes.count( int( o.code ) ), fmt( "%s:%s", codes.empty() ? "legal-call-refused" : "wrong-error", what ),
                    fmt( "%s %s; expected %s%s", info.c_str(), o.str().c_str(), mayOk ? "ok " : "", names( codes ).c_str() ) );
         mon::count( "refusals as documented" );
         return false;
      }
      static string names( const Codes &c )
      {
         string s;
         for ( int k : c )
         {
            s += e57::Utilities::errorCodeToString( e57::ErrorCode( k ) ) + "; ";
         }
         return s;
      }

      int openWriters( size_t f ) const
      {
         int n = 0;
         for ( auto &w : writers )
         {
            n += w.open && cvs[w.cv].file == f;
         }
         return n;
      }
      int openReaders( size_t f ) const
      {
         int n = 0;
         for ( auto &w : readers )
         {
            n += w.open && cvs[w.cv].file == f;
         }
         return n;
      }
      bool usable( size_t f ) const
      {
         return files[f].open && !files[f].gone();
      }
      // after every step
      void observe()
      {
         for ( size_t f = 0; f < files.size(); f++ )
         {
            for ( auto &h : files[f].h )
            {
               MON_CHECK( h.isOpen() == files[f].open, "file-open-state", fmt( "file %zu reports %d", f, h.isOpen() ) );
               if ( files[f].open )
               {
                  MON_CHECK( h.writerCount() == openWriters( f ), "writer-count", fmt( "file %zu reports %d, %d open", f, h.writerCount(), openWriters( f ) ) );
                  MON_CHECK( h.readerCount() == openReaders( f ), "reader-count", fmt( "file %zu reports %d, %d open", f, h.readerCount(), openReaders( f ) ) );
                  MON_CHECK( h.isWritable() == ( files[f].mode == 0 ), "writable", "" );
                  h.checkInvariant( true );
               }
            }
            if ( files[f].mode == 0 && files[f].open && !files[f].gone() )
            {
               MON_CHECK( mon::exists( files[f].path ), "file-vanished", files[f].path );
            }
         }
         for ( auto &w : writers )
         {
            for ( auto &h : w.h )
            {
               MON_CHECK( h.isOpen() == w.open, "writer-open-state", fmt( "reports %d", h.isOpen() ) );
               if ( !files[cvs[w.cv].file].gone() )
               {
                  h.checkInvariant();
               }
            }
         }
         for ( auto &w : readers )
         {
            for ( auto &h : w.h )
            {
               MON_CHECK( h.isOpen() == w.open, "reader-open-state", fmt( "reports %d", h.isOpen() ) );
               if ( !files[cvs[w.cv].file].gone() )
               {
                  h.checkInvariant();
               }
            }
         }
         for ( auto &v : cvs )
         {
            if ( usable( v.file ) )
            {
               for ( auto &h : v.h )
               {
                  MON_CHECK( uint64_t( h.childCount() ) == v.records, "record-count", fmt( "%s reports %" PRId64 ", has %" PRIu64, v.name.c_str(), h.childCount(), v.records ) );
                  MON_CHECK( h.isAttached() == v.attached, "attached", v.name );
               }
            }
         }
         mon::count( "states observed" );
      }

      // --------------------------------------------------------------- pieces
      // buffers of the fields of v; what is wrong with them goes to codes
      vector<e57::SourceDestBuffer> buffers( ImageFile imf, Cv &v, size_t &mem, Codes &codes, bool writing, bool flawed, size_t cap )
      {
         mems.emplace_back( new Mem( cap ) );
         mem = mems.size() - 1;
         Mem &m = *mems.back();
         vector<e57::SourceDestBuffer> s;
         s.emplace_back( imf, "a", m.a.data(), cap, true );
         if ( v.fields > 1 )
         {
            s.emplace_back( imf, "b", m.b.data(), cap );
         }
         if ( v.fields > 2 )
         {
            s.emplace_back( imf, "c", &m.c );
         }
         if ( !flawed )
         {
            return s;
         }
         switch ( r.below( 5 ) )
         {
            case 0:
               s.clear();
               codes.insert( e57::ErrorBadAPIArgument );
               break;
            case 1:
               s.emplace_back( imf, "a", m.a.data(), cap, true );
               codes.insert( e57::ErrorBufferDuplicatePathName );
               break;
            case 2:
               s.emplace_back( imf, "nope", m.a.data(), cap, true );
               codes.insert( e57::ErrorPathUndefined );
               break;
            case 3:
               if ( v.fields > 1 )
               {
                  s.erase( s.begin() + 1 );
                  s.emplace_back( imf, "b", m.b.data(), cap - 1 );
                  codes.insert( e57::ErrorBufferSizeMismatch );
                  break;
               } // fall through
            default:
               if ( v.fields > 1 && writing )
               {
                  s.erase( s.begin() + long( r.below( s.size() ) ) );
                  codes.insert( e57::ErrorNoBufferForElement );
               }
               else
               {
                  s.clear();
                  codes.insert( e57::ErrorBadAPIArgument );
               }
         }
         return s;
      }
      void verifyClosed( size_t f )
      {
         File &F = files[f];
         ref::File back;
         const bytes phys = mon::slurp( F.path );
         try
         {
            back = ref::parseFile( phys );
         }
         catch ( const ref::Bad &b )
         {
            mon::fail( "closed-file-malformed:" + b.key, b.detail );
         }
         F.data = phys;
         for ( auto &v : cvs )
         {
            if ( v.file != f || !v.attached )
            {
               continue;
            }
            const Node *n = back.root.kid( v.name );
            MON_CHECK( n && n->type == T::CompressedVector, "element-lost", v.name );
            MON_CHECK( n->records == v.records, "records-lost", fmt( "%s: %" PRIu64 " instead of %" PRIu64, v.name.c_str(), n->records, v.records ) );
            for ( uint64_t k = 0; k < v.records; k++ )
            {
               MON_CHECK( n->cols[0].i[k] == ival( v.id, k ), "data-damaged", fmt( "%s record %" PRIu64 " a", v.name.c_str(), k ) );
               MON_CHECK( v.fields < 2 || model::asDouble( n->cols[1].i[k] ) == dval( v.id, k ), "data-damaged", fmt( "%s record %" PRIu64 " b", v.name.c_str(), k ) );
               MON_CHECK( v.fields < 3 || n->cols[2].s[k] == sval( v.id, k ), "data-damaged", fmt( "%s record %" PRIu64 " c", v.name.c_str(), k ) );
            }
            mon::count( "records verified in closed files", v.records );
         }
         for ( auto &b : blobs )
         {
            if ( b.file == f )
            {
               const Node *n = back.root.kid( b.name );
               MON_CHECK( n && n->type == T::Blob, "element-lost", b.name );
               MON_CHECK( n->blob == b.want, "data-damaged", b.name );
            }
         }
         mon::count( "closed files verified" );
      }
      // everything of a closed file is out of the model's hands except for refusal
      void markClosed( size_t f )
      {
         files[f].open = false;
      }

      // ------------------------------------------------------------------ ops
      template <class X> X *any( vector<X> &v )
      {
         vector<X *> live;
         for ( auto &x : v )
         {
            if ( !x.h.empty() )
            {
               live.push_back( &x );
            }
         }
         return live.empty() ? nullptr : live[r.below( live.size() )];
      }
      // mostly one where something can be done
      Cv *anyCv( bool forWriter )
      {
         for ( int k = 0; k < 6; k++ )
         {
            Cv *v = any( cvs );
            if ( !v || r.chance( 1, 12 ) )
            {
               return v;
            }
            if ( usable( v->file ) && v->attached && ( forWriter ? v->records == 0 && files[v->file].mode == 0 : v->written ) )
            {
               return v;
            }
         }
         return any( cvs );
      }
      void openFile()
      {
         File F;
         vector<size_t> done;
         for ( size_t k = 0; k < files.size(); k++ )
         {
            if ( files[k].mode == 0 && !files[k].data.empty() )
            {
               done.push_back( k );
            }
         }
         if ( done.empty() || r.chance( 1, 2 ) )
         {
            F.path = c.path( fmt( "f%u.e57", serial++ ) );
            F.mode = 0;
            call( "open w", true, {}, [&] { F.h.emplace_back( F.path, "w" ); } );
            files.push_back( F );
            return;
         }
         const size_t src = r.pick( done );
         F.path = files[src].path;
         F.mode = 1 + int( r.below( 2 ) );
         const size_t me = files.size();
         files.push_back( F );
         files.back().data.clear();
         call( F.mode == 1 ? "open r" : "open m", true, {}, [&] {
            if ( F.mode == 1 )
            {
               files[me].h.emplace_back( F.path, "r" );
            }
            else
            {
               files[me].h.emplace_back( files[src].data.data(), files[src].data.size() );
            }
         } );
         for ( size_t k = 0, n = cvs.size(); k < n; k++ )
         {
            if ( cvs[k].file == src && cvs[k].attached )
            {
               Cv v = cvs[k];
               v.h.clear();
               v.file = me;
               v.h.emplace_back( files[me].h[0].root().get( v.name ) );
               cvs.push_back( v );
            }
         }
         for ( size_t k = 0, n = blobs.size(); k < n; k++ )
         {
            if ( blobs[k].file == src )
            {
               Blob b = blobs[k];
               b.h.clear();
               b.file = me;
               b.h.emplace_back( files[me].h[0].root().get( b.name ) );
               blobs.push_back( b );
            }
         }
      }
      void newCv()
      {
         const size_t f = r.below( files.size() );
         if ( files[f].gone() || files[f].mode != 0 )
         {
            return;
         }
         Cv v;
         v.id = serial;
         v.file = f;
         v.fields = 1 + int( r.below( 3 ) );
         v.name = fmt( "cv%u", serial++ );
         ImageFile imf = files[f].h[0];
         const Codes codes = files[f].open ? Codes{} : Codes{ e57::ErrorImageFileNotOpen };
         if ( call( "new cv", files[f].open, codes, [&] {
                 e57::StructureNode p( imf );
                 p.set( "a", e57::IntegerNode( imf, 0, 0, 1000 ) );
                 if ( v.fields > 1 )
                 {
                    p.set( "b", e57::FloatNode( imf ) );
                 }
                 if ( v.fields > 2 )
                 {
                    p.set( "c", e57::StringNode( imf ) );
                 }
                 v.h.emplace_back( imf, p, e57::VectorNode( imf, true ) );
              } ) )
         {
            cvs.push_back( v );
            if ( r.chance( 2, 3 ) )
            {
               imf.root().set( v.name, v.h[0] );
               cvs.back().attached = true;
            }
         }
      }
      void attach()
      {
         Cv *v = any( cvs );
         if ( !v || v->attached || files[v->file].gone() )
         {
            return;
         }
         ImageFile imf = files[v->file].h[0];
         const bool ok = files[v->file].open;
         if ( call( "attach", ok, ok ? Codes{} : Codes{ e57::ErrorImageFileNotOpen }, [&] { imf.root().set( v->name, v->h[0] ); } ) )
         {
            v->attached = true;
         }
      }
      void newBlob()
      {
         const size_t f = r.below( files.size() );
         if ( files[f].gone() || files[f].mode != 0 || openWriters( f ) > 0 )
         {
            return; // creating one while a writer is open is a known finding of C03
         }
         Blob b;
         b.file = f;
         b.name = fmt( "b%u", serial++ );
         b.want = bytes( r.below( 3000 ), 0 );
         ImageFile imf = files[f].h[0];
         const bool ok = files[f].open;
         if ( call( "new blob", ok, ok ? Codes{} : Codes{ e57::ErrorImageFileNotOpen }, [&] {
                 b.h.emplace_back( imf, int64_t( b.want.size() ) );
                 imf.root().set( b.name, b.h[0] );
              } ) )
         {
            blobs.push_back( b );
            blobWrite( blobs.back(), true );
         }
      }
      void blobWrite( Blob &b, bool whole )
      {
         const size_t from = whole ? 0 : r.below( b.want.size() + 1 ), n = whole ? b.want.size() : r.below( b.want.size() - from + 1 );
         vector<uint8_t> d( n + 1 );
         for ( auto &x : d )
         {
            x = uint8_t( r.u64() );
         }
         Codes codes;
         if ( !usable( b.file ) )
         {
            codes.insert( e57::ErrorImageFileNotOpen );
         }
         if ( files[b.file].mode != 0 )
         {
            codes.insert( e57::ErrorFileReadOnly );
         }
         if ( call( "blob write", codes.empty(), codes, [&] { b.h[0].write( d.data(), int64_t( from ), n ); } ) )
         {
            std::copy( d.begin(), d.begin() + long( n ), b.want.begin() + long( from ) );
         }
      }
      void blobRead( Blob &b )
      {
         vector<uint8_t> d( b.want.size() + 1, 0xEE );
         const bool ok = usable( b.file );
         if ( call( "blob read", ok, ok ? Codes{} : Codes{ e57::ErrorImageFileNotOpen }, [&] { b.h[0].read( d.data(), 0, b.want.size() ); } ) )
         {
            MON_CHECK( std::equal( b.want.begin(), b.want.end(), reinterpret_cast<char *>( d.data() ) ), "blob-differs", b.name );
            MON_CHECK( d.back() == 0xEE, "blob-read-beyond", b.name );
         }
      }
      void openWriter()
      {
         Cv *v = anyCv( true );
         if ( !v )
         {
            return;
         }
         const File &F = files[v->file];
         Codes codes;
         if ( !usable( v->file ) )
         {
            codes.insert( e57::ErrorImageFileNotOpen );
         }
         if ( F.mode != 0 )
         {
            codes.insert( e57::ErrorFileReadOnly );
         }
         if ( openWriters( v->file ) )
         {
            codes.insert( e57::ErrorTooManyWriters );
         }
         if ( openReaders( v->file ) )
         {
            codes.insert( e57::ErrorTooManyReaders );
         }
         if ( !v->attached )
         {
            codes.insert( e57::ErrorNodeUnattached );
         }
         if ( v->records )
         {
            codes.insert( e57::ErrorSetTwice );
         }
         Writer w;
         w.cv = size_t( v - cvs.data() );
         // buffers have to be built on an open file; any other will do if ours is closed
         ImageFile *imf = nullptr;
         for ( auto &f : files )
         {
            if ( f.open && !f.gone() )
            {
               imf = &f.h[0];
            }
         }
         if ( usable( v->file ) )
         {
            imf = &files[v->file].h[0];
         }
         if ( !imf )
         {
            return;
         }
         const bool flawed = r.chance( 1, 4 );
         auto s = buffers( *imf, *v, w.mem, codes, true, flawed, 1 + r.below( r.chance( 1, 20 ) ? 9000 : 200 ) );
         const string info = fmt( "%s caps %zu", v->name.c_str(), mems[w.mem]->cap );
         if ( call( "writer", codes.empty(), codes, [&] { w.h.push_back( v->h[0].writer( s ) ); }, info ) )
         {
            writers.push_back( w );
         }
      }
      template <class X> X *anyOpen( vector<X> &v )
      {
         X *x = any( v );
         for ( int k = 0; k < 5 && x && !( x->open && usable( cvs[x->cv].file ) ) && !r.chance( 1, 10 ); k++ )
         {
            x = any( v );
         }
         return x;
      }
      void write()
      {
         Writer *w = anyOpen( writers );
         if ( !w )
         {
            return;
         }
         Cv &v = cvs[w->cv];
         Codes codes;
         if ( !usable( v.file ) )
         {
            codes.insert( e57::ErrorImageFileNotOpen );
         }
         if ( !w->open )
         {
            codes.insert( e57::ErrorWriterNotOpen );
         }
         Mem *m = mems[w->mem].get();
         size_t n = r.below( m->cap + 1 );
         const unsigned how = unsigned( r.below( 8 ) );
         auto &h = w->h[r.below( w->h.size() )];
         if ( how == 0 )
         {
            n = m->cap + 1 + r.below( 3 );
            codes.insert( e57::ErrorBadAPIArgument );
            call( "write too many", false, codes, [&] { h.write( n ); } );
            return;
         }
         if ( how == 1 && n > 0 && codes.empty() )
         {
            // a value out of bounds: the writer is done for, the node is empty
            m->fill( v.id, w->pending, n );
            m->a[r.below( n )] = r.chance( 1, 2 ) ? 1001 : -1;
            call( "write out of bounds", false, { e57::ErrorValueOutOfBounds }, [&] { h.write( n ); } );
            call( "write after failure", false, { e57::ErrorWriterNotOpen }, [&] { h.write( 1 ); } );
            call( "close", true, {}, [&] { h.close(); } );
            w->open = false;
            return;
         }
         if ( how == 2 && usable( v.file ) )
         {
            // other buffers
            size_t mem;
            const size_t was = w->mem;
            const bool incompatible = r.chance( 1, 2 );
            auto s = buffers( files[v.file].h[0], v, mem, codes, true, false, incompatible ? m->cap + 1 : m->cap );
            if ( incompatible )
            {
               switch ( r.below( 3 ) )
               {
                  case 0:
                     s.clear();
                     break;
                  case 1:
                     s[0] = e57::SourceDestBuffer( files[v.file].h[0], "a", mems[mem]->b.data(), mems[mem]->cap, true );
                     break;
                  default:
                     break;
               }
               // the documentation lets capacities differ; the library does not
               codes.insert( { e57::ErrorBuffersNotCompatible, e57::ErrorBufferSizeMismatch, e57::ErrorNoBufferForElement } );
               call( "write incompatible", false, codes, [&] { h.write( s, 1 ); } );
               return;
            }
            mems[mem]->fill( v.id, w->pending, n );
            if ( call( "write other buffers", codes.empty(), codes, [&] { h.write( s, n ); } ) )
            {
               w->pending += n;
               w->mem = mem;
            }
            else
            {
               w->mem = was;
            }
            return;
         }
         m->fill( v.id, w->pending, n );
         if ( call( "write", codes.empty(), codes, [&] { h.write( n ); } ) )
         {
            w->pending += n;
         }
      }
      void closeWriter()
      {
         Writer *w = anyOpen( writers );
         if ( !w )
         {
            return;
         }
         Cv &v = cvs[w->cv];
         const bool up = usable( v.file );
         auto &h = w->h[r.below( w->h.size() )];
         if ( call( "close writer", up || !w->open, up ? Codes{} : Codes{ e57::ErrorImageFileNotOpen }, [&] { h.close(); } ) && w->open && up )
         {
            v.records = w->pending;
            v.written = true;
         }
         w->open = false;
      }
      void openReader()
      {
         Cv *v = anyCv( false );
         if ( !v )
         {
            return;
         }
         Codes codes;
         bool mayOk = true;
         auto must = [&]( int code ) {
            codes.insert( code );
            mayOk = false;
         };
         if ( !usable( v->file ) )
         {
            must( e57::ErrorImageFileNotOpen );
         }
         if ( openWriters( v->file ) )
         {
            must( e57::ErrorTooManyWriters );
         }
         if ( openReaders( v->file ) )
         {
            codes.insert( e57::ErrorTooManyReaders ); // several readers of one file need not be possible
         }
         if ( !v->attached )
         {
            must( e57::ErrorNodeUnattached );
         }
         if ( v->records == 0 && !v->written )
         {
            codes.insert( e57::ErrorData3DReadInvalidZeroRecords );
         }
         Reader w;
         w.cv = size_t( v - cvs.data() );
         ImageFile *imf = nullptr;
         for ( auto &f : files )
         {
            if ( f.open && !f.gone() )
            {
               imf = &f.h[0];
            }
         }
         if ( usable( v->file ) )
         {
            imf = &files[v->file].h[0];
         }
         if ( !imf )
         {
            return;
         }
         Codes flaw;
         auto s = buffers( *imf, *v, w.mem, flaw, false, r.chance( 1, 5 ), 1 + r.below( 200 ) );
         for ( int k : flaw )
         {
            must( k );
         }
         if ( call( "reader", mayOk, codes, [&] { w.h.push_back( v->h[0].reader( s ) ); }, v->name ) )
         {
            readers.push_back( w );
         }
      }
      void read()
      {
         Reader *w = anyOpen( readers );
         if ( !w )
         {
            return;
         }
         Cv &v = cvs[w->cv];
         Codes codes;
         if ( !usable( v.file ) )
         {
            codes.insert( e57::ErrorImageFileNotOpen );
         }
         if ( !w->open )
         {
            codes.insert( e57::ErrorReaderNotOpen );
         }
         auto &h = w->h[r.below( w->h.size() )];
         Mem *m = mems[w->mem].get();
         const unsigned how = unsigned( r.below( 8 ) );
         unsigned got = 0;
         if ( how == 0 )
         {
            codes.insert( e57::ErrorNotImplemented );
            call( "seek", false, codes, [&] { h.seek( 0 ); } );
            return;
         }
         if ( how == 1 && usable( v.file ) )
         {
            size_t mem;
            Codes none;
            auto s = buffers( files[v.file].h[0], v, mem, none, false, false, m->cap );
            const bool incompatible = r.chance( 1, 2 );
            if ( incompatible )
            {
               s[0] = e57::SourceDestBuffer( files[v.file].h[0], "a", mems[mem]->b.data(), m->cap, true );
               codes.insert( e57::ErrorBuffersNotCompatible );
            }
            if ( !call( incompatible ? "read incompatible" : "read other buffers", codes.empty(), codes, [&] { got = h.read( s ); } ) )
            {
               return;
            }
            w->mem = mem;
            m = mems[mem].get();
         }
         else if ( !call( "read", codes.empty(), codes, [&] { got = h.read(); } ) )
         {
            return;
         }
         MON_CHECK( got == std::min<uint64_t>( m->cap, v.records - w->at ), "read-count", fmt( "%u at %" PRIu64 " of %" PRIu64, got, w->at, v.records ) );
         for ( unsigned k = 0; k < got; k++ )
         {
            MON_CHECK( m->a[k] == ival( v.id, w->at + k ), "read-differs", fmt( "%s record %" PRIu64 " a", v.name.c_str(), w->at + k ) );
            MON_CHECK( v.fields < 2 || m->b[k] == dval( v.id, w->at + k ), "read-differs", fmt( "%s record %" PRIu64 " b", v.name.c_str(), w->at + k ) );
            MON_CHECK( v.fields < 3 || m->c[k] == sval( v.id, w->at + k ), "read-differs", fmt( "%s record %" PRIu64 " c", v.name.c_str(), w->at + k ) );
         }
         mon::count( "records read", got );
         w->at += got;
      }
      void closeReader()
      {
         Reader *w = any( readers );
         if ( !w )
         {
            return;
         }
         const bool up = usable( cvs[w->cv].file );
         auto &h = w->h[r.below( w->h.size() )];
         call( "close reader", up || !w->open, up ? Codes{} : Codes{ e57::ErrorImageFileNotOpen }, [&] { h.close(); } );
         w->open = false;
      }
      void dropWriter( Writer &w )
      {
         const bool last = w.h.size() == 1;
         w.h.pop_back();
         mon::count( "handles destroyed" );
         seq += "dw,";
         mon::note( "drop writer" );
         if ( last && w.open )
         {
            w.open = false;
            Cv &v = cvs[w.cv];
            if ( usable( v.file ) && !v.h.empty() )
            {
               // kept or lost, but nothing in between
               const uint64_t n = uint64_t( v.h[0].childCount() );
               MON_CHECK( n == 0 || n == w.pending, "records-after-destruction", fmt( "%" PRIu64 " of %" PRIu64, n, w.pending ) );
               v.records = n;
               v.written = n > 0 || v.written;
            }
            else if ( usable( v.file ) )
            {
               const uint64_t n = v.attached ? uint64_t( e57::CompressedVectorNode( files[v.file].h[0].root().get( v.name ) ).childCount() ) : 0;
               MON_CHECK( n == 0 || n == w.pending, "records-after-destruction", fmt( "%" PRIu64 " of %" PRIu64, n, w.pending ) );
               v.records = n;
            }
         }
      }
      void dropReader( Reader &w )
      {
         if ( w.h.size() == 1 )
         {
            w.open = false;
         }
         w.h.pop_back();
         mon::count( "handles destroyed" );
         mon::note( "drop reader" );
         seq += "dr,";
      }
      void dropFile( File &f )
      {
         const bool last = f.h.size() == 1;
         f.h.pop_back();
         mon::count( "handles destroyed" );
         mon::note( fmt( "drop file%s", last ? " (last)" : "" ) );
         seq += "df,";
         if ( last && f.open )
         {
            f.open = false;
            if ( f.mode == 0 )
            {
               MON_CHECK( !mon::exists( f.path ), "unclosed-file-left", f.path );
               mon::count( "unclosed files gone" );
            }
            else
            {
               MON_CHECK( f.mode == 2 || mon::exists( f.path ), "read-file-deleted", f.path );
            }
         }
      }
      void closeFile()
      {
         File *f = any( files );
         if ( !f )
         {
            return;
         }
         for ( int k = 0; k < 4 && !f->open; k++ )
         {
            f = any( files );
         }
         const size_t me = size_t( f - files.data() );
         auto &h = f->h[r.below( f->h.size() )];
         const bool was = f->open;
         if ( r.chance( 1, 6 ) )
         {
            call( "cancel", true, {}, [&] { h.cancel(); } );
            markClosed( me );
            if ( was && f->mode == 0 )
            {
               MON_CHECK( !mon::exists( f->path ), "cancelled-file-left", f->path );
            }
            else if ( was )
            {
               MON_CHECK( f->mode == 2 || mon::exists( f->path ), "read-file-deleted", f->path );
            }
            return;
         }
         mon::distinct( "closed with", fmt( "mode %d w%d r%d", f->mode, openWriters( me ), openReaders( me ) ) );
         call( "close file", true, {}, [&] { h.close(); } );
         markClosed( me );
         if ( was && f->mode == 0 )
         {
            verifyClosed( me );
         }
      }
      void copyHandle()
      {
         switch ( r.below( 5 ) )
         {
            case 0:
               if ( auto *f = any( files ) )
               {
                  f->h.push_back( f->h[0] );
               }
               break;
            case 1:
               if ( auto *f = any( writers ) )
               {
                  f->h.push_back( f->h[0] );
               }
               break;
            case 2:
               if ( auto *f = any( readers ) )
               {
                  f->h.push_back( f->h[0] );
               }
               break;
            case 3:
               if ( auto *f = any( cvs ) )
               {
                  if ( usable( f->file ) && f->attached )
                  {
                     f->h.emplace_back( files[f->file].h[0].root().get( f->name ) );
                  }
                  else
                  {
                     f->h.push_back( f->h[0] );
                  }
               }
               break;
            default:
               // a handle of the file from one of its elements
               if ( auto *f = any( cvs ) )
               {
                  if ( !files[f->file].gone() )
                  {
                     files[f->file].h.push_back( f->h[0].destImageFile() );
                  }
               }
         }
      }
      void dropHandle()
      {
         switch ( r.below( 8 ) )
         {
            case 0:
               if ( auto *f = any( files ) )
               {
                  if ( f->h.size() == 1 && f->open && r.chance( 2, 3 ) )
                  {
                     break;
                  }
                  dropFile( *f );
               }
               break;
            case 1:
            case 2:
               if ( auto *f = any( writers ) )
               {
                  dropWriter( *f );
               }
               break;
            case 3:
            case 4:
               if ( auto *f = any( readers ) )
               {
                  dropReader( *f );
               }
               break;
            case 5:
               if ( auto *f = any( blobs ) )
               {
                  f->h.pop_back();
               }
               break;
            default:
               if ( auto *f = any( cvs ) )
               {
                  // an unattached one is gone with its last handle
                  if ( f->attached || f->h.size() > 1 )
                  {
                     f->h.pop_back();
                     if ( f->h.empty() && usable( f->file ) && r.chance( 1, 2 ) )
                     {
                        f->h.emplace_back( files[f->file].h[0].root().get( f->name ) );
                     }
                  }
               }
         }
      }
      // elements after (and before) the file is closed
      void nodeCalls()
      {
         Cv *v = any( cvs );
         if ( !v )
         {
            return;
         }
         const bool up = usable( v->file );
         const Codes codes = up ? Codes{} : Codes{ e57::ErrorImageFileNotOpen };
         auto &h = v->h[0];
         call( "isRoot", up, codes, [&] { (void)h.isRoot(); } );
         call( "parent", up, codes, [&] { (void)h.parent(); } );
         call( "pathName", up, codes, [&] { (void)h.pathName(); } );
         call( "elementName", up, codes, [&] { (void)h.elementName(); } );
         call( "isAttached", up, codes, [&] { (void)h.isAttached(); } );
         call( "childCount", up, codes, [&] { (void)h.childCount(); } );
         call( "prototype", up, codes, [&] { (void)h.prototype(); } );
         call( "codecs", up, codes, [&] { (void)h.codecs(); } );
         if ( auto *b = any( blobs ) )
         {
            const bool bup = usable( b->file );
            call( "byteCount", bup, bup ? Codes{} : Codes{ e57::ErrorImageFileNotOpen }, [&] { (void)b->h[0].byteCount(); } );
         }
         if ( !files[v->file].gone() )
         {
            ImageFile &imf = files[v->file].h[0];
            call( "root", up, codes, [&] { (void)imf.root(); } );
            call( "new integer", up, codes, [&] { e57::IntegerNode n( imf, 5 ); } );
            call( "new structure", up, codes, [&] { e57::StructureNode n( imf ); } );
            call( "new string", up, codes, [&] { e57::StringNode n( imf, "x" ); } );
            call( "new float", up, codes, [&] { e57::FloatNode n( imf, 1.0 ); } );
            call( "new scaled", up, codes, [&] { e57::ScaledIntegerNode n( imf, int64_t( 1 ), int64_t( 0 ), int64_t( 10 ), 0.5, 1.0 ); } );
            call( "new vector", up, codes, [&] { e57::VectorNode n( imf, true ); } );
            int64_t x = 0;
            call( "new buffer", up, codes, [&] { e57::SourceDestBuffer b( imf, "a", &x, 1 ); } );
            // no memory at all to read from or write to
            Codes bad = codes;
            bad.insert( e57::ErrorBadBuffer );
            switch ( r.below( 4 ) )
            {
               case 0:
                  call( "new buffer of nothing", false, bad, [&] { e57::SourceDestBuffer b( imf, "a", static_cast<int64_t *>( nullptr ), 1 ); } );
                  break;
               case 1:
                  call( "new buffer of nothing", false, bad, [&] { e57::SourceDestBuffer b( imf, "a", static_cast<float *>( nullptr ), 3, true, true ); } );
                  break;
               case 2:
                  call( "new buffer of no strings", false, bad, [&] { e57::SourceDestBuffer b( imf, "a", static_cast<std::vector<e57::ustring> *>( nullptr ) ); } );
                  break;
               default:
                  bad = codes;
                  bad.insert( { e57::ErrorBadPathName, e57::ErrorPathNameEmpty, e57::ErrorPathNameMalformed } );
                  call( "new buffer, bad path", false, bad, [&] { e57::SourceDestBuffer b( imf, r.chance( 1, 2 ) ? "a//b" : "a b", &x, 1 ); } );
                  break;
            }
            if ( up )
            {
               MON_CHECK( imf.root().get( "/" ).type() == e57::TypeStructure, "root-type", "" );
            }
         }
      }
      void step()
      {
         switch ( r.below( 35 ) )
         {
            case 30:
            case 31:
            case 32:
            case 33:
               write();
               break;
            case 0:
            case 34:
               if ( files.size() < 12 )
               {
                  openFile();
               }
               break;
            case 1:
            case 2:
               newCv();
               break;
            case 3:
            case 4:
            case 5:
               attach();
               break;
            case 6:
               newBlob();
               break;
            case 7:
               if ( auto *b = any( blobs ) )
               {
                  blobWrite( *b, false );
               }
               break;
            case 8:
               if ( auto *b = any( blobs ) )
               {
                  blobRead( *b );
               }
               break;
            case 9:
            case 10:
            case 11:
               openWriter();
               break;
            case 12:
            case 13:
            case 14:
            case 15:
               write();
               break;
            case 16:
            case 17:
               closeWriter();
               break;
            case 18:
            case 19:
            case 20:
               openReader();
               break;
            case 21:
            case 22:
            case 23:
               read();
               break;
            case 24:
            case 25:
               closeReader();
               break;
            case 26:
               if ( r.chance( 1, 2 ) )
               {
                  closeFile();
               }
               break;
            case 27:
               copyHandle();
               break;
            case 28:
               if ( r.chance( 1, 2 ) )
               {
                  dropHandle();
               }
               break;
            default:
               if ( r.chance( 1, 3 ) )
               {
                  nodeCalls();
               }
         }
      }
   };
}

static void run( mon::Ctx &c )
{
   World w( c );
   w.files.reserve( 16 );
   w.openFile();
   const unsigned n = 30 + unsigned( c.rng.below( c.rng.chance( 1, 5 ) ? 300 : 80 ) );
   for ( unsigned k = 0; k < n; k++ )
   {
      w.step();
      w.observe();
   }
   mon::distinct( "case", w.seq );
   mon::sample( fmt( "case %ld: %u steps: %s", c.caseNo, n, w.seq.substr( 0, 300 ).c_str() ) );
   for ( int k = 0; k < 12; k++ )
   {
      if ( c.rng.chance( 1, 2 ) )
      {
         w.closeWriter();
      }
      else
      {
         w.closeFile();
      }
      w.observe();
   }
   // everything that is left, in random order
   vector<int> kinds;
   for ( ;; )
   {
      kinds.clear();
      if ( w.any( w.files ) )
      {
         kinds.push_back( 0 );
      }
      if ( w.any( w.writers ) )
      {
         kinds.push_back( 1 );
      }
      if ( w.any( w.readers ) )
      {
         kinds.push_back( 2 );
      }
      if ( w.any( w.cvs ) )
      {
         kinds.push_back( 3 );
      }
      if ( w.any( w.blobs ) )
      {
         kinds.push_back( 4 );
      }
      if ( kinds.empty() )
      {
         break;
      }
      switch ( c.rng.pick( kinds ) )
      {
         case 0:
            w.dropFile( *w.any( w.files ) );
            break;
         case 1:
            w.dropWriter( *w.any( w.writers ) );
            break;
         case 2:
            w.dropReader( *w.any( w.readers ) );
            break;
         case 3:
            w.any( w.cvs )->h.pop_back();
            break;
         default:
            w.any( w.blobs )->h.pop_back();
      }
   }
   for ( auto &f : w.files )
   {
      std::remove( f.path.c_str() );
   }
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C12";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
