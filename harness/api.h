// Driving the real library from the model, and turning what it reports back into the model.
#pragma once
#include "model.h"

namespace api
{
   using model::Column;
   using model::Leaf;
   using model::Node;
   using model::T;
   using mon::bytes;
   using mon::fmt;
   using mon::Rng;
   using std::string;
   using std::vector;
   using std::map;
   using e57::ImageFile;

   // ------------------------------------------------------- memory buffers
   enum Mem
   {
      I8,
      U8,
      I16,
      U16,
      I32,
      U32,
      I64,
      BOOL,
      F32,
      F64,
      STR
   };
   inline const char *memName( Mem m )
   {
      static const char *n[] = { "i8", "u8", "i16", "u16", "i32", "u32", "i64", "bool", "f32", "f64", "str" };
      return n[m];
   }
   inline size_t memSize( Mem m )
   {
      static const size_t n[] = { 1, 1, 2, 2, 4, 4, 8, sizeof( bool ), 4, 8, 0 };
      return n[m];
   }
   inline void memRange( Mem m, int64_t &lo, int64_t &hi )
   {
      static const int64_t l[] = { INT8_MIN, 0, INT16_MIN, 0, INT32_MIN, 0, INT64_MIN, 0 };
      static const int64_t h[] = { INT8_MAX, UINT8_MAX, INT16_MAX, UINT16_MAX, INT32_MAX, UINT32_MAX, INT64_MAX, 1 };
      lo = l[m];
      hi = h[m];
   }

   // A caller-owned transfer buffer, exactly as large as needed, with canaries in the gaps
   struct Buf
   {
      Mem mem;
      bool conv = false, scal = false;
      size_t cap = 0, stride = 0;
      std::unique_ptr<char[]> store; // exact extent: the sanitizer guards both ends
      size_t extent = 0;
      vector<string> strs;

      static char canary( size_t k )
      {
         return char( 0xA5 ^ ( k * 37 ) );
      }
      Buf( Mem m, size_t capacity, size_t strideMul = 1, bool c = false, bool s = false ) :
         mem( m ), conv( c ), scal( s ), cap( capacity )
      {
         if ( m == STR )
         {
            strs.resize( cap );
            return;
         }
         stride = memSize( m ) * strideMul;
         extent = cap ? ( cap - 1 ) * stride + memSize( m ) : 1;
         store.reset( new char[extent] );
         wipe();
      }
      void wipe()
      {
         for ( size_t k = 0; k < extent; k++ )
         {
            store[k] = canary( k );
         }
         for ( auto &s : strs )
         {
            s = "<canary>";
         }
      }
      e57::SourceDestBuffer sdb( const ImageFile &imf, const string &path )
      {
         char *p = store.get();
         switch ( mem )
         {
            case I8:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<int8_t *>( p ), cap, conv, scal, stride );
            case U8:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<uint8_t *>( p ), cap, conv, scal, stride );
            case I16:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<int16_t *>( p ), cap, conv, scal, stride );
            case U16:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<uint16_t *>( p ), cap, conv, scal, stride );
            case I32:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<int32_t *>( p ), cap, conv, scal, stride );
            case U32:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<uint32_t *>( p ), cap, conv, scal, stride );
            case I64:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<int64_t *>( p ), cap, conv, scal, stride );
            case BOOL:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<bool *>( p ), cap, conv, scal, stride );
            case F32:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<float *>( p ), cap, conv, scal, stride );
            case F64:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<double *>( p ), cap, conv, scal, stride );
            default:
               return e57::SourceDestBuffer( imf, path, &strs );
         }
      }
      template <class V> V raw( size_t k ) const
      {
         V v;
         memcpy( &v, store.get() + k * stride, sizeof v );
         return v;
      }
      template <class V> void put( size_t k, V v )
      {
         memcpy( store.get() + k * stride, &v, sizeof v );
      }
      // as an integer (integer memory types)
      int64_t getInt( size_t k ) const
      {
         switch ( mem )
         {
            case I8:
               return raw<int8_t>( k );
            case U8:
               return raw<uint8_t>( k );
            case I16:
               return raw<int16_t>( k );
            case U16:
               return raw<uint16_t>( k );
            case I32:
               return raw<int32_t>( k );
            case U32:
               return raw<uint32_t>( k );
            case BOOL:
               return raw<uint8_t>( k );
            default:
               return raw<int64_t>( k );
         }
      }
      void setInt( size_t k, int64_t v )
      {
         switch ( mem )
         {
            case I8:
            case U8:
            case BOOL:
               put<uint8_t>( k, uint8_t( v ) );
               break;
            case I16:
            case U16:
               put<uint16_t>( k, uint16_t( v ) );
               break;
            case I32:
            case U32:
               put<uint32_t>( k, uint32_t( v ) );
               break;
            case F32:
               put<float>( k, float( v ) );
               break;
            case F64:
               put<double>( k, double( v ) );
               break;
            default:
               put<int64_t>( k, v );
         }
      }
      double getReal( size_t k ) const
      {
         return mem == F32 ? double( raw<float>( k ) ) : mem == F64 ? raw<double>( k ) : double( getInt( k ) );
      }
      // bytes that belong to no element must be as before
      string damage() const
      {
         if ( mem == STR || stride == memSize( mem ) )
         {
            return "";
         }
         for ( size_t k = 0; k < extent; k++ )
         {
            if ( k % stride >= memSize( mem ) && store[k] != canary( k ) )
            {
               return fmt( "byte %zu (element %zu + %zu) of a %s buffer with stride %zu was changed", k, k / stride, k % stride,
                           memName( mem ), stride );
            }
         }
         return "";
      }
   };

   // How one field is transferred
   struct Plan
   {
      Mem mem = I64;
      bool conv = false, scal = false;
      size_t strideMul = 1;
      string str() const
      {
         return fmt( "%s%s%s*%zu", memName( mem ), conv ? "c" : "", scal ? "s" : "", strideMul );
      }
   };
   inline Plan naturalPlan( const Node &f )
   {
      Plan p;
      p.mem = f.type == T::String ? STR : f.type == T::Float ? ( f.single ? F32 : F64 ) : I64;
      return p;
   }
   // scaled value of a raw one in extended precision
   inline long double scaledOf( const Node &f, int64_t raw )
   {
      return static_cast<long double>( raw ) * static_cast<long double>( f.scale ) + static_cast<long double>( f.offset );
   }
   // plans under which every value of the column is transferred without loss
   inline vector<Plan> exactPlans( const Node &f, const Column &c, bool writing )
   {
      vector<Plan> out;
      auto add = [&]( Mem m, bool conv, bool scal ) {
         Plan p;
         p.mem = m;
         p.conv = conv;
         p.scal = scal;
         out.push_back( p );
      };
      if ( f.type == T::String )
      {
         add( STR, false, false );
         return out;
      }
      if ( f.type == T::Float )
      {
         bool f32 = true, f64 = true;
         bool small[8];
         for ( auto &b : small )
         {
            b = true;
         }
         for ( int64_t b : c.i )
         {
            const double d = f.single ? double( model::asFloat( b ) ) : model::asDouble( b );
            if ( std::isinf( d ) )
            {
               // an infinity passes only between equal precisions
               ( f.single ? f64 : f32 ) = false;
            }
            if ( !f.single && std::isfinite( d ) )
            {
               // narrowing must be lossless
               f32 = f32 && std::fabs( d ) <= double( FLT_MAX ) && double( float( d ) ) == d;
            }
            for ( int m = I8; m <= I64; m++ )
            {
               int64_t lo, hi;
               memRange( Mem( m ), lo, hi );
               // kept well inside for 64 bits
               const double L = m == I64 ? -9e18 : double( lo ), H = m == I64 ? 9e18 : double( hi );
               small[m] = small[m] && std::isfinite( d ) && d == std::floor( d ) && d >= L && d <= H && !( d == 0 && std::signbit( d ) );
            }
         }
         if ( f32 )
         {
            add( F32, false, false );
            add( F32, true, false );
         }
         if ( f64 )
         {
            add( F64, false, false );
            add( F64, true, true );
         }
         for ( int m = I8; m <= I64; m++ )
         {
            if ( small[m] )
            {
               add( Mem( m ), true, false );
            }
         }
         return out;
      }
      int64_t lo = INT64_MAX, hi = INT64_MIN;
      bool f32 = true, f64 = true, sc64 = f.type == T::Scaled;
      for ( int64_t v : c.i )
      {
         lo = std::min( lo, v );
         hi = std::max( hi, v );
         f32 = f32 && v >= -( 1 << 24 ) && v <= ( 1 << 24 );
         f64 = f64 && v >= -( 1LL << 53 ) && v <= ( 1LL << 53 );
         if ( sc64 )
         {
            // the nearest double of the scaled value must identify the raw value with margin
            const long double exact = scaledOf( f, v );
            const double d = double( exact );
            const double back = ( d - f.offset ) / f.scale;
            sc64 = std::isfinite( d ) && v > -( 1LL << 48 ) && v < ( 1LL << 48 ) && std::fabs( back - double( v ) ) < 0.2;
         }
      }
      for ( int m = I8; m <= BOOL; m++ )
      {
         int64_t l, h;
         memRange( Mem( m ), l, h );
         if ( c.i.empty() || ( lo >= l && hi <= h ) )
         {
            if ( m != BOOL || !writing )
            {
               add( Mem( m ), false, false );
            }
            add( Mem( m ), true, false );
            if ( f.type == T::Integer )
            {
               add( Mem( m ), true, true ); // scaling requests do not concern unscaled integers
            }
         }
      }
      if ( f32 )
      {
         add( F32, true, false );
      }
      if ( f64 )
      {
         add( F64, true, false );
      }
      if ( sc64 )
      {
         add( F64, true, true );
         add( F64, true, true );
      }
      return out;
   }
   inline void store( Buf &b, size_t k, const Node &f, const Column &c, size_t rec )
   {
      if ( f.type == T::String )
      {
         b.strs[k] = c.s[rec];
      }
      else if ( f.type == T::Float )
      {
         const int64_t v = c.i[rec];
         if ( b.mem == F32 )
         {
            b.put<float>( k, f.single ? model::asFloat( v ) : float( model::asDouble( v ) ) );
         }
         else if ( b.mem == F64 )
         {
            b.put<double>( k, f.single ? double( model::asFloat( v ) ) : model::asDouble( v ) );
         }
         else
         {
            b.setInt( k, int64_t( f.single ? double( model::asFloat( v ) ) : model::asDouble( v ) ) );
         }
      }
      else if ( f.type == T::Scaled && b.scal && b.mem == F64 )
      {
         b.put<double>( k, double( scaledOf( f, c.i[rec] ) ) );
      }
      else
      {
         b.setInt( k, c.i[rec] );
      }
   }
   // "" if element k of the buffer is the value of record rec
   inline string mismatch( const Buf &b, size_t k, const Node &f, const Column &c, size_t rec )
   {
      if ( f.type == T::String )
      {
         if ( b.strs[k] != c.s[rec] )
         {
            return fmt( "string of %zu bytes %s, expected %zu bytes %s", b.strs[k].size(), mon::quote( b.strs[k].substr( 0, 40 ) ).c_str(),
                        c.s[rec].size(), mon::quote( c.s[rec].substr( 0, 40 ) ).c_str() );
         }
         return "";
      }
      const int64_t v = c.i[rec];
      if ( f.type == T::Float )
      {
         const double want = f.single ? double( model::asFloat( v ) ) : model::asDouble( v );
         if ( b.mem == F32 && f.single )
         {
            const int64_t got = model::bitsOf( b.raw<float>( k ) );
            return got == v ? "" : fmt( "float bits %08" PRIx64 ", expected %08" PRIx64, got, v );
         }
         if ( b.mem == F64 && !f.single )
         {
            const int64_t got = model::bitsOf( b.raw<double>( k ) );
            return got == v ? "" : fmt( "double bits %016" PRIx64 ", expected %016" PRIx64, got, v );
         }
         const double got = b.getReal( k );
         const bool ok = std::isnan( want ) ? std::isnan( got ) : got == want && std::signbit( got ) == std::signbit( want );
         return ok ? "" : fmt( "%.17g, expected %.17g", got, want );
      }
      if ( f.type == T::Scaled && b.scal && ( b.mem == F64 || b.mem == F32 ) )
      {
         const long double want = scaledOf( f, v );
         const double got = b.getReal( k );
         // rounding of the product, the sum and of the conversion of the raw value
         const long double mag = std::fabs( static_cast<long double>( v ) * f.scale ) + std::fabs( static_cast<long double>( f.offset ) );
         const long double tol = mag * ( b.mem == F32 ? 0x1p-22L : 0x1p-50L );
         return std::fabs( static_cast<long double>( got ) - want ) <= tol ? "" : fmt( "%.17g, expected %.17Lg (raw %" PRId64 ")", got, want, v );
      }
      if ( b.mem == F32 || b.mem == F64 )
      {
         return b.getReal( k ) == double( v ) ? "" : fmt( "%.17g, expected %" PRId64, b.getReal( k ), v );
      }
      return b.getInt( k ) == v ? "" : fmt( "%" PRId64 ", expected %" PRId64, b.getInt( k ), v );
   }
   // natural-plan buffer element -> column
   inline void fetch( const Buf &b, size_t k, const Node &f, Column &c )
   {
      if ( f.type == T::String )
      {
         c.s.push_back( b.strs[k] );
      }
      else if ( f.type == T::Float )
      {
         c.i.push_back( f.single ? model::bitsOf( b.raw<float>( k ) ) : model::bitsOf( b.raw<double>( k ) ) );
      }
      else
      {
         c.i.push_back( b.raw<int64_t>( k ) );
      }
   }

   // someone who looks at objects while they are used
   struct Spy
   {
      virtual ~Spy()
      {
      }
      virtual void node( const e57::Node &, const Node & )
      {
      }
      virtual void buffer( const e57::SourceDestBuffer &, const Buf &, const string & )
      {
      }
      virtual void writer( e57::CompressedVectorWriter &, const e57::CompressedVectorNode &, bool )
      {
      }
      virtual void reader( e57::CompressedVectorReader &, const e57::CompressedVectorNode &, bool )
      {
      }
   };
   inline Spy *&spy()
   {
      static thread_local Spy *s = nullptr;
      return s;
   }

   // --------------------------------------------------- building in a file
   struct Pending
   {
      e57::Node node;
      const Node *m;
   };
   struct Builder
   {
      ImageFile imf;
      Rng &r;
      vector<Pending> blobs, cvs;
      bool attachFirst = true; // allow setting containers before filling them

      Builder( ImageFile f, Rng &rng ) : imf( std::move( f ) ), r( rng )
      {
      }
      e57::Node leafOrShell( const Node &m )
      {
         switch ( m.type )
         {
            case T::Structure:
               return e57::StructureNode( imf );
            case T::Vector:
               return e57::VectorNode( imf, m.hetero );
            case T::Integer:
               return e57::IntegerNode( imf, m.iv, m.imin, m.imax );
            case T::Scaled:
               return e57::ScaledIntegerNode( imf, m.iv, m.imin, m.imax, m.scale, m.offset );
            case T::Float:
               return e57::FloatNode( imf, m.fv, m.single ? e57::PrecisionSingle : e57::PrecisionDouble, m.fmin, m.fmax );
            case T::String:
               return e57::StringNode( imf, m.sv );
            case T::Blob:
            {
               e57::BlobNode b( imf, int64_t( m.blob.size() ) );
               blobs.push_back( { b, &m } );
               return b;
            }
            case T::CompressedVector:
            {
               e57::Node proto = full( *m.proto );
               e57::VectorNode codecs( full( *m.codecs ) );
               e57::CompressedVectorNode cv( imf, proto, codecs );
               cvs.push_back( { cv, &m } );
               return cv;
            }
         }
         mon::fail( "harness", "bad model" );
      }
      void add( e57::Node &parent, const Node &pm, const Node &km, const e57::Node &k )
      {
         if ( pm.type == T::Vector )
         {
            e57::VectorNode( parent ).append( k );
         }
         else
         {
            e57::StructureNode( parent ).set( km.name, k );
         }
      }
      void populate( e57::Node parent, const Node &pm )
      {
         for ( auto &k : pm.kids )
         {
            const bool container = k.type == T::Structure || k.type == T::Vector;
            // in a homogeneous vector, the shape is compared when the child is appended
            const bool early = container && attachFirst && !( pm.type == T::Vector && !pm.hetero ) && r.chance( 1, 2 );
            e57::Node n = leafOrShell( k );
            if ( spy() )
            {
               spy()->node( n, k );
            }
            if ( early )
            {
               add( parent, pm, k, n );
            }
            if ( container )
            {
               populate( n, k );
            }
            if ( !early )
            {
               add( parent, pm, k, n );
            }
            if ( spy() )
            {
               spy()->node( n, k );
            }
         }
      }
      e57::Node full( const Node &m )
      {
         e57::Node n = leafOrShell( m );
         if ( m.type == T::Structure || m.type == T::Vector )
         {
            populate( n, m );
         }
         return n;
      }
      void writeBlobs()
      {
         for ( auto &p : blobs )
         {
            e57::BlobNode b( p.node );
            bytes copy = p.m->blob;
            if ( !copy.empty() )
            {
               b.write( reinterpret_cast<uint8_t *>( &copy[0] ), 0, copy.size() );
            }
         }
      }
   };

   struct WriteOpts
   {
      bool exactPlansOnly = true;
      bool natural = false;
      size_t maxChunk = 0; // 0: random
   };
   // write all records of the model to the node; returns a description
   inline string writeRecords( const ImageFile &imf, e57::CompressedVectorNode cv, const Node &m, Rng &r, bool natural = false,
                               size_t fixedCap = 0, const std::function<void()> &between = {} )
   {
      auto lv = model::leaves( *m.proto );
      const size_t n = m.records;
      size_t cap = fixedCap ? fixedCap : r.chance( 1, 3 ) ? std::max<size_t>( n, 1 ) : 1 + r.below( std::max<size_t>( n, 1 ) + 10 );
      string desc = fmt( "cap %zu:", cap );
      // new buffers can be designated with each block
      const size_t nSets = !natural && r.chance( 1, 4 ) ? 2 + r.below( 2 ) : 1;
      vector<vector<std::unique_ptr<Buf>>> bufs( nSets );
      vector<vector<e57::SourceDestBuffer>> sdbs( nSets );
      // buffers may be given in any order
      vector<size_t> order( lv.size() );
      for ( size_t k = 0; k < order.size(); k++ )
      {
         order[k] = k;
      }
      if ( !natural )
      {
         for ( size_t k = order.size(); k > 1; k-- )
         {
            std::swap( order[k - 1], order[r.below( k )] );
         }
      }
      for ( size_t k = 0; k < lv.size(); k++ )
      {
         Plan p = naturalPlan( *lv[k].node );
         if ( !natural )
         {
            p = r.pick( exactPlans( *lv[k].node, m.cols[k], true ) );
            p.strideMul = r.chance( 1, 4 ) ? 1 + r.below( 5 ) : 1;
         }
         for ( auto &set : bufs )
         {
            set.emplace_back( new Buf( p.mem, cap, p.strideMul, p.conv, p.scal ) );
         }
         if ( k < 4 )
         {
            desc += " " + p.str();
         }
         mon::distinct( "transfer", fmt( "w:%s:%s", model::tname( lv[k].node->type ), p.str().c_str() ) );
      }
      for ( size_t s = 0; s < nSets; s++ )
      {
         for ( size_t k : order )
         {
            sdbs[s].push_back( bufs[s][k]->sdb( imf, lv[k].path ) );
            if ( spy() )
            {
               spy()->buffer( sdbs[s].back(), *bufs[s][k], lv[k].path );
            }
         }
      }
      if ( nSets > 1 )
      {
         desc += fmt( " (%zu buffer sets)", nSets );
      }
      e57::CompressedVectorWriter w = cv.writer( sdbs[0] );
      size_t done = 0, set = 0;
      while ( done < n )
      {
         size_t c = std::min( n - done, fixedCap ? cap : r.chance( 1, 2 ) ? cap : 1 + r.below( cap ) );
         const size_t was = set;
         set = r.below( nSets );
         for ( size_t k = 0; k < lv.size(); k++ )
         {
            if ( nSets > 1 )
            {
               for ( auto &any : bufs )
               {
                  any[k]->wipe();
               }
            }
            for ( size_t j = 0; j < c; j++ )
            {
               store( *bufs[set][k], j, *lv[k].node, m.cols[k], done + j );
            }
         }
         if ( set != was || ( nSets > 1 && r.chance( 1, 2 ) ) )
         {
            w.write( sdbs[set], c );
            mon::count( "blocks through newly designated buffers" );
         }
         else
         {
            w.write( c );
         }
         done += c;
         mon::count( "records written", c );
         if ( between )
         {
            between();
         }
         if ( spy() )
         {
            spy()->writer( w, cv, true );
            spy()->buffer( sdbs[set][0], *bufs[set][order[0]], lv[order[0]].path );
         }
      }
      w.close();
      if ( spy() )
      {
         spy()->writer( w, cv, false );
      }
      return desc;
   }
   // read everything back with natural types
   inline void readRecords( const ImageFile &imf, e57::CompressedVectorNode cv, Node &m, size_t cap = 0 )
   {
      auto lv = model::leaves( *m.proto );
      m.records = uint64_t( cv.childCount() );
      m.cols.assign( lv.size(), Column() );
      if ( m.records == 0 || lv.empty() )
      {
         return;
      }
      if ( cap == 0 )
      {
         cap = size_t( m.records );
      }
      vector<std::unique_ptr<Buf>> bufs;
      vector<e57::SourceDestBuffer> sdbs;
      for ( auto &l : lv )
      {
         bufs.emplace_back( new Buf( naturalPlan( *l.node ).mem, cap ) );
         sdbs.push_back( bufs.back()->sdb( imf, l.path ) );
      }
      e57::CompressedVectorReader rd = cv.reader( sdbs );
      uint64_t total = 0;
      for ( ;; )
      {
         if ( spy() )
         {
            spy()->reader( rd, cv, true );
            spy()->buffer( sdbs[0], *bufs[0], lv[0].path );
         }
         unsigned got = rd.read();
         if ( got == 0 )
         {
            break;
         }
         if ( got > cap || total + got > m.records )
         {
            mon::fail( "too-many-records", fmt( "read() returned %u after %" PRIu64 " of %" PRIu64, got, total, m.records ) );
         }
         for ( size_t k = 0; k < lv.size(); k++ )
         {
            for ( unsigned j = 0; j < got; j++ )
            {
               fetch( *bufs[k], j, *lv[k].node, m.cols[k] );
            }
         }
         total += got;
      }
      rd.close();
      if ( spy() )
      {
         spy()->reader( rd, cv, false );
      }
      if ( total != m.records )
      {
         mon::fail( "too-few-records", fmt( "read() delivered %" PRIu64 " of %" PRIu64, total, m.records ) );
      }
      mon::count( "records read", total );
   }
   // description of an element as the library reports it
   inline Node describe( const e57::Node &n, bool contents = true )
   {
      Node m;
      switch ( n.type() )
      {
         case e57::TypeStructure:
         {
            m.type = T::Structure;
            e57::StructureNode s( n );
            for ( int64_t k = 0; k < s.childCount(); k++ )
            {
               e57::Node c = s.get( k );
               m.kids.push_back( describe( c, contents ) );
               m.kids.back().name = c.elementName();
            }
            break;
         }
         case e57::TypeVector:
         {
            m.type = T::Vector;
            e57::VectorNode s( n );
            m.hetero = s.allowHeteroChildren();
            for ( int64_t k = 0; k < s.childCount(); k++ )
            {
               m.kids.push_back( describe( s.get( k ), contents ) );
            }
            break;
         }
         case e57::TypeInteger:
         {
            m.type = T::Integer;
            e57::IntegerNode s( n );
            m.iv = s.value();
            m.imin = s.minimum();
            m.imax = s.maximum();
            break;
         }
         case e57::TypeScaledInteger:
         {
            m.type = T::Scaled;
            e57::ScaledIntegerNode s( n );
            m.iv = s.rawValue();
            m.imin = s.minimum();
            m.imax = s.maximum();
            m.scale = s.scale();
            m.offset = s.offset();
            break;
         }
         case e57::TypeFloat:
         {
            m.type = T::Float;
            e57::FloatNode s( n );
            m.fv = s.value();
            m.fmin = s.minimum();
            m.fmax = s.maximum();
            m.single = s.precision() == e57::PrecisionSingle;
            break;
         }
         case e57::TypeString:
            m.type = T::String;
            m.sv = e57::StringNode( n ).value();
            break;
         case e57::TypeBlob:
         {
            m.type = T::Blob;
            e57::BlobNode b( n );
            if ( contents && ( b.byteCount() < 0 || b.byteCount() > int64_t( 1 ) << 31 ) )
            {
               mon::fail( "implausible-blob", fmt( "%" PRId64 " bytes", b.byteCount() ) ); // damaged
            }
            m.blob.assign( contents ? size_t( b.byteCount() ) : 0, char( 0x5a ) );
            if ( !m.blob.empty() )
            {
               b.read( reinterpret_cast<uint8_t *>( &m.blob[0] ), 0, m.blob.size() );
            }
            break;
         }
         case e57::TypeCompressedVector:
         {
            m.type = T::CompressedVector;
            e57::CompressedVectorNode cv( n );
            m.proto = std::make_shared<Node>( describe( cv.prototype(), contents ) );
            m.codecs = std::make_shared<Node>( describe( cv.codecs(), contents ) );
            if ( contents && ( cv.childCount() < 0 || cv.childCount() > int64_t( 1 ) << 31 ) )
            {
               mon::fail( "implausible-records", fmt( "%" PRId64 " records", cv.childCount() ) ); // damaged
            }
            if ( contents )
            {
               readRecords( n.destImageFile(), cv, m );
            }
            else
            {
               m.records = uint64_t( cv.childCount() );
            }
            break;
         }
      }
      return m;
   }
   inline Node describeFile( const string &path, e57::ReadChecksumPolicy pol = e57::ChecksumPolicy::ChecksumAll )
   {
      ImageFile f( path, "r", pol );
      Node m = describe( f.root() );
      f.close();
      return m;
   }
}
