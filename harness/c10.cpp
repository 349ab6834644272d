// C10: values outside declared bounds are refused and never stored.
#include "api.h"
#include "ref.h"
using namespace api;

namespace
{
   // a value outside [lo,hi] if there is one, near an end or anywhere
   bool outsideInt( Rng &r, int64_t lo, int64_t hi, int64_t &v )
   {
      if ( lo == INT64_MIN && hi == INT64_MAX )
      {
         return false;
      }
      const bool below = lo == INT64_MIN ? false : hi == INT64_MAX ? true : r.chance( 1, 2 );
      switch ( r.below( 5 ) )
      {
         case 0:
         case 1:
            v = below ? lo - 1 : hi + 1;
            break;
         case 2:
            v = below ? INT64_MIN : INT64_MAX;
            break;
         case 3:
         {
            // the same low bits, one more above: fits the field if a check is missing
            const uint64_t span = uint64_t( hi ) - uint64_t( lo );
            const uint64_t step = span == UINT64_MAX ? 0 : span + 1;
            v = below ? int64_t( uint64_t( lo ) - step ) : int64_t( uint64_t( hi ) + step );
            if ( below ? v >= lo : v <= hi )
            {
               v = below ? lo - 1 : hi + 1;
            }
            break;
         }
         default:
            v = below ? r.range( INT64_MIN, lo - 1 ) : r.range( hi + 1, INT64_MAX );
      }
      return true;
   }
   int64_t insideInt( Rng &r, int64_t lo, int64_t hi )
   {
      switch ( r.below( 4 ) )
      {
         case 0:
            return lo;
         case 1:
            return hi;
         default:
            return r.range( lo, hi );
      }
   }
   double step( double v, bool up, bool single )
   {
      return single ? double( std::nextafterf( float( v ), up ? INFINITY : -INFINITY ) ) : std::nextafter( v, up ? INFINITY : -INFINITY );
   }

   struct Attempt
   {
      Node n;
      bool ok;
   };
   // an element with bounds and a value in or out of them
   Attempt element( Rng &r, model::Gen &g )
   {
      Attempt a{ Node( r.pick( vector<T>{ T::Integer, T::Scaled, T::Float, T::Float } ) ), true };
      Node &n = a.n;
      g.fillLeaf( n );
      const bool want = r.chance( 1, 2 );
      if ( n.type != T::Float )
      {
         if ( want || !outsideInt( r, n.imin, n.imax, n.iv ) )
         {
            n.iv = insideInt( r, n.imin, n.imax );
         }
         else
         {
            a.ok = false;
         }
         return a;
      }
      if ( want )
      {
         if ( r.chance( 1, 2 ) )
         {
            n.fv = r.chance( 1, 2 ) ? n.fmin : n.fmax;
         }
         return a;
      }
      const double top = n.single ? double( FLT_MAX ) : DBL_MAX;
      const double huge = r.chance( 1, 2 ) ? top : INFINITY;
      const bool below = r.chance( 1, 2 );
      switch ( r.below( 4 ) )
      {
         case 0:
            n.fv = below ? -huge : huge;
            break;
         case 1:
            n.fv = std::nan( "" );
            break;
         default:
            n.fv = step( below ? n.fmin : n.fmax, !below, n.single );
      }
      a.ok = n.fv >= n.fmin && n.fv <= n.fmax;
      return a;
   }
   e57::Node make( const ImageFile &imf, const Node &n, Rng &r )
   {
      switch ( n.type )
      {
         case T::Integer:
            return e57::IntegerNode( imf, n.iv, n.imin, n.imax );
         case T::Scaled:
            if ( n.iv == int( n.iv ) && n.imin == int( n.imin ) && n.imax == int( n.imax ) && r.chance( 1, 2 ) )
            {
               return e57::ScaledIntegerNode( imf, int( n.iv ), int( n.imin ), int( n.imax ), n.scale, n.offset );
            }
            return e57::ScaledIntegerNode( imf, n.iv, n.imin, n.imax, n.scale, n.offset );
         default:
            return e57::FloatNode( imf, n.fv, n.single ? e57::PrecisionSingle : e57::PrecisionDouble, n.fmin, n.fmax );
      }
   }
   string show( const Node &n )
   {
      return n.type == T::Float ? fmt( "%s %.17g in [%.17g,%.17g]", n.single ? "single" : "double", n.fv, n.fmin, n.fmax )
                                : fmt( "%s %" PRId64 " in [%" PRId64 ",%" PRId64 "]", model::tname( n.type ), n.iv, n.imin, n.imax );
   }

   // scaled values given to the constructor that does the scaling
   void scaledCtor( mon::Ctx &c, ImageFile &imf )
   {
      Rng &r = c.rng;
      const double scale = r.chance( 1, 3 ) ? 1.0 : std::ldexp( 1.0, int( r.below( 40 ) ) - 20 );
      const double offset = r.chance( 1, 2 ) ? 0.0 : double( r.range( -1000, 1000 ) );
      const int64_t lo = r.range( -1000000, 1000000 ), hi = r.range( lo, lo + int64_t( r.below( 2000000 ) ) );
      int64_t v = r.chance( 1, 2 ) ? r.range( lo, hi ) : r.range( lo - 10, hi + 10 );
      double x = double( v ) * scale + offset; // exact for these
      bool ok = v >= lo && v <= hi;
      switch ( r.below( 10 ) )
      {
         case 0:
            x = 1e300;
            ok = false;
            break;
         case 1:
            x = std::nan( "" );
            ok = false;
            break;
         case 2:
            x = -INFINITY;
            ok = false;
            break;
         case 3:
            x = 9223372036854775808.0 * scale + offset;
            ok = false;
            break;
         default:
            break;
      }
      auto o = mon::attempt( [&] {
         e57::ScaledIntegerNode n( imf, x, double( lo ) * scale + offset, double( hi ) * scale + offset, scale, offset );
         MON_CHECK( n.rawValue() == v && n.minimum() == lo && n.maximum() == hi, "scaled-element-differs", fmt( "%" PRId64 " became %" PRId64, v, n.rawValue() ) );
      } );
      MON_CHECK( o.threw == !ok, ok ? "value-in-bounds-refused" : "value-out-of-bounds-accepted", fmt( "scaled %.17g: %s", x, o.str().c_str() ) );
      MON_CHECK( ok || o.code == e57::ErrorValueOutOfBounds, "wrong-error", o.str() );
      mon::count( ok ? "elements accepted" : "elements refused" );
   }

   // the file opened with a value outside
   void fromXml( mon::Ctx &c, model::Gen &g )
   {
      Rng &r = c.rng;
      Attempt a = element( r, g );
      if ( !a.ok && ( a.n.type == T::Float ? !std::isfinite( a.n.fv ) || a.n.fv == 0 : a.n.iv == 0 ) )
      {
         return; // text that need not be there at all
      }
      Node root( T::Structure, "" );
      const size_t before = r.below( 3 );
      for ( size_t k = 0; k < before; k++ )
      {
         root.kids.push_back( g.leafNode( fmt( "x%zu", k ) ) );
      }
      a.n.name = "v";
      root.kids.push_back( a.n );
      ref::Synth syn( r );
      const string path = c.path( "c10x.e57" );
      mon::spew( path, syn.file( root ) );
      auto o = mon::attempt( [&] {
         ImageFile imf( path, "r" );
         imf.close();
      } );
      MON_CHECK( o.threw == !a.ok, a.ok ? "value-in-bounds-refused" : "value-out-of-bounds-accepted", "reading " + show( a.n ) + ": " + o.str() );
      MON_CHECK( a.ok || o.code == e57::ErrorValueOutOfBounds, "wrong-error", o.str() );
      mon::count( a.ok ? "files in bounds opened" : "files out of bounds refused" );
   }

   // write with natural buffers; the record at `bad` is refused. The writer is kept to see what can be done with it.
   void refusedWriter( mon::Ctx &c, ImageFile &imf, e57::CompressedVectorNode cv, const Node &m )
   {
      Rng &r = c.rng;
      auto lv = model::leaves( *m.proto );
      const size_t n = m.records, cap = 1 + r.below( n + 5 );
      vector<std::unique_ptr<Buf>> bufs;
      vector<e57::SourceDestBuffer> sdbs;
      for ( size_t k = 0; k < lv.size(); k++ )
      {
         Plan p = r.pick( exactPlans( *lv[k].node, m.cols[k], true ) );
         bufs.emplace_back( new Buf( p.mem, cap, 1, p.conv, p.scal ) );
         sdbs.push_back( bufs.back()->sdb( imf, lv[k].path ) );
      }
      e57::CompressedVectorWriter w = cv.writer( sdbs );
      bool refused = false;
      for ( size_t done = 0; done < n && !refused; )
      {
         const size_t chunk = std::min( n - done, 1 + r.below( cap ) );
         for ( size_t k = 0; k < lv.size(); k++ )
         {
            for ( size_t j = 0; j < chunk; j++ )
            {
               store( *bufs[k], j, *lv[k].node, m.cols[k], done + j );
            }
         }
         auto o = mon::attempt( [&] { w.write( chunk ); } );
         if ( o.threw )
         {
            MON_CHECK( o.code == e57::ErrorValueOutOfBounds, "wrong-error", o.str() );
            refused = true;
         }
         done += chunk;
      }
      MON_CHECK( refused, "value-out-of-bounds-accepted", "point data" );
      const int how = int( r.below( 3 ) );
      if ( how == 0 )
      {
         auto o = mon::attempt( [&] { w.write( 1 ); } );
         MON_CHECK( o.threw, "writer-usable-after-refusal", "" );
      }
      if ( how <= 1 )
      {
         w.close();
      }
   }
}

static void run( mon::Ctx &c )
{
   Rng &r = c.rng;
   model::Gen g( r );
   fromXml( c, g );
   const string path = c.path( "c10.e57" );
   Node root( T::Structure, "" );
   string key;
   {
      ImageFile imf( path, "w" );
      auto elements = [&] {
         const unsigned n = unsigned( r.below( 12 ) );
         for ( unsigned k = 0; k < n; k++ )
         {
            Attempt a = element( r, g );
            a.n.name = fmt( "e%zu", root.kids.size() );
            const int64_t before = imf.root().childCount();
            auto o = mon::attempt( [&] { imf.root().set( a.n.name, make( imf, a.n, r ) ); } );
            MON_CHECK( o.threw == !a.ok, a.ok ? "value-in-bounds-refused" : "value-out-of-bounds-accepted", show( a.n ) + ": " + o.str() );
            MON_CHECK( a.ok || o.code == e57::ErrorValueOutOfBounds, "wrong-error", o.str() );
            MON_CHECK( imf.root().childCount() == before + ( a.ok ? 1 : 0 ), "partial-effect", show( a.n ) );
            mon::count( a.ok ? "elements accepted" : "elements refused" );
            key += a.ok ? 'a' : 'r';
            if ( a.ok )
            {
               root.kids.push_back( a.n );
            }
         }
         scaledCtor( c, imf );
      };
      elements();
      const unsigned cvs = 1 + unsigned( r.below( 3 ) );
      for ( unsigned k = 0; k < cvs; k++ )
      {
         const size_t recs = r.chance( 1, 8 ) ? 2000 + r.below( 8000 ) : 1 + r.below( 120 );
         Node good = g.compressedVector( fmt( "cv%u", k ), 1 + unsigned( r.below( 5 ) ), r.chance( 1, 4 ), recs, {}, r.chance( 1, 2 ) ? int( r.below( 2 ) ) : -1 );
         auto lv = model::leaves( *good.proto );
         Builder bd( imf, r );
         Node skeleton( T::Structure, "" );
         skeleton.kids.push_back( good );
         bd.populate( imf.root(), skeleton );
         e57::CompressedVectorNode cv( imf.root().get( good.name ) );
         // values at both ends are fine
         for ( size_t f = 0; f < lv.size(); f++ )
         {
            if ( lv[f].node->type == T::Integer || lv[f].node->type == T::Scaled )
            {
               good.cols[f].i[r.below( recs )] = lv[f].node->imin;
               good.cols[f].i[r.below( recs )] = lv[f].node->imax;
            }
         }
         const unsigned refusals = unsigned( r.below( 3 ) );
         for ( unsigned q = 0; q < refusals; q++ )
         {
            Node bad = good;
            size_t f = r.below( lv.size() );
            int64_t v = 0;
            bool have = false;
            for ( size_t t = 0; t < lv.size() && !have; t++, f = ( f + 1 ) % lv.size() )
            {
               if ( lv[f].node->type == T::Integer || lv[f].node->type == T::Scaled )
               {
                  have = outsideInt( r, lv[f].node->imin, lv[f].node->imax, v );
                  if ( have )
                  {
                     const size_t at = r.chance( 1, 4 ) ? recs - 1 : r.below( recs );
                     bad.cols[f].i[at] = v;
                     key += fmt( "%c%zu", "is"[lv[f].node->type == T::Scaled], std::min<size_t>( at / 50, 9 ) );
                     mon::distinct( "refused width", fmt( "%u bits", g.bitsNeeded( lv[f].node->imin, lv[f].node->imax ) ) );
                  }
               }
            }
            if ( !have )
            {
               continue;
            }
            if ( r.chance( 1, 2 ) )
            {
               auto o = mon::attempt( [&] { writeRecords( imf, cv, bad, r ); } );
               MON_CHECK( o.threw, "value-out-of-bounds-accepted", fmt( "point data %" PRId64, v ) );
               MON_CHECK( o.code == e57::ErrorValueOutOfBounds, "wrong-error", o.str() );
            }
            else
            {
               refusedWriter( c, imf, cv, bad );
            }
            mon::count( "point blocks refused" );
            MON_CHECK( cv.childCount() == 0, "partial-effect", fmt( "%" PRId64 " records after a refused write", cv.childCount() ) );
            MON_CHECK( imf.writerCount() == 0, "writer-left-open", fmt( "%d", imf.writerCount() ) );
            imf.checkInvariant( true );
         }
         if ( refusals == 0 || r.chance( 2, 3 ) )
         {
            writeRecords( imf, cv, good, r );
            mon::count( "records accepted", recs );
         }
         else
         {
            good.unwritten = true;
            good.records = 0;
            good.cols.assign( lv.size(), model::Column() );
         }
         root.kids.push_back( good );
         elements();
      }
      auto o = mon::attempt( [&] { imf.close(); } );
      MON_CHECK( !o.threw, "file-cannot-be-completed", o.str() );
   }
   ref::File f;
   try
   {
      f = ref::parseFile( mon::slurp( path ) );
   }
   catch ( const ref::Bad &b )
   {
      mon::fail( "stored-file-bad:" + b.key, b.detail );
   }
   string d = model::diff( root, f.root );
   MON_CHECK( d.empty(), "stored-differs", d );
   mon::count( "files verified" );
   mon::distinct( "case", key );
   mon::sample( fmt( "case %ld: %s", c.caseNo, key.c_str() ) );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C10";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
