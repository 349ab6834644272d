#include "io.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace
{
   std::recursive_mutex lock;
   bool on = false, keep = false, armed = false;
   io::Fault fault;
   uint64_t seen = 0, hits = 0, bad = 0;
   std::vector<io::Op> ops;
   std::map<int, int> fds; // open ones
   using Lock = std::lock_guard<std::recursive_mutex>;

   bool watched( int fd )
   {
      return on && fds.count( fd );
   }
   // whether this call is to fail; counts it
   bool hit( int kind, bool &cut )
   {
      cut = false;
      if ( !armed || !( kind & fault.kinds ) )
      {
         return false;
      }
      const uint64_t k = seen++;
      const bool transfer = kind == io::Read || kind == io::Write;
      if ( k == fault.at )
      {
         if ( fault.mode == io::Stop )
         {
            _exit( 77 );
         }
         hits++;
         cut = transfer && ( fault.mode == io::Short || fault.mode == io::ShortFull );
         errno = fault.mode == io::Interrupted ? EINTR : fault.error;
         return true;
      }
      if ( k > fault.at && ( fault.lasting || fault.mode == io::ShortFull ) && fault.mode != io::Interrupted && fault.mode != io::Short )
      {
         hits++;
         errno = fault.error;
         return true;
      }
      return false;
   }
}
extern "C"
{
   int __real_open( const char *, int, ... );
   int __real_open64( const char *, int, ... );
   ssize_t __real_read( int, void *, size_t );
   ssize_t __real_pread( int, void *, size_t, off_t );
   ssize_t __real_pread64( int, void *, size_t, off64_t );
   ssize_t __real_write( int, const void *, size_t );
   ssize_t __real_pwrite( int, const void *, size_t, off_t );
   ssize_t __real_pwrite64( int, const void *, size_t, off64_t );
   off_t __real_lseek( int, off_t, int );
   off64_t __real_lseek64( int, off64_t, int );
   int __real_close( int );
   int __real_remove( const char * );
   int __real_unlink( const char * );
   int __real_ftruncate( int, off_t );
   int __real_ftruncate64( int, off64_t );
   int __real_fsync( int );

   static int openAny( const char *p, int flags, mode_t m, int ( *real )( const char *, int, ... ) )
   {
      Lock l( lock );
      if ( !on )
      {
         return real( p, flags, m );
      }
      bool cut, f = hit( io::Open, cut );
      const int e = errno;
      const int fd = f ? -1 : real( p, flags, m );
      ops.push_back( { io::Open, fd, 0, uint64_t( flags ), fd, f, p, "" } );
      if ( fd >= 0 )
      {
         fds[fd] = 1;
      }
      else if ( f )
      {
         errno = e;
      }
      return fd;
   }
   int __wrap_open( const char *p, int flags, ... )
   {
      va_list a;
      va_start( a, flags );
      const mode_t m = mode_t( va_arg( a, int ) );
      va_end( a );
      return openAny( p, flags, m, __real_open );
   }
   int __wrap_open64( const char *p, int flags, ... )
   {
      va_list a;
      va_start( a, flags );
      const mode_t m = mode_t( va_arg( a, int ) );
      va_end( a );
      return openAny( p, flags, m, __real_open64 );
   }
   static ssize_t transfer( int kind, int fd, void *b, size_t n, int64_t at, bool placed )
   {
      Lock l( lock );
      auto real = [&]( size_t k ) -> ssize_t {
         if ( kind == io::Read )
         {
            return placed ? __real_pread64( fd, b, k, at ) : __real_read( fd, b, k );
         }
         return placed ? __real_pwrite64( fd, b, k, at ) : __real_write( fd, b, k );
      };
      if ( !watched( fd ) )
      {
         bad += on && fd >= 0 && fd > 2;
         return real( n );
      }
      const uint64_t pos = placed ? uint64_t( at ) : uint64_t( __real_lseek64( fd, 0, SEEK_CUR ) );
      bool cut, f = hit( kind, cut );
      const int e = errno;
      ssize_t r = -1;
      if ( !f )
      {
         r = real( n );
      }
      else if ( cut )
      {
         r = real( std::min<size_t>( n, fault.part ) );
      }
      ops.push_back( { kind, fd, pos, n, long( r ), f, "", "" } );
      if ( keep && kind == io::Write && r > 0 )
      {
         ops.back().data.assign( static_cast<const char *>( b ), size_t( r ) );
      }
      if ( f && !cut )
      {
         errno = e;
      }
      return r;
   }
   ssize_t __wrap_read( int fd, void *b, size_t n )
   {
      return transfer( io::Read, fd, b, n, 0, false );
   }
   ssize_t __wrap_pread( int fd, void *b, size_t n, off_t at )
   {
      return transfer( io::Read, fd, b, n, at, true );
   }
   ssize_t __wrap_pread64( int fd, void *b, size_t n, off64_t at )
   {
      return transfer( io::Read, fd, b, n, at, true );
   }
   ssize_t __wrap_write( int fd, const void *b, size_t n )
   {
      return transfer( io::Write, fd, const_cast<void *>( b ), n, 0, false );
   }
   ssize_t __wrap_pwrite( int fd, const void *b, size_t n, off_t at )
   {
      return transfer( io::Write, fd, const_cast<void *>( b ), n, at, true );
   }
   ssize_t __wrap_pwrite64( int fd, const void *b, size_t n, off64_t at )
   {
      return transfer( io::Write, fd, const_cast<void *>( b ), n, at, true );
   }
   off64_t __wrap_lseek64( int fd, off64_t at, int whence )
   {
      Lock l( lock );
      if ( !watched( fd ) )
      {
         bad += on && fd > 2;
         return __real_lseek64( fd, at, whence );
      }
      bool cut;
      const bool f = hit( io::Seek, cut );
      const int e = errno;
      const off64_t r = f ? -1 : __real_lseek64( fd, at, whence );
      ops.push_back( { io::Seek, fd, uint64_t( at ), uint64_t( whence ), long( r ), f, "", "" } );
      if ( f )
      {
         errno = e;
      }
      return r;
   }
   off_t __wrap_lseek( int fd, off_t at, int whence )
   {
      return __wrap_lseek64( fd, at, whence );
   }
   int __wrap_close( int fd )
   {
      Lock l( lock );
      if ( !watched( fd ) )
      {
         bad += on && fd > 2;
         return __real_close( fd );
      }
      bool cut;
      const bool f = hit( io::Close, cut );
      const int e = errno;
      // the descriptor is gone even if closing fails
      int r = __real_close( fd );
      fds.erase( fd );
      if ( f )
      {
         r = -1;
         errno = e;
      }
      ops.push_back( { io::Close, fd, 0, 0, r, f, "", "" } );
      return r;
   }
   static int removeAny( const char *p, int ( *real )( const char * ) )
   {
      Lock l( lock );
      if ( !on )
      {
         return real( p );
      }
      bool cut;
      const bool f = hit( io::Remove, cut );
      const int e = errno;
      const int r = f ? -1 : real( p );
      ops.push_back( { io::Remove, -1, 0, 0, r, f, p, "" } );
      if ( f )
      {
         errno = e;
      }
      return r;
   }
   int __wrap_remove( const char *p )
   {
      return removeAny( p, __real_remove );
   }
   int __wrap_unlink( const char *p )
   {
      return removeAny( p, __real_unlink );
   }
   int __wrap_ftruncate64( int fd, off64_t n )
   {
      Lock l( lock );
      if ( !watched( fd ) )
      {
         return __real_ftruncate64( fd, n );
      }
      bool cut;
      const bool f = hit( io::Write, cut );
      const int e = errno;
      const int r = f ? -1 : __real_ftruncate64( fd, n );
      // recorded as a change of the length
      ops.push_back( { io::Sync, fd, uint64_t( n ), 1, r, f, "", "" } );
      if ( f )
      {
         errno = e;
      }
      return r;
   }
   int __wrap_ftruncate( int fd, off_t n )
   {
      return __wrap_ftruncate64( fd, n );
   }
   int __wrap_fsync( int fd )
   {
      Lock l( lock );
      if ( !watched( fd ) )
      {
         return __real_fsync( fd );
      }
      bool cut;
      const bool f = hit( io::Sync, cut );
      const int e = errno;
      const int r = f ? -1 : __real_fsync( fd );
      ops.push_back( { io::Sync, fd, 0, 0, r, f, "", "" } );
      if ( f )
      {
         errno = e;
      }
      return r;
   }
}
namespace io
{
   const char *name( int k )
   {
      return k == Open ? "open" : k == Read ? "read" : k == Write ? "write" : k == Seek ? "seek" : k == Close ? "close" : k == Remove ? "remove" : "sync";
   }
   void start( bool keepData )
   {
      Lock l( lock );
      on = true;
      keep = keepData;
      armed = false;
      ops.clear();
      fds.clear();
      seen = hits = bad = 0;
   }
   void stop()
   {
      Lock l( lock );
      on = armed = false;
   }
   void arm( const Fault &f )
   {
      Lock l( lock );
      fault = f;
      seen = hits = 0;
      armed = true;
   }
   void disarm()
   {
      Lock l( lock );
      armed = false;
   }
   uint64_t fired()
   {
      return hits;
   }
   const std::vector<Op> &log()
   {
      return ops;
   }
   uint64_t calls( int kinds )
   {
      uint64_t n = 0;
      for ( auto &o : ops )
      {
         n += ( o.kind & kinds ) != 0;
      }
      return n;
   }
   int open()
   {
      return int( fds.size() );
   }
   uint64_t misused()
   {
      return bad;
   }
}
