#pragma once
// Stand-ins for the storage calls of the library: records them, and makes chosen ones fail.
// Linked with --wrap, so they see calls made by the library's objects, whichever source file makes them.
#include <cstdint>
#include <string>
#include <vector>

namespace io
{
   enum Kind
   {
      Open = 1,
      Read = 2,
      Write = 4,
      Seek = 8,
      Close = 16,
      Remove = 32,
      Sync = 64
   };
   const char *name( int kind );
   struct Op
   {
      int kind;
      int fd;
      uint64_t at;       // position in the file
      uint64_t size;     // bytes asked for
      long ret;          // what was returned
      bool faulty;       // made to fail
      std::string path;  // of Open and Remove
      std::string data;  // bytes written, if kept
   };
   enum Mode
   {
      Fail,       // returns -1 with nothing done
      Short,      // half of the bytes, and success
      ShortFull,  // half of the bytes, later calls fail
      Interrupted, // returns -1 with EINTR once, nothing done
      Stop // the process ends before the call
   };
   struct Fault
   {
      int kinds = 0;    // which calls count
      uint64_t at = 0;  // the how manieth of them
      Mode mode = Fail;
      int error = 5;
      bool lasting = false; // all later calls of these kinds fail as well
      uint64_t part = 512;  // bytes of short transfers
   };
   // only calls between start and stop are looked at
   void start( bool keepData = false );
   void stop();
   void arm( const Fault &f );
   void disarm();
   uint64_t fired();
   const std::vector<Op> &log();
   uint64_t calls( int kinds );
   // descriptors opened by the library and not closed, since start
   int open();
   // calls with descriptors which were not open
   uint64_t misused();
}
