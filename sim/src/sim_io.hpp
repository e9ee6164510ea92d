// Simulated file and stream I/O: system calls of chosen files, and stream buffers.
#pragma once
#include "common.hpp"
#include <istream>
#include <ostream>
#include <streambuf>

namespace sim::io {
struct Plan {
    // input file / stdin
    int64_t in_fail_at = -1;     // reading fails (EIO) once this many bytes were delivered
    int in_fail_errno = 5;
    bool in_throw = false;       // stdin only: the buffer throws instead of ending
    int in_chunk = 0;            // at most so many bytes per read
    uint64_t in_salt = 0;
    int in_eintr_every = 0;
    int64_t in_stall_ns = 0;
    // output file / stdout
    bool open_fails = false;
    int64_t out_fail_at = -1;    // writing fails once this many bytes were accepted
    int out_errno = 28;          // ENOSPC
    bool out_sticky = true;      // false: only one call fails
    int out_chunk = 0;           // short writes
    int out_eintr_every = 0;
    int64_t out_stall_ns = 0;
    bool close_fails = false;
    bool sync_fails = false;     // stdout only: flushing fails
};
// files below the scratch directory are simulated: names starting with "in" are read, with "out" written
const string& scratch();
void put_file(const string& name, const string& content);
void arm(const Plan& p);
void disarm();
struct Seen {
    string written;              // bytes the simulated disk accepted
    bool write_failed = false, read_failed = false, open_failed = false, close_failed = false;
    uint64_t writes = 0, reads = 0, shorts = 0, eintrs = 0;
    bool opened = false;
};
Seen& seen();

// a stream buffer delivering a text in seed-chosen pieces
struct InBuf : std::streambuf {
    string text;
    Plan p;
    size_t pos = 0;
    string piece;
    uint64_t refills = 0, salt_state;
    bool failed = false;
    InBuf(string t, const Plan& pl) : text(std::move(t)), p(pl), salt_state(pl.in_salt) {}
    int_type underflow() override;
};
// a stream buffer that accepts a number of bytes and then fails
struct OutBuf : std::streambuf {
    string text;
    Plan p;
    bool failed = false;
    explicit OutBuf(const Plan& pl) : p(pl) {}
    int_type overflow(int_type c) override;
    std::streamsize xsputn(const char* s, std::streamsize n) override;
    int sync() override;
};
void cleanup();                  // removes the scratch directory
}  // namespace sim::io
