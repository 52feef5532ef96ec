// Text output to files becomes calls of the harness: one per inserted value.
#pragma once
#include <fstream>
#include <iostream>
#include <string>
#include <cstdlib>
#include <cstdio>
#include <type_traits>
extern "C" { void vf_out_open(const char* name); void vf_out_text(const char* s, long len); void vf_out_uint(unsigned long v); void vf_out_real(double v); void vf_out_close(void); int vf_out_system(const char* cmd); }
namespace std {
struct vf_ofstream {
    bool op = false;
    vf_ofstream() { } explicit vf_ofstream(const std::string& n, std::ios_base::openmode = std::ios_base::out) { open(n); } ~vf_ofstream() { close(); }
    void open(const std::string& n, std::ios_base::openmode = std::ios_base::out) { op = true; vf_out_open(n.c_str()); } void close() { if (op) vf_out_close(); op = false; }
    bool is_open() const { return op; } bool good() const { return op; } explicit operator bool() const { return op; } bool operator!() const { return !op; } void flush() { } long precision(long p) { return p; }
    vf_ofstream& operator<<(const char* s) { vf_out_text(s, (long)std::char_traits<char>::length(s)); return *this; }
    vf_ofstream& operator<<(const std::string& s) { vf_out_text(s.c_str(), (long)s.size()); return *this; }
    vf_ofstream& operator<<(char c) { vf_out_text(&c, 1); return *this; }
    template <class N> typename std::enable_if<std::is_integral<N>::value && !std::is_same<N, char>::value, vf_ofstream&>::type operator<<(N v) { vf_out_uint((unsigned long)v); return *this; }
    vf_ofstream& operator<<(double v) { vf_out_real(v); return *this; }
    vf_ofstream& operator<<(std::ostream& (*)(std::ostream&)) { vf_out_text("\n", 1); return *this; }
    vf_ofstream& operator<<(std::ios_base& (*)(std::ios_base&)) { return *this; }
};
// file input over C stdio
struct vf_ifstream {
    static constexpr std::ios_base::openmode ate = std::ios_base::ate, binary = std::ios_base::binary, in = std::ios_base::in; static constexpr std::ios_base::seekdir beg = std::ios_base::beg, end = std::ios_base::end, cur = std::ios_base::cur;
    FILE* f = NULL; bool ok = true; long got = 0;
    vf_ifstream() { } explicit vf_ifstream(const char* n, std::ios_base::openmode m = std::ios_base::in) { open(n, m); } explicit vf_ifstream(const std::string& n, std::ios_base::openmode m = std::ios_base::in) { open(n.c_str(), m); } ~vf_ifstream() { close(); }
    void open(const char* n, std::ios_base::openmode m = std::ios_base::in) { f = fopen(n, "rb"); ok = f != NULL; if (f && (m & std::ios_base::ate)) fseek(f, 0, SEEK_END); } void open(const std::string& n, std::ios_base::openmode m = std::ios_base::in) { open(n.c_str(), m); }
    void close() { if (f) fclose(f); f = NULL; } bool good() const { return ok; } bool is_open() const { return f != NULL; } bool fail() const { return !ok; } explicit operator bool() const { return ok; } bool operator!() const { return !ok; }
    long tellg() { return f ? ftell(f) : -1; } vf_ifstream& seekg(long p) { if (f) fseek(f, p, SEEK_SET); return *this; } vf_ifstream& seekg(long p, std::ios_base::seekdir d) { if (f) fseek(f, p, d == std::ios_base::beg ? SEEK_SET : d == std::ios_base::end ? SEEK_END : SEEK_CUR); return *this; }
    vf_ifstream& read(char* b, long n) { got = f ? (long)fread(b, 1, n, f) : 0; if (got < n) ok = false; return *this; } long gcount() const { return got; }
};
inline int vf_system(const char* c) { return vf_out_system(c); }
}
#define ofstream vf_ofstream
#define ifstream vf_ifstream
#define system(x) vf_system(x)
