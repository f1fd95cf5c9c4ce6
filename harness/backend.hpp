// Selects one of the library's rounding-control back ends for other processors and compilers, on x86-64.
// -DBE_<name> chooses it. The library picks its back end by predefined macros, so these are switched while its selection
// header is read. Register access is emulated: tools/check.py rewrites inline assembly  asm("template" : outs : ins)  of
// the back end headers into  emu::run("template", emu::outs(...), emu::ins(...)),  compiler intrinsics are provided below.
// The emulated register holds every bit the processor documents; its rounding field is the host's rounding direction.
#pragma once
#include <boost/config.hpp>
#include <boost/config/no_tr1/cmath.hpp>
#include <boost/limits.hpp>
#include <boost/cstdint.hpp>
#include <boost/detail/fenv.hpp>
#include <cfenv>
#include <cfloat>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <vector>
#include <cassert>
#include <float.h>
#include <math.h>
#include <fenv.h>
#include <boost/numeric/interval/rounding.hpp>
#include <boost/numeric/interval/rounded_arith.hpp>

namespace emu {
typedef unsigned long long u64;
enum { NEAR, UP, DOWN, ZERO };
inline int host_dir() { switch (std::fegetround()) { case FE_UPWARD: return UP; case FE_DOWNWARD: return DOWN; case FE_TOWARDZERO: return ZERO; default: return NEAR; } }
inline void host_set(int d) { static const int m[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; std::fesetround(m[d]); }
inline unsigned short host_cw() { unsigned short w; asm volatile("fnstcw %0" : "=m"(w)); return w; }
inline void host_cw(unsigned short w) { asm volatile("fldcw %0" : : "m"(w)); }
struct Unknown : std::logic_error { Unknown(const std::string &s) : std::logic_error("emulator: unknown instruction or operand: " + s) {} };

// one description per control register: where the rounding field is, how directions are written in it, which bits are
// exception enables (enabled when the bit differs from `off`), which bits software can write, which are left out when
// states are compared (summary bits the processor derives from others)
struct Desc { const char *name; int width, shift; int code[4]; u64 traps, off, writable, derived; };
#if defined(BE_PPC)
static const Desc D = {"FPSCR", 64, 0, {0, 2, 3, 1}, 0xf8, 0, 0xffffffffull & ~0x60000000ull, 0x60000000ull};
#elif defined(BE_SPARC)
static const Desc D = {"FSR", 32, 30, {0, 2, 3, 1}, 0x0f800000, 0, 0xffffffffull & ~0x000fe000ull, 0};
#elif defined(BE_ALPHA)
static const Desc D = {"FPCR", 64, 58, {2, 3, 1, 0}, 0x4008000000000000ull, 0x4008000000000000ull, 0xffffull << 47 & ~(1ull << 63), 1ull << 63};
#elif defined(BE_MSVC) || defined(BE_MSVC64)
// the abstract control word of the Microsoft run-time library
static const Desc D = {"_control87", 32, 8, {0, 2, 1, 3}, 0x0008001f, 0x0008001f, 0x000f031f, 0};
#elif defined(BE_BCC)
static const Desc D = {"_control87", 16, 10, {0, 2, 1, 3}, 0x3f, 0x3f, 0x1f3f, 0};
#else   // the direction alone is the state
static const Desc D = {"direction", 32, 0, {0, 1, 2, 3}, 0, 0, 0, 0};
#endif
inline u64 &bits() { static thread_local u64 b = D.off; return b; }     // everything but the rounding field
inline u64 &user_traps() { static thread_local u64 b = 0; return b; }    // traps the user's program had enabled
inline std::string &breach() { static thread_local std::string s; return s; }
inline u64 field(u64 v) { return v >> D.shift & 3; }
#if defined(BE_MSVC)
enum { PC24 = 0x20000, PC53 = 0x10000, PC64 = 0, MPC = 0x30000 };
inline u64 pc() { switch (host_cw() & 0x300) { case 0: return PC24; case 0x200: return PC53; default: return PC64; } }
inline void pc(u64 v) { unsigned short c = host_cw() & ~0x300; switch (v & MPC) { case PC24: break; case PC53: c |= 0x200; break; default: c |= 0x300; } host_cw(c); }
#elif defined(BE_BCC)
enum { MPC = 0x300 };
inline u64 pc() { return host_cw() & 0x300; }
inline void pc(u64 v) { host_cw((host_cw() & ~0x300) | (v & 0x300)); }
#else
enum { MPC = 0 };
inline u64 pc() { return 0; }
inline void pc(u64) {}
#endif
inline u64 read() { return (bits() & ~(3ull << D.shift) & ~(u64)MPC) | (u64)D.code[host_dir()] << D.shift | pc(); }
inline void write(u64 v) {
  if ((v ^ D.off) & D.traps & ~user_traps()) { char b[80]; snprintf(b, 80, "%s = %llx enables floating-point traps that were disabled", D.name, v); breach() = b; }
  for (int d = 0; d < 4; d++) if ((u64)D.code[d] == field(v)) host_set(d);
  bits() = (bits() & ~D.writable) | (v & D.writable); pc(v);
}
// a state as the user's program may have left it
inline void preset(u64 r) {
  u64 v = r & D.writable & ~(3ull << D.shift);
#if defined(BE_MSVC)
  if ((v & MPC) == MPC) v &= ~(u64)MPC;
#elif defined(BE_BCC)
  if ((v & MPC) == 0x100) v |= 0x300;
#endif
  bits() = (bits() & ~D.writable) | v; user_traps() = (v ^ D.off) & D.traps; if (MPC) pc(v); breach().clear();
}
inline u64 state() { return read() & ~D.derived; }

// ---- inline assembly ----
struct Arg { void *p; const void *cp; int size; bool fp; };
template <class T> Arg out(const char *, T &t) { return Arg{&t, &t, sizeof(T), std::is_floating_point<T>::value}; }
template <class T> Arg in(const char *, const T &t) { return Arg{nullptr, &t, sizeof(T), std::is_floating_point<T>::value}; }
inline u64 get(const Arg &a) { u64 v = 0; memcpy(&v, a.cp, a.size); return v; }
inline void put(const Arg &a, u64 v) { if (!a.p) throw Unknown("store to an input operand"); memcpy(a.p, &v, a.size); }
inline double num(const Arg &a) { if (a.size == 4) { float f; memcpy(&f, a.cp, 4); return f; } double d; memcpy(&d, a.cp, 8); return d; }
#if defined(BE_SPARC)
enum { MEM = 4 };
#else
enum { MEM = 8 };
#endif
inline Arg &op_(std::vector<Arg> &args, const std::string &s, const std::string &t) { if (t.size() < 2 || t[0] != '%' || !isdigit((unsigned char)t[1]) || (size_t)atoi(t.c_str() + 1) >= args.size()) throw Unknown(s); return args[atoi(t.c_str() + 1)]; }
inline void run(const char *tmpl, std::vector<Arg> args) {
  std::string s(tmpl), one; std::vector<std::string> ins;
  for (char ch : s + ";") if (ch == ';' || ch == '\n') { ins.push_back(one); one.clear(); } else one += ch == '\t' || ch == ',' ? ' ' : ch;
  auto op = [&](std::string t) -> Arg & {
    if (t.size() > 2 && t[0] == '[' && t.back() == ']') {   // an operand that holds an address
      Arg &a = op_(args, s, t.substr(1, t.size() - 2)); void *p; memcpy(&p, a.cp, sizeof p); static thread_local Arg d; d = Arg{p, p, MEM, false}; return d;
    }
    return op_(args, s, t); };
  (void)op;
  for (auto &i : ins) {
    std::vector<std::string> w; std::string t; for (char ch : i + " ") if (ch == ' ') { if (!t.empty()) w.push_back(t); t.clear(); } else t += ch;
    if (w.empty()) continue; const std::string &m = w[0];
#if defined(BE_PPC)
    if (m == "mffs" && w.size() == 2) { put(op(w[1]), 0xfff8000000000000ull | (read() & 0xffffffffull)); continue; }
    if (m == "mtfsf" && w.size() == 3) { int fm = atoi(w[1].c_str()); u64 mask = 0; for (int k = 0; k < 8; k++) if (fm >> k & 1) mask |= 0xfull << 4 * k; write((read() & ~mask) | (get(op(w[2])) & mask)); continue; }
    if (m == "mtfsb0" && w.size() == 2) { write(read() & ~(1ull << (31 - atoi(w[1].c_str())))); continue; }
    if (m == "mtfsb1" && w.size() == 2) { write(read() | 1ull << (31 - atoi(w[1].c_str()))); continue; }
    if (m == "mtfsfi" && w.size() == 3) { int k = 4 * (7 - atoi(w[1].c_str())); write((read() & ~(0xfull << k)) | (u64)(atoi(w[2].c_str()) & 15) << k); continue; }
    if (m == "frsp" && w.size() == 3) { volatile double d = num(op(w[2])); volatile float f = (float)d; Arg &o = op(w[1]); if (o.size == 4) { float v = f; memcpy(o.p, &v, 4); } else { double v = f; memcpy(o.p, &v, 8); } continue; }
    if (m == "sync" || m == "isync" || m == "nop") continue;
#elif defined(BE_SPARC)
    if (m == "ld" && w.size() == 3 && w[2] == "%%fsr") { write(get(op(w[1]))); continue; }
    if (m == "st" && w.size() == 3 && w[1] == "%%fsr") { put(op(w[2]), read()); continue; }
    if (m == "nop") continue;
#elif defined(BE_ALPHA)
    if (m == "mt_fpcr" && w.size() == 2) { write(get(op(w[1]))); continue; }
    if (m == "mf_fpcr" && w.size() == 2) { put(op(w[1]), read()); continue; }
    if (m == "excb" || m == "trapb") continue;
#endif
    throw Unknown(i);
  }
}
} // namespace emu

// ---- compiler intrinsics ----
#if defined(BE_MSVC) || defined(BE_MSVC64)
enum { _EM_INVALID = 0x10, _EM_DENORMAL = 0x80000, _EM_ZERODIVIDE = 8, _EM_OVERFLOW = 4, _EM_UNDERFLOW = 2, _EM_INEXACT = 1, _MCW_EM = 0x8001f,
       _RC_NEAR = 0, _RC_DOWN = 0x100, _RC_UP = 0x200, _RC_CHOP = 0x300, _MCW_RC = 0x300, _PC_64 = 0, _PC_53 = 0x10000, _PC_24 = 0x20000, _MCW_PC = 0x30000,
       _IC_AFFINE = 0x40000, _IC_PROJECTIVE = 0, _MCW_IC = 0x40000 };
inline unsigned _control87(unsigned v, unsigned mask) {
#ifdef BE_MSVC64
  if (mask & (_MCW_PC | _MCW_IC)) emu::breach() = "_control87 was asked to change the precision or infinity control, which x64 does not support";
#endif
  if (mask) emu::write((emu::read() & ~(emu::u64)mask) | (v & mask));
  return (unsigned)emu::read();
}
inline unsigned _controlfp(unsigned v, unsigned mask) { return _control87(v, mask & ~(unsigned)_EM_DENORMAL); }
#elif defined(BE_BCC)
inline unsigned _control87(unsigned v, unsigned mask) { if (mask) emu::write((emu::read() & ~(emu::u64)mask) | (v & mask)); return (unsigned)emu::read(); }
#define _RTLENTRY
extern "C" unsigned _fm_init(void) { return 0; }
// a function whose body is machine code for "round the argument to an integer": its stand-in takes the calls
#define __inline static inline double rint(double x) { return ::rint(x); } template <class Unused> inline
#define __emit__(x)
#elif defined(BE_SPARC_SUN)
enum fp_rnd { FP_RN, FP_RZ, FP_RP, FP_RM };
inline fp_rnd fpgetround() { static const fp_rnd r[] = {FP_RN, FP_RP, FP_RM, FP_RZ}; return r[emu::host_dir()]; }
inline fp_rnd fpsetround(fp_rnd d) { fp_rnd o = fpgetround(); emu::host_set(d == FP_RN ? emu::NEAR : d == FP_RP ? emu::UP : d == FP_RM ? emu::DOWN : emu::ZERO); return o; }
#elif defined(BE_ALPHA_DEC)
enum { FP_RND_RZ = 0, FP_RND_RN = 1, FP_RND_RP = 2, FP_RND_RM = 3 };
inline unsigned read_rnd() { static const unsigned r[] = {FP_RND_RN, FP_RND_RP, FP_RND_RM, FP_RND_RZ}; return r[emu::host_dir()]; }
inline unsigned write_rnd(unsigned d) { unsigned o = read_rnd(); emu::host_set(d == FP_RND_RN ? emu::NEAR : d == FP_RND_RP ? emu::UP : d == FP_RND_RM ? emu::DOWN : emu::ZERO); return o; }
#endif

#pragma push_macro("__x86_64__")
#pragma push_macro("__GNUC__")
#undef __x86_64__
#if defined(BE_PPC)
#define __powerpc__ 1
#ifdef NO_C99   // a C library whose headers do not declare the C99 functions
#pragma push_macro("_ISOC99_SOURCE")
#pragma push_macro("__USE_ISOC99")
#undef _ISOC99_SOURCE
#undef __USE_ISOC99
#endif
#elif defined(BE_SPARC)
#define __sparc__ 1
#elif defined(BE_SPARC_SUN)
#define __sparc__ 1
#define __SUNPRO_CC 0x590
#undef __GNUC__
#elif defined(BE_ALPHA)
#define __alpha__ 1
#elif defined(BE_ALPHA_DEC)
#define __alpha__ 1
#define __DECCXX 1
#define __FLT_ROUNDS -1
#undef __GNUC__
#elif defined(BE_IA64)
#define __ia64__ 1
#define __hpux 1
#elif defined(BE_MSVC)
#define _MSC_VER 1310
#define _M_IX86 600
#undef __GNUC__
#elif defined(BE_MSVC64)
#define _MSC_VER 1920
#define _M_X64 100
#define _M_AMD64 100
#define _WIN64 1
#undef __GNUC__
#elif defined(BE_BCC)
#define __BORLANDC__ 0x560
#define _M_IX86 600
#undef __GNUC__
#pragma push_macro("__clang__")
#undef __clang__
#elif defined(BE_X86SUN)   // Sun's compiler on x86: the C99 subsystem
#define __i386 1
#define __SUNPRO_CC 0x590
#undef __GNUC__
#elif defined(BE_OTHER)    // an unknown processor with <fenv.h>
#else
#error no back end chosen
#endif
#include <boost/numeric/interval/hw_rounding.hpp>
#undef __powerpc__
#ifdef NO_C99
#pragma pop_macro("_ISOC99_SOURCE")
#pragma pop_macro("__USE_ISOC99")
#endif
#undef __sparc__
#undef __SUNPRO_CC
#undef __alpha__
#undef __DECCXX
#undef __FLT_ROUNDS
#undef __ia64__
#undef __hpux
#undef _MSC_VER
#undef _M_IX86
#undef _M_X64
#undef _M_AMD64
#undef _WIN64
#undef __BORLANDC__
#undef __i386
#ifdef BE_BCC
#pragma pop_macro("__clang__")
#undef __inline
#undef __emit__
#endif
#pragma pop_macro("__GNUC__")
#pragma pop_macro("__x86_64__")
