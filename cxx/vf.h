// Common ABI of the harnesses: int f(const double* in, double* out, const int* cfg)
#pragma once
#ifdef VF_NATIVE
#include <csetjmp>
#include <csignal>
#include <sys/time.h>
static sigjmp_buf vf_jump_;
static void vf_hang_(int) { siglongjmp(vf_jump_, 1); }
// a call that does not come back within 5 s of processor time is given up (-2)
extern "C" int vf_call(int (*f)(const double*, double*, const int*), const double* in, double* out, const int* cfg) {
  struct itimerval t = {{0, 0}, {5, 0}}, off = {{0, 0}, {0, 0}};
  signal(SIGVTALRM, vf_hang_);
  if (sigsetjmp(vf_jump_, 1)) return -2;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
  int r;
  try {
    r = f(in, out, cfg);
  } catch (...) {
    r = -1;
  }
  setitimer(ITIMER_VIRTUAL, &off, nullptr);
  return r;
}
#endif
#define VF(name) extern "C" int name(const double* in, double* out, const int* cfg)
