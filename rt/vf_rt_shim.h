// Puts RuntimeLogger.cc on stand-ins for threads, locks, asynchronous I/O and files.
// Included (after vf_log_shim.h) before the real sources; replaces only std/libc entities.
// Every stand-in calls a hook, so that a contract can state what happens there.
#ifndef VF_RT_SHIM
#define VF_RT_SHIM
#include "vf_log_shim.h"
#include <aio.h>
#include <fcntl.h>
#include <unistd.h>
#include <sched.h>
#include <cerrno>
#include <mutex>
#include <thread>
#include <condition_variable>
#include <chrono>
#include <iosfwd>
#include <iostream>
#include <locale>
#include <sstream>
#include <stdexcept>
#include <cassert>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include <array>

enum VfPoint { VF_LOCK, VF_UNLOCK, VF_CV_WAIT, VF_CV_WAIT_FOR, VF_CV_NOTIFY, VF_THREAD_START, VF_THREAD_JOIN, VF_AIO_ERROR, VF_AIO_SUSPEND, VF_AIO_WRITE, VF_AIO_RETURN };
static void (*vfRtHook)(int point, void *obj);
static void vfPoint(int p, void *o) { if (vfRtHook) vfRtHook(p, o); }
namespace std {
struct vf_mutex {
    int held = 0;
    void lock() { vfPoint(VF_LOCK, this); vf_assert(!held, "a lock is not taken twice by the same thread"); held = 1; }
    void unlock() { vf_assert(held, "only a held lock is released"); held = 0; vfPoint(VF_UNLOCK, this); }
};
struct vf_condition_variable {
    int notified = 0;
    void notify_one() { ++notified; vfPoint(VF_CV_NOTIFY, this); }
    void notify_all() { ++notified; vfPoint(VF_CV_NOTIFY, this); }
    template<typename L> void wait(L &l) { l.unlock(); vfPoint(VF_CV_WAIT, this); l.lock(); }
    template<typename L, typename P> void wait(L &l, P p) { while (!p()) wait(l); }
    template<typename L, typename D> cv_status wait_for(L &l, D) { l.unlock(); vfPoint(VF_CV_WAIT_FOR, this); l.lock(); return cv_status::timeout; }
    template<typename L, typename D, typename P> bool wait_for(L &l, D d, P p) { if (!p()) wait_for(l, d); return p(); }
};
struct vf_thread {
    int running = 0;
    vf_thread() {}
    template<typename F, typename... A> explicit vf_thread(F, A...) : running(1) { vfPoint(VF_THREAD_START, this); }
    vf_thread &operator=(vf_thread &&o) { vf_assert(!running, "a running thread object is not overwritten"); running = o.running; o.running = 0; return *this; }
    bool joinable() const { return running; }
    void join() { vf_assert(running, "only a running thread is joined"); running = 0; vfPoint(VF_THREAD_JOIN, this); }
};
}
// ---- files and asynchronous I/O
static int vfOpenResult = 5, vfOpens, vfCloses, vfLastClosed; static const char *vfOpenName;
static int vfAccessResult, vfExists = 1;
static int vf_open3(const char *n, int, int) { vfOpenName = n; ++vfOpens; return vfOpenResult; }
static int vf_close1(int fd) { ++vfCloses; vfLastClosed = fd; return 0; }
static int vf_access2(const char *, int mode) { return mode == F_OK ? vfExists ? 0 : -1 : vfAccessResult; }
static int (*vfAioWrite)(struct aiocb*);
static int vfAioState, vfSuspendRet; static long vfAioRet;
static int vf_aio_write(struct aiocb *cb) { vfPoint(VF_AIO_WRITE, cb); return vfAioWrite ? vfAioWrite(cb) : 0; }
static int vf_aio_error(const struct aiocb *cb) { vfPoint(VF_AIO_ERROR, (void*)cb); return vfAioState; }
static ssize_t vf_aio_return(struct aiocb *cb) { vfPoint(VF_AIO_RETURN, cb); return vfAioRet; }
static int vf_aio_suspend(const struct aiocb *const *l, int, const struct timespec *) { vfPoint(VF_AIO_SUSPEND, (void*)l[0]); return vfSuspendRet; }
static void *vfAligned[2]; static size_t vfAlignedSize[2]; static int vfAlignedN;
static int vf_memalign(void **p, size_t, size_t n) { *p = malloc(n); if (vfAlignedN < 2) { vfAligned[vfAlignedN] = *p; vfAlignedSize[vfAlignedN++] = n; } return 0; }
#define mutex vf_mutex
#define condition_variable vf_condition_variable
#define thread vf_thread
#define open(...) vf_open3(__VA_ARGS__)
#define close(x) vf_close1(x)
#define access(a, b) vf_access2(a, b)
#define aio_write vf_aio_write
#define aio_error vf_aio_error
#define aio_return vf_aio_return
#define aio_suspend vf_aio_suspend
#define posix_memalign vf_memalign
#define sched_getcpu() 0
#define perror(x) ((void)0)
#define strerror(x) "error"
#define fdatasync(x) ((void)0)
#endif
