/* ircsim: a deterministic, single-process simulator for networks of real ircd
 * instances.
 *
 * Every server is the code of /repo/ircd compiled into a shared object whose
 * libc calls (sockets, epoll, time, files, fork, exit, malloc) are redirected
 * here with the linker's --wrap.  Each instance runs as a coroutine that
 * yields in epoll_wait().  The process driving us (Python) owns the schedule,
 * the clock, every peer, and every byte on every wire.
 *
 * Protocol: commands on fd 0, one per line (some followed by raw bytes), a
 * batch ends with "go"; the reply is a frame "<len>\n<payload>" on fd 1.
 */
#include <arpa/inet.h>
#include <cassert>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <openssl/bio.h>
#include <openssl/ssl.h>
#include <string>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/lsan_interface.h>
#endif

using std::string;

static long long now_ms = 1700000000000LL;
static unsigned long long rng_state = 0;  /* ready-event ordering; 0 = fd order */
static long rd_max = 0;                   /* max bytes per recv; 0 = no limit */
static bool link_manual = false;
static string out;                        /* reply being built */

struct Addr {
  bool v6 = false;
  unsigned char b[16] = {0};
  int port = 0;
};

struct Conn;
struct Side {
  Conn *conn = nullptr;
  int which = 0;
  int inst = -1;        /* -1: the harness */
  int fd = -1;
  int ext = -1;         /* harness id when inst == -1 */
  string rx;            /* readable by this side */
  string inflight;      /* travelling towards this side (manual links) */
  bool in_eof = false;  /* EOF travelling */
  bool rx_eof = false;  /* EOF readable */
  bool closed = false;
  bool rst = false;
  int so_error = 0;
  bool connecting = false, failed = false;
  long cap = -1;        /* receive window of this side; -1 unlimited */
  bool hold = false;    /* harness side: do not consume by itself */
  bool adopt = false;   /* socketpair end that becomes the harness's on close */
  bool eof_reported = false;
  Addr local, remote;
};
struct Conn {
  Side s[2];
  bool manual = false;
};

enum FdType { F_NONE, F_SOCK, F_LISTEN, F_STREAM, F_DGRAM, F_EPOLL, F_FILE };
struct Fd {
  FdType t = F_NONE;
  Addr local;
  int real = -1;
  Side *side = nullptr;
  std::deque<Conn *> acceptq;
  struct Dg { Addr from; string data; };
  std::deque<Dg> dq;
  bool in_ep = false;
  epoll_event ev{};
  bool v6 = false;
  int type = 0;
};

struct Inst {
  int id = 0;
  void *dl = nullptr;
  ucontext_t ctx{};
  char *stack = nullptr;
  size_t stack_size = 0;
  std::vector<Fd> fds;
  enum { UNUSED, RUN, EXITED } st = UNUSED;
  int exit_code = 0;
  string exit_how;
  string dir;
  long long wake = -1;   /* -1: no timer */
  long long skew = 0;
  int epoll_max = 0;
  epoll_event *epoll_out = nullptr;
  int epoll_n = 0;
  void (*sig[65])(int) = {0};
  long usec = 0;
  long long live = 0, liven = 0, peak = 0;
  bool forked = false;
  int forks = 0;
  std::vector<string> args;
  std::vector<char *> argv;
  void *fake = nullptr;
};

static std::vector<std::unique_ptr<Inst>> insts;
static Inst *cur = nullptr;
static ucontext_t sched_ctx;
static const void *sched_bottom;
static size_t sched_size;
static void *sched_fake;
static std::map<int, Side *> exts;
static int next_ext = 100000;
struct HListen { Addr a; };
static std::vector<Addr> hlistens;
static std::vector<Conn *> conns;

static void outf(const char *fmt, ...) {
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  out += b;
}

/* ---------- addresses ---------- */
static bool parse_addr(const char *s, int port, Addr &a) {
  a = Addr();
  a.port = port;
  if (strchr(s, ':')) {
    a.v6 = true;
    return inet_pton(AF_INET6, s, a.b) == 1;
  }
  return inet_pton(AF_INET, s, a.b) == 1;
}
static string addr_str(const Addr &a) {
  char b[64];
  inet_ntop(a.v6 ? AF_INET6 : AF_INET, a.b, b, sizeof b);
  return b;
}
static void to_sa(const Addr &a, sockaddr *sa, socklen_t *len) {
  if (!sa || !len) return;
  if (a.v6) {
    sockaddr_in6 s{};
    s.sin6_family = AF_INET6;
    memcpy(&s.sin6_addr, a.b, 16);
    s.sin6_port = htons(a.port);
    memcpy(sa, &s, *len < sizeof s ? *len : sizeof s);
    *len = sizeof s;
  } else {
    sockaddr_in s{};
    s.sin_family = AF_INET;
    memcpy(&s.sin_addr, a.b, 4);
    s.sin_port = htons(a.port);
    memcpy(sa, &s, *len < sizeof s ? *len : sizeof s);
    *len = sizeof s;
  }
}
static Addr from_sa(const sockaddr *sa) {
  Addr a;
  if (sa->sa_family == AF_INET6) {
    auto s = (const sockaddr_in6 *)sa;
    a.v6 = true;
    memcpy(a.b, &s->sin6_addr, 16);
    a.port = ntohs(s->sin6_port);
  } else {
    auto s = (const sockaddr_in *)sa;
    memcpy(a.b, &s->sin_addr, 4);
    a.port = ntohs(s->sin_port);
  }
  return a;
}

/* ---------- coroutine switching ---------- */
static void to_sched(bool dying = false) {
  Inst *me = cur;
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber(dying ? nullptr : &me->fake, sched_bottom, sched_size);
#endif
  swapcontext(&me->ctx, &sched_ctx);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(me->fake, nullptr, nullptr);
#endif
}
static void enter(Inst *i) {
  cur = i;
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber(&sched_fake, i->stack, i->stack_size);
#endif
  swapcontext(&sched_ctx, &i->ctx);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(sched_fake, nullptr, nullptr);
#endif
  cur = nullptr;
}
static void side_close(Side *s);
static void inst_die(const char *how, int code) {
  Inst *i = cur;
  i->st = Inst::EXITED;
  i->exit_how = how;
  i->exit_code = code;
  outf("X %d %s %d\n", i->id, how, code);
  for (auto &f : i->fds) {
    if (f.t == F_STREAM && f.side) side_close(f.side);
    if (f.t == F_FILE) close(f.real);
    f = Fd();
  }
  to_sched(true);
  abort();
}
static void inst_main(unsigned lo, unsigned hi) {
  Inst *i = (Inst *)(((unsigned long)hi << 32) | lo);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &sched_bottom, &sched_size);
#endif
  auto m = (int (*)(int, char **))dlsym(i->dl, "ircd_main");
  if (!m) { fprintf(stderr, "no ircd_main\n"); abort(); }
  int rc = m((int)i->args.size(), i->argv.data());
  inst_die("return", rc);
}

/* ---------- fds ---------- */
static int fd_alloc(FdType t) {
  for (size_t i = 3; i < cur->fds.size(); i++)
    if (cur->fds[i].t == F_NONE) {
      cur->fds[i] = Fd();
      cur->fds[i].t = t;
      return (int)i;
    }
  errno = EMFILE;
  return -1;
}
static Fd *fdp(int fd) {
  if (!cur || fd < 0 || fd >= (int)cur->fds.size() || cur->fds[fd].t == F_NONE) {
    errno = EBADF;
    return nullptr;
  }
  return &cur->fds[fd];
}
static Side *peer(Side *s) { return &s->conn->s[1 - s->which]; }
static void side_close(Side *s) {
  if (s->closed) return;
  s->closed = true;
  Side *p = peer(s);
  if (s->conn->manual) p->in_eof = true;
  else p->rx_eof = true;
  /* unread data at close makes TCP send RST; we keep plain EOF */
  s->inst = s->inst;
}
static long wroom(Side *s) {  /* how much may s write now */
  Side *p = peer(s);
  if (p->cap < 0) return 1L << 30;
  long used = (long)(p->rx.size() + p->inflight.size());
  return used >= p->cap ? 0 : p->cap - used;
}
static unsigned ready_mask(Fd &f) {
  unsigned m = 0;
  switch (f.t) {
    case F_LISTEN: if (!f.acceptq.empty()) m |= EPOLLIN; break;
    case F_DGRAM: if (!f.dq.empty()) m |= EPOLLIN; m |= EPOLLOUT; break;
    case F_STREAM: {
      Side *s = f.side;
      if (s->connecting) break;
      if (s->failed || s->rst) return EPOLLERR | EPOLLHUP | EPOLLIN | EPOLLOUT;
      if (!s->rx.empty() || s->rx_eof) m |= EPOLLIN;
      if (wroom(s) > 0 || peer(s)->closed) m |= EPOLLOUT;
      break;
    }
    case F_SOCK: m |= EPOLLOUT | EPOLLHUP; break;
    default: break;
  }
  return m;
}
static unsigned long rnd() {
  rng_state ^= rng_state << 13;
  rng_state ^= rng_state >> 7;
  rng_state ^= rng_state << 17;
  return (unsigned long)(rng_state >> 11);
}
static int collect(Inst *i, epoll_event *evs, int max) {
  int n = 0;
  std::vector<epoll_event> v;
  for (auto &f : i->fds) {
    if (f.t == F_NONE || !f.in_ep) continue;
    unsigned m = ready_mask(f) & (f.ev.events | EPOLLERR | EPOLLHUP);
    if (m) {
      epoll_event e = f.ev;
      e.events = m;
      v.push_back(e);
    }
  }
  if (!evs) return (int)v.size();
  if (rng_state)
    for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[rnd() % k]);
  for (auto &e : v) {
    if (n >= max) break;
    evs[n++] = e;
  }
  return n;
}
static bool runnable(Inst *i) {
  return i->st == Inst::RUN && (collect(i, nullptr, 1) > 0 || (i->wake >= 0 && i->wake <= now_ms));
}

extern "C" {

int __wrap_epoll_create(int) { return fd_alloc(F_EPOLL); }
int __wrap_epoll_create1(int) { return fd_alloc(F_EPOLL); }
int __wrap_epoll_ctl(int, int op, int fd, epoll_event *ev) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  if (f->t == F_FILE) { errno = EPERM; return -1; }
  if (op == EPOLL_CTL_DEL) { f->in_ep = false; return 0; }
  if (op == EPOLL_CTL_ADD && f->in_ep) { errno = EEXIST; return -1; }
  if (op == EPOLL_CTL_MOD && !f->in_ep) { errno = ENOENT; return -1; }
  f->in_ep = true;
  f->ev = *ev;
  return 0;
}
int __wrap_epoll_wait(int, epoll_event *evs, int max, int timeout) {
  Inst *i = cur;
  i->wake = timeout < 0 ? -1 : now_ms + timeout;
  to_sched();
  i->wake = -1;
  return collect(i, evs, max);
}
int __wrap_poll(struct pollfd *, unsigned long, int) { errno = ENOSYS; return -1; }

time_t __wrap_time(time_t *t) {
  time_t v = (time_t)((now_ms + (cur ? cur->skew : 0)) / 1000);
  if (t) *t = v;
  return v;
}
int __wrap_gettimeofday(struct timeval *tv, void *) {
  long long n = now_ms + (cur ? cur->skew : 0);
  tv->tv_sec = n / 1000;
  tv->tv_usec = (n % 1000) * 1000 + (cur ? (cur->usec++ % 1000) : 0);
  return 0;
}
int __wrap_clock_gettime(int, struct timespec *ts) {
  long long n = now_ms + (cur ? cur->skew : 0);
  ts->tv_sec = n / 1000;
  ts->tv_nsec = (n % 1000) * 1000000;
  return 0;
}
unsigned __wrap_alarm(unsigned) { return 0; }
unsigned __wrap_sleep(unsigned) { return 0; }
uid_t __wrap_getuid(void) { return 1000; }
uid_t __wrap_geteuid(void) { return 1000; }
gid_t __wrap_getgid(void) { return 1000; }
gid_t __wrap_getegid(void) { return 1000; }
pid_t __wrap_getpid(void) { return 4000 + (cur ? cur->id : 0); }
int __wrap_setuid(uid_t) { return 0; }
pid_t __wrap_setsid(void) { return 1; }
mode_t __wrap_umask(mode_t m) { return m; }
int __wrap_chdir(const char *) { return 0; }
int __wrap_setrlimit(int, const struct rlimit *) { return 0; }
int __wrap_kill(pid_t, int) { return 0; }
pid_t __wrap_fork(void) {
  cur->forks++;
  for (auto &f : cur->fds)
    if (f.t == F_STREAM && f.side && f.side->conn->s[0].inst == f.side->conn->s[1].inst &&
        f.side->which == 1 && f.side->adopt == false && f.v6)
      f.side->adopt = true;
  return 4242 + cur->forks;
}
pid_t __wrap_waitpid(pid_t, int *, int) { errno = ECHILD; return -1; }
int __wrap_execv(const char *, char *const *) { inst_die("exec", 0); return -1; }
int __wrap_execvp(const char *, char *const *) { inst_die("exec", 0); return -1; }
void __wrap_exit(int code) {
  if (!cur) _exit(code);
  inst_die("exit", code);
  __builtin_unreachable();
}
void __wrap__exit(int code) { __wrap_exit(code); }
void __wrap_openlog(const char *, int, int) {}
void __wrap_closelog(void) {}
void __wrap_syslog(int, const char *, ...) {}
void __wrap___syslog_chk(int, int, const char *, ...) {}
int __wrap_sigaction(int sig, const struct sigaction *sa, struct sigaction *) {
  if (cur && sa && sig > 0 && sig < 65) cur->sig[sig] = sa->sa_handler;
  return 0;
}
void (*__wrap_signal(int sig, void (*h)(int)))(int) {
  if (cur && sig > 0 && sig < 65) cur->sig[sig] = h;
  return nullptr;
}

static string fpath(const char *p) {
  if (!strcmp(p, "/etc/resolv.conf")) return cur->dir + "/resolv.conf";
  if (p[0] == '/') return p;
  return cur->dir + "/" + p;
}
int __wrap_open(const char *p, int flags, ...) {
  int mode = 0600;
  int r;
  if (!strcmp(p, "/dev/tty")) { errno = ENOENT; return -1; }
  /* whatever the code under test does, it writes inside its own directory */
  string path = fpath(p);
  if ((flags & (O_WRONLY | O_RDWR | O_CREAT)) && path != "/dev/null" &&
      (path.compare(0, cur->dir.size(), cur->dir) || path.find("..") != string::npos)) {
    errno = EACCES;
    return -1;
  }
  r = open(path.c_str(), flags | O_CLOEXEC, mode);
  if (r < 0) return -1;
  int fd = fd_alloc(F_FILE);
  if (fd < 0) { close(r); errno = EMFILE; return -1; }
  cur->fds[fd].real = r;
  return fd;
}
int __wrap_open64(const char *p, int flags, ...) { return __wrap_open(p, flags); }
int __wrap_access(const char *p, int mode) {
  if (!strcmp(p, "/opt/ircu/bin/ircd")) return 0;
  return access(fpath(p).c_str(), mode);
}
int __wrap_fstat(int fd, struct stat *st) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  if (f->t != F_FILE) { memset(st, 0, sizeof *st); st->st_mode = S_IFSOCK; return 0; }
  return fstat(f->real, st);
}
int __wrap_stat(const char *p, struct stat *st) { return stat(fpath(p).c_str(), st); }
int __wrap_close(int fd) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  if (f->t == F_FILE) close(f->real);
  else if (f->t == F_STREAM) {
    Side *s = f->side;
    if (s->adopt) {
      s->inst = -1;
      s->fd = -1;
      s->ext = next_ext++;
      exts[s->ext] = s;
      outf("P %d %d\n", cur->id, s->ext);
    } else side_close(s);
  } else if (f->t == F_LISTEN) {
    for (auto c : f->acceptq) side_close(&c->s[1]);
  }
  *f = Fd();
  return 0;
}
int __wrap_dup2(int, int b) { return b; }
int __wrap_isatty(int) { return 0; }
char *__wrap_ttyname(int) { return nullptr; }
int __wrap_fcntl(int fd, int cmd, ...) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  (void)cmd;
  return 0;
}
int __wrap_ioctl(int fd, unsigned long, ...) { return fdp(fd) ? 0 : -1; }

int __wrap_socket(int fam, int type, int) {
  int fd = fd_alloc(F_SOCK);
  if (fd < 0) return -1;
  Fd &f = cur->fds[fd];
  f.v6 = fam == AF_INET6;
  f.local.v6 = f.v6;
  f.type = type & 0xf;
  if (f.type == SOCK_DGRAM) f.t = F_DGRAM;
  return fd;
}
int __wrap_setsockopt(int fd, int, int, const void *, socklen_t) { return fdp(fd) ? 0 : -1; }
int __wrap_getsockopt(int fd, int lvl, int name, void *val, socklen_t *len) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  int v = 0;
  if (lvl == SOL_SOCKET && name == SO_ERROR && f->t == F_STREAM) {
    v = f->side->so_error;
    f->side->so_error = 0;
    if (f->side->rst && !v) v = ECONNRESET;
  } else if (lvl == SOL_SOCKET && (name == SO_SNDBUF || name == SO_RCVBUF)) v = 65536;
  memcpy(val, &v, *len < sizeof v ? *len : sizeof v);
  return 0;
}
int __wrap_bind(int fd, const sockaddr *sa, socklen_t) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  Addr a = from_sa(sa);
  auto zero = [](const Addr &x) { for (int i = 0; i < (x.v6 ? 16 : 4); i++) if (x.b[i]) return false; return true; };
  if (f->type == SOCK_STREAM && a.port)
    for (auto &o : cur->fds)
      if (o.t == F_LISTEN && o.local.v6 == a.v6 && o.local.port == a.port && (zero(o.local) || zero(a) || !memcmp(o.local.b, a.b, a.v6 ? 16 : 4))) { errno = EADDRINUSE; return -1; }
  f->local = a;
  return 0;
}
int __wrap_listen(int fd, int) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  if (f->t != F_LISTEN) f->t = F_LISTEN;
  return 0;
}
int __wrap_accept(int fd, sockaddr *sa, socklen_t *len) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  if (f->t != F_LISTEN || f->acceptq.empty()) { errno = EAGAIN; return -1; }
  int nfd = fd_alloc(F_STREAM);
  if (nfd < 0) return -1;
  Conn *c = f->acceptq.front();
  f->acceptq.pop_front();
  Side *s = &c->s[1];
  s->fd = nfd;
  s->inst = cur->id;
  cur->fds[nfd].side = s;
  cur->fds[nfd].local = s->local;
  to_sa(s->remote, sa, len);
  return nfd;
}
int __wrap_accept4(int fd, sockaddr *sa, socklen_t *len, int) { return __wrap_accept(fd, sa, len); }
static Conn *new_conn() {
  Conn *c = new Conn;
  c->s[0].conn = c->s[1].conn = c;
  c->s[1].which = 1;
  conns.push_back(c);
  return c;
}
static bool zero_addr(const Addr &a) {
  for (int i = 0; i < (a.v6 ? 16 : 4); i++) if (a.b[i]) return false;
  return true;
}
static string inst_ip(int id) { char b[32]; snprintf(b, sizeof b, "10.1.0.%d", id + 1); return b; }
static Fd *find_listener(Inst *i, const Addr &a, int port) {
  for (auto &f : i->fds)
    if (f.t == F_LISTEN && f.local.v6 == a.v6 && f.local.port == port) return &f;
  return nullptr;
}
int __wrap_connect(int fd, const sockaddr *sa, socklen_t) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  Addr to = from_sa(sa);
  if (f->t == F_DGRAM) return 0;
  Conn *c = new_conn();
  Side *s = &c->s[0], *p = &c->s[1];
  s->inst = cur->id;
  s->fd = fd;
  s->remote = to;
  s->local = f->local;
  static int eph = 40000;
  s->local.v6 = to.v6;
  if (zero_addr(s->local)) parse_addr(inst_ip(cur->id).c_str(), 0, s->local);
  if (!s->local.port) s->local.port = eph++;
  p->remote = s->local;
  p->local = to;
  f->t = F_STREAM;
  f->side = s;
  /* another instance? */
  for (auto &ip : insts) {
    if (!ip || ip->st != Inst::RUN) continue;
    if (addr_str(to) == inst_ip(ip->id)) {
      Fd *l = find_listener(ip.get(), to, to.port);
      if (!l) break;
      c->manual = link_manual;
      p->inst = ip->id;
      l->acceptq.push_back(c);
      outf("L %d %d\n", cur->id, ip->id);
      errno = EINPROGRESS;
      return -1;
    }
  }
  for (auto &h : hlistens)
    if (h.port == to.port && h.v6 == to.v6 && !memcmp(h.b, to.b, to.v6 ? 16 : 4)) {
      p->inst = -1;
      p->ext = next_ext++;
      exts[p->ext] = p;
      outf("C %d %s %d %d\n", cur->id, addr_str(to).c_str(), to.port, p->ext);
      errno = EINPROGRESS;
      return -1;
    }
  s->failed = true;
  s->so_error = ECONNREFUSED;
  outf("R %d %s %d\n", cur->id, addr_str(to).c_str(), to.port);
  errno = EINPROGRESS;
  return -1;
}
int __wrap_getsockname(int fd, sockaddr *sa, socklen_t *len) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  to_sa(f->t == F_STREAM ? f->side->local : f->local, sa, len);
  return 0;
}
int __wrap_getpeername(int fd, sockaddr *sa, socklen_t *len) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  if (f->t != F_STREAM) { errno = ENOTCONN; return -1; }
  to_sa(f->side->remote, sa, len);
  return 0;
}
static ssize_t do_recv(int fd, void *buf, size_t n) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  if (f->t == F_FILE) return read(f->real, buf, n);
  if (f->t != F_STREAM) { errno = ENOTCONN; return -1; }
  Side *s = f->side;
  if (s->rst || s->failed) { errno = ECONNRESET; return -1; }
  if (s->rx.empty()) {
    if (s->rx_eof) return 0;
    errno = EAGAIN;
    return -1;
  }
  size_t k = s->rx.size() < n ? s->rx.size() : n;
  if (rd_max > 0 && (long)k > rd_max) k = rd_max;
  memcpy(buf, s->rx.data(), k);
  s->rx.erase(0, k);
  return (ssize_t)k;
}
static ssize_t do_send(int fd, const char *buf, size_t n) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  if (f->t == F_FILE) return write(f->real, buf, n);
  if (f->t != F_STREAM) { errno = ENOTCONN; return -1; }
  Side *s = f->side;
  if (s->rst || s->failed) { errno = ECONNRESET; return -1; }
  Side *p = peer(s);
  if (p->closed) { errno = EPIPE; return -1; }
  long room = wroom(s);
  if (room <= 0) { errno = EAGAIN; return -1; }
  size_t k = (long)n > room ? (size_t)room : n;
  (s->conn->manual ? p->inflight : p->rx).append(buf, k);
  return (ssize_t)k;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int) { return do_recv(fd, b, n); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return do_recv(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int) { return do_send(fd, (const char *)b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return do_send(fd, (const char *)b, n); }
ssize_t __wrap_writev(int fd, const struct iovec *iov, int cnt) {
  size_t total = 0;
  string all;
  for (int i = 0; i < cnt; i++) all.append((const char *)iov[i].iov_base, iov[i].iov_len);
  (void)total;
  return do_send(fd, all.data(), all.size());
}
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int, const sockaddr *sa, socklen_t) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  Addr a;
  if (sa) a = from_sa(sa);
  outf("U %d %d %s %d %zu\n", cur->id, fd, addr_str(a).c_str(), a.port, n);
  out.append((const char *)b, n);
  out += '\n';
  return (ssize_t)n;
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int, sockaddr *sa, socklen_t *len) {
  Fd *f = fdp(fd);
  if (!f) return -1;
  if (f->t == F_STREAM) return do_recv(fd, b, n);
  if (f->dq.empty()) { errno = EAGAIN; return -1; }
  auto d = f->dq.front();
  f->dq.pop_front();
  size_t k = d.data.size() < n ? d.data.size() : n;
  memcpy(b, d.data.data(), k);
  to_sa(d.from, sa, len);
  return (ssize_t)k;
}
int __wrap_socketpair(int, int, int, int sv[2]) {
  int a = fd_alloc(F_STREAM);
  if (a < 0) return -1;
  int b = fd_alloc(F_STREAM);
  if (b < 0) { cur->fds[a] = Fd(); return -1; }
  Conn *c = new_conn();
  for (int k = 0; k < 2; k++) {
    Side *s = &c->s[k];
    s->inst = cur->id;
    s->fd = k ? b : a;
    cur->fds[s->fd].side = s;
    cur->fds[s->fd].v6 = true;  /* marks a socketpair (as against a pipe) */
  }
  sv[0] = a;
  sv[1] = b;
  return 0;
}
int __wrap_pipe(int p[2]) {
  int r = __wrap_socketpair(0, 0, 0, p);
  if (!r) cur->fds[p[0]].v6 = cur->fds[p[1]].v6 = false;
  return r;
}

/* ---------- memory accounting ---------- */
static void acct(void *p, int sign) {
  if (!cur || !p) return;
  cur->live += sign * (long long)malloc_usable_size(p);
  cur->liven += sign;
  if (cur->live > cur->peak) cur->peak = cur->live;
}
void *__wrap_malloc(size_t n) { void *p = malloc(n); acct(p, 1); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = calloc(a, b); acct(p, 1); return p; }
void *__wrap_realloc(void *q, size_t n) {
  acct(q, -1);
  void *p = realloc(q, n);
  acct(p, 1);
  return p;
}
void __wrap_free(void *p) { acct(p, -1); free(p); }
char *__wrap_strdup(const char *s) { char *p = strdup(s); acct(p, 1); return p; }

/* ---------- TLS over simulated sockets ---------- */
static int sb_write(BIO *b, const char *d, int n) {
  BIO_clear_retry_flags(b);
  ssize_t r = do_send((int)(long)BIO_get_data(b), d, n);
  if (r < 0 && errno == EAGAIN) BIO_set_retry_write(b);
  return (int)r;
}
static int sb_read(BIO *b, char *d, int n) {
  BIO_clear_retry_flags(b);
  ssize_t r = do_recv((int)(long)BIO_get_data(b), d, n);
  if (r < 0 && errno == EAGAIN) BIO_set_retry_read(b);
  return (int)r;
}
static long sb_ctrl(BIO *, int cmd, long, void *) { return cmd == BIO_CTRL_FLUSH || cmd == BIO_CTRL_DUP ? 1 : 0; }
static int sb_create(BIO *b) { BIO_set_init(b, 1); return 1; }
static int sb_destroy(BIO *) { return 1; }
int __wrap_SSL_set_fd(SSL *ssl, int fd) {
  static BIO_METHOD *m;
  if (!m) {
    m = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "sim");
    BIO_meth_set_write(m, sb_write);
    BIO_meth_set_read(m, sb_read);
    BIO_meth_set_ctrl(m, sb_ctrl);
    BIO_meth_set_create(m, sb_create);
    BIO_meth_set_destroy(m, sb_destroy);
  }
  BIO *b = BIO_new(m);
  BIO_set_data(b, (void *)(long)fd);
  SSL_set_bio(ssl, b, b);
  return 1;
}

}  /* extern "C" */

/* ---------- scheduler ---------- */
static long run_budget;
static void run_all() {
  run_budget = 200000;
  bool any = true;
  while (any) {
    any = false;
    for (auto &i : insts)
      while (i && runnable(i.get())) {
        any = true;
        enter(i.get());
        if (--run_budget <= 0) { fprintf(stderr, "SIM-HANG: event loop of instance %d never becomes idle\n", i->id); abort(); }
        if (link_manual) break;
      }
  }
}
static void advance(long long ms) {
  long long target = now_ms + ms;
  for (;;) {
    run_all();
    long long next = target;
    bool due = false;
    for (auto &i : insts)
      if (i && i->st == Inst::RUN && i->wake >= 0 && i->wake <= target) {
        due = true;
        if (i->wake < next) next = i->wake;
      }
    if (next > now_ms) now_ms = next;
    if (!due) { now_ms = target; run_all(); return; }
    if (now_ms >= target) { run_all(); return; }
  }
}
static void flush_exts() {
  for (auto &kv : exts) {
    Side *s = kv.second;
    if (!s->hold && !s->rx.empty()) {
      outf("O %d %zu\n", kv.first, s->rx.size());
      out += s->rx;
      out += '\n';
      s->rx.clear();
    }
    if (s->rx.empty() && s->rx_eof && !s->eof_reported) {
      s->eof_reported = true;
      outf("E %d\n", kv.first);
    }
  }
}

/* ---------- command input ---------- */
static char ibuf[1 << 16];
static size_t ipos, ilen;
static bool fill() {
  ssize_t r;
  do r = read(0, ibuf, sizeof ibuf);
  while (r < 0 && errno == EINTR);
  if (r <= 0) return false;
  ipos = 0;
  ilen = r;
  return true;
}
static bool get_line(string &l) {
  l.clear();
  for (;;) {
    if (ipos >= ilen && !fill()) return false;
    char *nl = (char *)memchr(ibuf + ipos, '\n', ilen - ipos);
    if (nl) {
      l.append(ibuf + ipos, nl - (ibuf + ipos));
      ipos = nl - ibuf + 1;
      return true;
    }
    l.append(ibuf + ipos, ilen - ipos);
    ipos = ilen;
  }
}
static bool get_bytes(string &d, size_t n) {
  d.clear();
  while (n) {
    if (ipos >= ilen && !fill()) return false;
    size_t k = ilen - ipos < n ? ilen - ipos : n;
    d.append(ibuf + ipos, k);
    ipos += k;
    n -= k;
  }
  return true;
}
static void wr(const string &s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t r = write(1, s.data() + o, s.size() - o);
    if (r < 0) { if (errno == EINTR) continue; _exit(3); }
    o += r;
  }
}
static void reply() {
  char h[32];
  snprintf(h, sizeof h, "%zu\n", out.size());
  wr(h + out);
  out.clear();
}

static Conn *find_link(int a, int b) {
  for (size_t k = conns.size(); k-- > 0;) {
    Conn *c = conns[k];
    if (c->s[0].inst == c->s[1].inst) continue;
    if ((c->s[0].inst == a && c->s[1].inst == b) || (c->s[0].inst == b && c->s[1].inst == a)) {
      if (c->s[0].closed && c->s[1].closed) continue;
      return c;
    }
  }
  return nullptr;
}
static bool deliver(Conn *c, int to_inst, long lines) {
  Side *s = c->s[0].inst == to_inst ? &c->s[0] : &c->s[1];
  bool did = false;
  while (lines != 0) {
    if (s->inflight.empty()) break;
    size_t n = s->inflight.find('\n');
    n = n == string::npos ? s->inflight.size() : n + 1;
    s->rx.append(s->inflight, 0, n);
    s->inflight.erase(0, n);
    did = true;
    if (lines > 0) lines--;
  }
  if (s->inflight.empty() && s->in_eof && !s->rx_eof) { s->rx_eof = true; did = true; }
  return did;
}

static void on_cpu(int) {
  static const char m[] = "SIM-HANG: CPU time limit in one case\n";
  (void)!write(2, m, sizeof m - 1);
  abort();
}
static void cpu_guard(int sec) {
  struct itimerval it{};
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

/* returns false at end of input / "end" */
static bool serve(bool child) {
  string l, d;
  while (get_line(l)) {
    std::vector<string> w;
    size_t p = 0;
    while (p < l.size()) {
      size_t q = l.find(' ', p);
      if (q == string::npos) q = l.size();
      if (q > p) w.push_back(l.substr(p, q - p));
      p = q + 1;
    }
    if (w.empty()) continue;
    const string &c = w[0];
    auto I = [&](size_t k) { return k < w.size() ? atoll(w[k].c_str()) : 0LL; };
    if (c == "go") {
      flush_exts();
      reply();
    } else if (c == "send") {
      get_bytes(d, I(2));
      auto it = exts.find((int)I(1));
      if (it != exts.end() && !it->second->closed) {
        Side *o = peer(it->second);
        if (!o->closed) o->rx += d;
      }
    } else if (c == "run") {
      run_all();
    } else if (c == "step") {
      Inst *i = insts[I(1)].get();
      for (long k = I(2); k > 0 && runnable(i); k--) enter(i);
    } else if (c == "adv") {
      advance(I(1));
    } else if (c == "jump") {  /* move the clock without running anything */
      now_ms += I(1);
    } else if (c == "conn") {  /* conn ext inst ip sport port */
      Addr a;
      if (!parse_addr(w[3].c_str(), (int)I(4), a)) { outf("B badaddr\n"); continue; }
      Fd *f = find_listener(insts[I(2)].get(), a, (int)I(5));
      if (!f || insts[I(2)]->st != Inst::RUN) { outf("B nolisten %lld\n", I(1)); continue; }
      Conn *cn = new_conn();
      Side *e = &cn->s[0], *s = &cn->s[1];
      e->ext = (int)I(1);
      exts[e->ext] = e;
      e->local = a;
      s->remote = a;
      s->inst = (int)I(2);
      s->local.v6 = a.v6;
      s->local.port = (int)I(5);
      parse_addr(a.v6 ? "fd00::1" : inst_ip((int)I(2)).c_str(), (int)I(5), s->local);
      e->remote = s->local;
      f->acceptq.push_back(cn);
    } else if (c == "close") {
      auto it = exts.find((int)I(1));
      if (it != exts.end()) { side_close(it->second); it->second->rx.clear(); }
    } else if (c == "shut") {  /* half close: EOF to the server, keep reading */
      auto it = exts.find((int)I(1));
      if (it != exts.end()) peer(it->second)->rx_eof = true;
    } else if (c == "rst") {
      auto it = exts.find((int)I(1));
      if (it != exts.end()) { it->second->closed = true; peer(it->second)->rst = true; }
    } else if (c == "drop") {  /* forget a harness connection entirely */
      exts.erase((int)I(1));
    } else if (c == "hold") {  /* hold ext cap */
      auto it = exts.find((int)I(1));
      if (it != exts.end()) { it->second->cap = I(2); it->second->hold = I(2) >= 0; }
    } else if (c == "take") {
      auto it = exts.find((int)I(1));
      if (it != exts.end()) {
        string &rx = it->second->rx;
        size_t n = (size_t)I(2) < rx.size() ? (size_t)I(2) : rx.size();
        outf("O %lld %zu\n", I(1), n);
        out.append(rx, 0, n);
        out += '\n';
        rx.erase(0, n);
      }
    } else if (c == "rdmax") {
      rd_max = I(1);
    } else if (c == "order") {
      rng_state = (unsigned long long)I(1);
    } else if (c == "linkmode") {
      link_manual = I(1);
      for (auto cn : conns)
        if (cn->s[0].inst >= 0 && cn->s[1].inst >= 0 && cn->s[0].inst != cn->s[1].inst) {
          cn->manual = link_manual;
          if (!link_manual)
            for (int k = 0; k < 2; k++) {
              cn->s[k].rx += cn->s[k].inflight;
              cn->s[k].inflight.clear();
              if (cn->s[k].in_eof) cn->s[k].rx_eof = true;
            }
        }
    } else if (c == "dlv") {  /* dlv from to lines */
      Conn *cn = find_link((int)I(1), (int)I(2));
      bool did = cn && deliver(cn, (int)I(2), I(3));
      outf("D %d\n", did);
    } else if (c == "dlvall") {  /* deliver everything until quiescent */
      for (bool any = true; any;) {
        any = false;
        run_all();
        for (size_t k = 0; k < conns.size(); k++) {
          Conn *cn = conns[k];
          if (!cn->manual) continue;
          for (int s = 0; s < 2; s++)
            if (cn->s[s].inst >= 0 && deliver(cn, cn->s[s].inst, -1)) any = true;
        }
      }
    } else if (c == "flight") {
      for (auto cn : conns)
        if (cn->manual)
          for (int s = 0; s < 2; s++) {
            long n = 0;
            for (char ch : cn->s[s].inflight) n += ch == '\n';
            if (n || (cn->s[s].in_eof && !cn->s[s].rx_eof))
              outf("F %d %d %ld\n", cn->s[1 - s].inst, cn->s[s].inst, n);
          }
    } else if (c == "cut") {  /* break the link between two instances */
      Conn *cn = find_link((int)I(1), (int)I(2));
      if (cn)
        for (int s = 0; s < 2; s++) {
          cn->s[s].inflight.clear();
          cn->s[s].rx_eof = true;
        }
      outf("D %d\n", cn != nullptr);
    } else if (c == "sig") {
      Inst *i = insts[I(1)].get();
      if (i->st == Inst::RUN && i->sig[I(2)] && i->sig[I(2)] != SIG_IGN && i->sig[I(2)] != SIG_DFL) {
        cur = i;
        i->sig[I(2)]((int)I(2));
        cur = nullptr;
      }
    } else if (c == "mem") {
      Inst *i = insts[I(1)].get();
      outf("M %lld %lld %lld %lld\n", I(1), i->live, i->liven, i->peak);
    } else if (c == "fds") {
      Inst *i = insts[I(1)].get();
      int n = 0;
      std::string ts;
      for (auto &f : i->fds) {
        n += f.t != F_NONE;
        if (f.t != F_NONE) ts += "-slcdef"[f.t];
      }
      outf("N %lld %d %s\n", I(1), n, ts.c_str());
    } else if (c == "listen") {
      Addr a;
      parse_addr(w[1].c_str(), (int)I(2), a);
      hlistens.push_back(a);
    } else if (c == "unlisten") {
      hlistens.clear();
    } else if (c == "dgram") {  /* dgram inst fd ip port n + bytes */
      get_bytes(d, I(5));
      Inst *i = insts[I(1)].get();
      Fd &f = i->fds[I(2)];
      Addr a;
      parse_addr(w[3].c_str(), (int)I(4), a);
      if (f.t == F_DGRAM) f.dq.push_back({a, d});
    } else if (c == "skew") {
      insts[I(1)]->skew = I(2);
    } else if (c == "now") {
      outf("T %lld\n", now_ms);
    } else if (c == "alive") {
      for (auto &i : insts)
        if (i) outf("A %d %d\n", i->id, i->st == Inst::RUN);
    } else if (c == "boot") {  /* boot inst so dir */
      int id = (int)I(1);
      if ((int)insts.size() <= id) insts.resize(id + 1);
      auto i = std::make_unique<Inst>();
      i->id = id;
      i->dir = w[3];
      i->dl = dlopen(w[2].c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!i->dl) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(4); }
      i->fds.resize(300);
      i->stack_size = 4 << 20;
      i->stack = (char *)mmap(nullptr, i->stack_size, PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      i->args = {"ircd", "-n", "-d", ".", "-f", "ircd.conf"};
      for (size_t k = 4; k < w.size(); k++) i->args.push_back(w[k]);
      for (auto &a : i->args) i->argv.push_back(const_cast<char *>(a.c_str()));
      i->argv.push_back(nullptr);
      getcontext(&i->ctx);
      i->ctx.uc_stack.ss_sp = i->stack;
      i->ctx.uc_stack.ss_size = i->stack_size;
      i->ctx.uc_link = nullptr;
      unsigned long a = (unsigned long)i.get();
      makecontext(&i->ctx, (void (*)())inst_main, 2, (unsigned)a, (unsigned)(a >> 32));
      i->st = Inst::RUN;
      optind = 0;
      insts[id] = std::move(i);
      enter(insts[id].get());
      run_all();
    } else if (c == "fork") {
      assert(ipos >= ilen);  /* the child must not inherit unread commands */
      fflush(stderr);
      out = "K\n";
      reply();
      pid_t pid = fork();
      if (pid == 0) {
        signal(SIGVTALRM, on_cpu);
        cpu_guard(w.size() > 1 ? (int)I(1) : 60);
        serve(true);
        _exit(0);
      }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) out = "K\n";
      else {
        out.clear();
        outf("! %d %d\n", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : -1);
      }
      reply();
    } else if (c == "end") {
      if (child) {
#ifdef SIM_ASAN
        if (w.size() > 1 && I(1)) __lsan_do_leak_check();
#endif
        _exit(0);
      }
      return false;
    } else {
      outf("B unknown %s\n", c.c_str());
    }
  }
  return false;
}

int main() {
  signal(SIGPIPE, SIG_IGN);
  signal(SIGVTALRM, on_cpu);
  serve(false);
  _exit(0);
}

#ifdef SIMCOV
#define NOCOV __attribute__((no_sanitize("coverage")))
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  for (; a < b; a++) *a = 1;
}
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  static int fd = -2;
  if (!*g) return;
  *g = 0;
  if (fd == -2) { const char *f = getenv("SIMCOV"); fd = f ? open(f, O_WRONLY | O_CREAT | O_APPEND, 0666) : -1; }
  if (fd < 0) return;
  Dl_info d;
  void *pc = __builtin_return_address(0);
  if (!dladdr(pc, &d) || strstr(d.dli_fname, "/ircsim-")) return;
  uint32_t off = (char *)pc - (char *)d.dli_fbase;
  if (write(fd, &off, 4) != 4) return;
}
#endif
