#include "net.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

namespace net {
Hooks hooks;
double p_short_read = 0, p_partial_send = 0, p_eintr = 0;
constexpr int kBase = 512, kMax = 1000;
static FileP* ftab;   // [kMax]
static std::set<std::string>* fs_sockets;  // path namespace: socket files
static std::set<std::string>* fs_dirs;
static std::map<std::string, mode_t>* fs_mode; // permissions of what was created here
static mode_t cur_umask = 022;
static mode_t mode_of(const std::string& p, mode_t d) { if (!fs_mode) return d; auto i = fs_mode->find(p); return i == fs_mode->end() ? d : i->second; }
static void set_mode(const std::string& p, mode_t m) { if (!fs_mode) fs_mode = new std::map<std::string, mode_t>(); (*fs_mode)[p] = m; }
static u64 conn_ids = 0;

static std::vector<std::function<bool()>*>* preds;

static FileP get(int fd) { return ftab && fd >= kBase && fd < kMax ? ftab[fd] : nullptr; }
static bool is_sim(int fd) { return g_on && fd >= kBase && fd < kMax; }
static int alloc_fd(FileP f) {
  if (!ftab) ftab = new FileP[kMax];
  for (int i = kBase; i < kMax; ++i) if (!ftab[i]) { ftab[i] = f; f->fd = i; return i; }
  errno = EMFILE;
  return -1;
}
size_t open_files() { size_t n = 0; if (ftab) for (int i = kBase; i < kMax; ++i) if (ftab[i]) ++n; return n; }
std::string open_summary() { std::string s; if (ftab) for (int i = kBase; i < kMax; ++i) if (ftab[i]) s += strf("%d:%d ", i, ftab[i]->type); return s; }

static u32 readiness(File* f) {
  u32 m = 0;
  switch (f->type) {
    case F_UDP: case F_UNIX:
      if (!f->q.empty() || !f->errs.empty()) m |= EPOLLIN;
      m |= EPOLLOUT; break;
    case F_LISTEN: if (!f->backlog.empty()) m |= EPOLLIN; break;
    case F_TCP: {
      if (!f->conn) { m |= EPOLLOUT | EPOLLHUP; break; }
      Conn* c = f->conn.get();
      if (c->state == 3 || c->rst) m |= EPOLLERR | EPOLLHUP | EPOLLIN | EPOLLOUT;
      if (c->state == 2) {
        if (c->rx.size() > c->rx_off || c->fin || c->shut_rd) m |= EPOLLIN;
        if (c->fin) m |= EPOLLRDHUP;
        if (c->inflight < c->window) m |= EPOLLOUT;
      }
      break;
    }
    case F_EVENT: if (f->evt) m |= EPOLLIN; m |= EPOLLOUT; break;
    case F_TIMER: if (f->t_fired) m |= EPOLLIN; break;
    case F_PIPE_R: if (!f->pipe->buf.empty()) m |= EPOLLIN; if (!f->pipe->w_open) m |= EPOLLHUP; break;
    case F_PIPE_W: m |= EPOLLOUT; if (!f->pipe->r_open) m |= EPOLLERR; break;
    case F_SOCK: if (!f->pipe->buf.empty() || !f->pipe->w_open) m |= EPOLLIN; m |= EPOLLOUT; break;
    case F_EPOLL: break;
  }
  return m;
}
static u32 ep_item_ready(File* f, File::Item& it) {
  if (it.disabled) return 0;
  u32 want = it.events | EPOLLERR | EPOLLHUP;
  u32 r = readiness(f) & want;
  if (!r) return 0;
  if (it.events & EPOLLET) {
    u32 out = 0;
    if ((r & (EPOLLIN | EPOLLERR | EPOLLHUP | EPOLLRDHUP)) && it.last_in != f->in_seq) out = r;
    if ((r & EPOLLOUT) && it.last_out != f->out_seq) out = r;
    return out;
  }
  return r;
}
static bool epoll_ready(File* ep) {
  for (auto& kv : ep->items) { FileP f = get(kv.first); if (f && ep_item_ready(f.get(), kv.second)) return true; }
  return false;
}

// wake threads whose wait predicate became true
static void touch(File* f, bool in, bool out) {
  if (f) { if (in) ++f->in_seq; if (out) ++f->out_seq; }
  if (!preds) return;
  for (Thr* t : thrs)
    if (t->st == St::Blocked && t->wk == WaitKind::Fd && (size_t)t->id < preds->size() && (*preds)[t->id] && (*(*preds)[t->id])()) {
      t->st = St::Runnable; t->woken = true; t->obj = nullptr;
    }
}
// returns false on timeout
static bool wait_fd(std::function<bool()> pred, i64 deadline) {
  if (pred()) return true;
  if (deadline <= now_ns) return false;
  if (!preds) { preds = new std::vector<std::function<bool()>*>(kMaxThr, nullptr); }
  while (!pred()) {
    (*preds)[cur->id] = &pred;
    int me = cur->id;
    bool w = block_on(WaitKind::Fd, &pred, deadline, false);
    (*preds)[me] = nullptr;
    if (!w && deadline != kNever && now_ns >= deadline) return pred();
  }
  return true;
}

// ---- connections ---------------------------------------------------------------------
static File* file_of(Conn* c) { FileP f = get(c->fd); return f && f->conn.get() == c ? f.get() : nullptr; }

void Conn::w_send(const std::string& s) {
  if (app_closed || rst) return;
  rx += s;
  touch(file_of(this), true, false);
}
void Conn::w_fin() { if (!fin && !rst) { fin = true; touch(file_of(this), true, false); } }
void Conn::w_rst() { if (!rst) { rst = true; if (state == 1) { state = 3; so_error = ECONNREFUSED; } touch(file_of(this), true, true); } }
void Conn::w_resume() {
  peer_reads = true;
  std::string h; h.swap(held);
  inflight -= h.size();
  if (!h.empty() && peer) peer->on_data(this, h);
  touch(file_of(this), false, true);
}
void conn_accepted(ConnP c) {
  if (c->state != 1) return;
  c->state = 2;
  touch(file_of(c.get()), true, true);
  if (c->peer) c->peer->on_open(c.get());
}
void conn_failed(ConnP c, int err) {
  if (c->state != 1) return;
  c->state = 3; c->so_error = err;
  touch(file_of(c.get()), true, true);
}
static void deliver_to_peer(ConnP c, std::string s) {
  i64 t = std::max(now_ns + c->lat, c->last_tx);
  c->last_tx = t;
  at(t, [c, s]() {
    if (c->rst) return;
    if (!c->peer_reads) { c->held += s; return; }
    c->inflight -= s.size();
    if (c->peer) c->peer->on_data(c.get(), s);
    touch(file_of(c.get()), false, true);
  });
}
static void fin_to_peer(ConnP c) {
  i64 t = std::max(now_ns + c->lat, c->last_tx);
  c->last_tx = t;
  at(t, [c]() { if (c->peer) c->peer->on_fin(c.get()); });
}
File* find_udp(int port) {
  if (ftab) for (int i = kBase; i < kMax; ++i) if (ftab[i] && ftab[i]->type == F_UDP && ftab[i]->port == port) return ftab[i].get();
  return nullptr;
}
File* find_unix(const std::string& p) {
  if (fs_sockets && !fs_sockets->count(p)) return nullptr;
  if (ftab) for (int i = kBase; i < kMax; ++i) if (ftab[i] && ftab[i]->type == F_UNIX && ftab[i]->path == p) return ftab[i].get();
  return nullptr;
}
File* find_listener(int port) {
  if (ftab) for (int i = kBase; i < kMax; ++i) if (ftab[i] && ftab[i]->type == F_LISTEN && ftab[i]->port == port) return ftab[i].get();
  return nullptr;
}
ConnP world_connect(int port, std::shared_ptr<Peer> p) {
  File* l = find_listener(port);
  if (!l || l->backlog.size() >= 64) return nullptr;
  ConnP c = std::make_shared<Conn>();
  c->id = ++conn_ids; c->state = 2; c->peer = p; c->lport = port; c->rport = 40000 + (int)(c->id % 20000);
  l->backlog.push_back(c);
  touch(l, true, false);
  return c;
}
static int push_dgram(File* f, const std::string& d, u64 tag) {
  if (f->q_bytes + d.size() + 512 > f->rcvbuf + 512 && !f->q.empty()) { ++f->kernel_drops; return 2; }
  f->q.push_back({d, tag}); f->q_bytes += d.size() + 512;
  touch(f, true, false);
  return 0;
}
int world_udp(int port, const std::string& d, u64 tag) { File* f = find_udp(port); return f ? push_dgram(f, d, tag) : 1; }
int world_unix(const std::string& p, const std::string& d, u64 tag) { 
  File* f = find_unix(p); if (!f) return 1;
  size_t sl = p.rfind('/');   // the sender is another user
  if (!(mode_of(p, 0777) & 02) || (sl != std::string::npos && !(mode_of(p.substr(0, sl), 0755) & 01))) return 1;
  return push_dgram(f, d, tag);
}
bool inject_recv_error(int port, const std::string& path, int err) {
  File* f = port ? find_udp(port) : find_unix(path);
  if (!f) return false;
  f->errs.push_back(err);
  touch(f, true, false);
  return true;
}
void make_stale_socket(const std::string& p) { if (!fs_sockets) fs_sockets = new std::set<std::string>(); fs_sockets->insert(p); }
void add_dir(const std::string& p) { if (!fs_dirs) fs_dirs = new std::set<std::string>(); fs_dirs->insert(p); }
bool path_exists(const std::string& p) { return fs_sockets && fs_sockets->count(p); }

static void end_handling(File* f) {
  if (f->cur_tag) { u64 t = f->cur_tag; f->cur_tag = 0; if (hooks.on_dgram_done) hooks.on_dgram_done(f, t); }
}

// ---- generic receive / send ------------------------------------------------------------
static ssize_t f_recv(FileP f, iovec* iov, int n_iov, int flags) {
  size_t cap = 0; for (int i = 0; i < n_iov; ++i) cap += iov[i].iov_len;
  bool nb = f->nonblock || (flags & MSG_DONTWAIT);
  auto put = [&](const char* p, size_t n) {
    size_t off = 0;
    for (int i = 0; i < n_iov && off < n; ++i) { size_t k = std::min(n - off, iov[i].iov_len); memcpy(iov[i].iov_base, p + off, k); off += k; }
    return n;
  };
  if (!nb && p_eintr > 0 && decide_p(D_Net, p_eintr)) { count("fault.eintr"); errno = EINTR; return -1; }
  switch (f->type) {
    case F_UDP: case F_UNIX: {
      end_handling(f.get());
      if (!nb) wait_fd([&] { return !f->q.empty() || !f->errs.empty(); }, kNever);
      if (!f->errs.empty()) { errno = f->errs.front(); f->errs.pop_front(); count("fault.recv_error"); return -1; }
      if (f->q.empty()) { errno = EAGAIN; return -1; }
      Dgram d = std::move(f->q.front());
      if (!(flags & MSG_PEEK)) { f->q.pop_front(); f->q_bytes -= d.data.size() + 512; } 
      size_t n = put(d.data.data(), std::min(cap, d.data.size()));
      if (d.data.size() > cap) count("probe.dgram_truncated");
      ++f->n_recv; f->cur_tag = d.tag; f->cur_step = steps; f->cur_time = now_ns;
      hash_in(0xd9 + d.tag * 7 + n);
      if (hooks.on_dgram) hooks.on_dgram(f.get(), d.tag, n);
      return (ssize_t)n;
    }
    case F_TCP: {
      Conn* c = f->conn.get();
      if (!c || c->state == 0) { errno = ENOTCONN; return -1; }
      auto ready = [c] { return c->rx.size() > c->rx_off || c->fin || c->rst || c->state == 3 || c->shut_rd; };
      if (!ready()) {
        if (nb) { errno = EAGAIN; return -1; }
        if (!wait_fd(ready, c->rcvtimeo ? now_ns + c->rcvtimeo : kNever)) { errno = EAGAIN; return -1; }
      }
      if (c->rx.size() > c->rx_off) {
        size_t av = c->rx.size() - c->rx_off;
        size_t n = std::min(cap, av);
        if (n > 1 && p_short_read > 0 && decide_p(D_Net, p_short_read)) { n = 1 + decide(D_Net, (u32)std::min<size_t>(n, 4000) - 1); count("fault.short_read"); }
        put(c->rx.data() + c->rx_off, n);
        if (!(flags & MSG_PEEK)) { c->rx_off += n; if (c->rx_off == c->rx.size()) { c->rx.clear(); c->rx_off = 0; } }
        return (ssize_t)n;
      }
      if (c->rst) { errno = ECONNRESET; return -1; }
      if (c->state == 3) { errno = c->so_error ? c->so_error : ECONNREFUSED; return -1; }
      return 0;
    }
    case F_EVENT: {
      if (f->evt == 0) { if (nb) { errno = EAGAIN; return -1; } wait_fd([&] { return f->evt != 0; }, kNever); }
      u64 v = f->evt; f->evt = 0; put((char*)&v, 8); return 8;
    }
    case F_TIMER: {
      if (!f->t_fired) { if (nb) { errno = EAGAIN; return -1; } wait_fd([&] { return f->t_fired != 0; }, kNever); }
      u64 v = f->t_fired; f->t_fired = 0; put((char*)&v, 8); return 8;
    }
    case F_PIPE_R: case F_SOCK: {
      auto pi = f->pipe;
      if (pi->buf.empty()) {
        if (!pi->w_open) return 0;
        if (nb) { errno = EAGAIN; return -1; }
        wait_fd([&] { return !pi->buf.empty() || !pi->w_open; }, kNever);
        if (pi->buf.empty()) return 0;
      }
      size_t n = put(pi->buf.data(), std::min(cap, pi->buf.size()));
      pi->buf.erase(0, n);
      return (ssize_t)n;
    }
    default: errno = EBADF; return -1;
  }
}
static ssize_t f_send(FileP f, const iovec* iov, int n_iov, int flags) {
  std::string s;
  for (int i = 0; i < n_iov; ++i) s.append((const char*)iov[i].iov_base, iov[i].iov_len);
  bool nb = f->nonblock || (flags & MSG_DONTWAIT);
  switch (f->type) {
    case F_TCP: {
      ConnP c = f->conn;
      if (!c || c->state == 0) { errno = ENOTCONN; return -1; }
      if (c->rst) { errno = c->rst_delivered ? EPIPE : ECONNRESET; c->rst_delivered = true; return -1; }
      if (c->shut_wr) { errno = EPIPE; return -1; }
      if (c->state != 2) { errno = c->state == 1 ? EAGAIN : EPIPE; return -1; }
      auto ready = [c] { return c->inflight < c->window || c->rst || c->shut_wr; };
      if (!ready()) {
        if (nb) { errno = EAGAIN; return -1; }
        if (!wait_fd(ready, c->sndtimeo ? now_ns + c->sndtimeo : kNever)) { errno = EAGAIN; return -1; }
        if (c->rst) { errno = ECONNRESET; return -1; }
        if (c->shut_wr) { errno = EPIPE; return -1; }
      }
      if (s.empty()) return 0;
      size_t n = std::min(s.size(), c->window - c->inflight);
      if (nb && n > 1 && p_partial_send > 0 && decide_p(D_Net, p_partial_send)) { n = 1 + decide(D_Net, (u32)std::min<size_t>(n, 100000) - 1); count("fault.partial_send"); }
      if (!nb) n = s.size();
      c->inflight += n;
      deliver_to_peer(c, s.substr(0, n));
      return (ssize_t)n;
    }
    case F_EVENT: { u64 v = 0; if (s.size() >= 8) memcpy(&v, s.data(), 8); f->evt += v; touch(f.get(), true, false); return 8; }
    case F_PIPE_W: {
      if (!f->pipe->r_open) { errno = EPIPE; return -1; }
      f->pipe->buf += s;
      for (int i = kBase; i < kMax; ++i) if (ftab[i] && ftab[i]->pipe == f->pipe && ftab[i]->type == F_PIPE_R) touch(ftab[i].get(), true, false);
      return (ssize_t)s.size();
    }
    case F_SOCK: {
      f->pipe2->buf += s;
      for (int i = kBase; i < kMax; ++i) if (ftab[i] && ftab[i]->type == F_SOCK && ftab[i]->pipe == f->pipe2) touch(ftab[i].get(), true, false);
      return (ssize_t)s.size();
    }
    default: errno = EBADF; return -1;
  }
}
static void timer_arm(FileP f) {
  u64 gen = ++f->t_gen;
  if (!f->t_expire) return;
  i64 t = f->t_real ? f->t_expire - wall_off : f->t_expire;
  std::weak_ptr<File> w = f;
  at(t, [w, gen] {
    auto f = w.lock();
    if (!f || f->t_gen != gen) return;
    ++f->t_fired;
    if (f->t_interval) { f->t_expire += f->t_interval; timer_arm(f); } else f->t_expire = 0;
    touch(f.get(), true, false);
  });
}
static void f_close(FileP f) {
  switch (f->type) {
    case F_UDP: case F_UNIX: end_handling(f.get()); break;
    case F_TCP: if (f->conn) { f->conn->app_closed = true; if (f->conn->peer) { Scope sc; f->conn->peer->on_app_closed(f->conn.get()); } if (f->conn->state == 2 && !f->conn->rst) fin_to_peer(f->conn); else if (f->conn->state == 1) { f->conn->state = 3; } if (f->conn->peer && f->conn->state == 3) fin_to_peer(f->conn); } break;
    case F_LISTEN: for (auto& c : f->backlog) { c->rst = true; if (c->peer) fin_to_peer(c); } break;
    case F_PIPE_R: f->pipe->r_open = false; break;
    case F_PIPE_W: f->pipe->w_open = false; touch(nullptr, false, false); break;
    case F_SOCK: f->pipe2->w_open = false; touch(nullptr, false, false); break;
    default: break;
  }
}
template <class F> static F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
static int vopen(const char* path, bool* handled) {
  *handled = false;
  if (!g_on || !path) return -1;
  if (strncmp(path, "/proc/net/", 10) && strncmp(path, "/proc/sys/net/", 14)) return -1;
  *handled = true;
  bool ex = false;
  std::string s = virtual_file(path, &ex);
  if (!ex) { errno = ENOENT; return -1; }
  int fd = (int)raw_syscall(SYS_memfd_create, (long)"v", 0);
  if (fd < 0) { errno = EMFILE; return -1; }
  raw_syscall(SYS_write, fd, (long)s.data(), (long)s.size());
  raw_syscall(SYS_lseek, fd, 0, 0);
  return fd;
}
}  // namespace net

using namespace net;
#define REAL(name, ...) ({ static decltype(&name) r_; if (!r_) { Scope s_; r_ = real<decltype(&name)>(#name); } r_(__VA_ARGS__); })

extern "C" {
int socket(int dom, int type, int proto) noexcept {
  if (!g_on) { long r = raw_syscall(SYS_socket, dom, type, proto); if (r < 0) { errno = (int)-r; return -1; } return (int)r; }
  sched_point(50, nullptr);
  Scope s;
  auto f = std::make_shared<File>();
  int st = type & 0xf;
  if (dom == AF_UNIX && st == SOCK_DGRAM) f->type = F_UNIX;
  else if (st == SOCK_DGRAM) f->type = F_UDP;
  else f->type = F_TCP;
  if (dom != AF_UNIX && dom != AF_INET && dom != AF_INET6) { errno = EAFNOSUPPORT; return -1; }
  f->domain = dom; f->stype = st;
  f->nonblock = type & SOCK_NONBLOCK;
  // only those that are going to connect: the listening ones are made by the main thread
  if (f->type == F_TCP && cur->id != 0 && !cur->harness && hooks.on_socket && hooks.on_socket()) { errno = EMFILE; return -1; }
  return alloc_fd(f);
}
static int port_of(const sockaddr* a) {
  if (a->sa_family == AF_INET) return ntohs(((const sockaddr_in*)a)->sin_port);
  if (a->sa_family == AF_INET6) return ntohs(((const sockaddr_in6*)a)->sin6_port);
  return 0;
}
int bind(int fd, const sockaddr* a, socklen_t len) noexcept {
  Scope s;
  FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  if (a->sa_family == AF_UNIX) {
    const sockaddr_un* u = (const sockaddr_un*)a;
    size_t n = strnlen(u->sun_path, len - offsetof(sockaddr_un, sun_path));
    std::string p(u->sun_path, n);
    if (!fs_sockets) fs_sockets = new std::set<std::string>();
    if (fs_sockets->count(p)) { errno = EADDRINUSE; return -1; }
    auto sl = p.rfind('/');
    if (sl != std::string::npos && sl > 0 && !(fs_dirs && fs_dirs->count(p.substr(0, sl)))) { errno = ENOENT; return -1; }
    fs_sockets->insert(p); set_mode(p, 0777 & ~cur_umask);
    f->path = p;
    return 0;
  }
  int port = port_of(a);
  if (f->type == F_UDP && find_udp(port)) { errno = EADDRINUSE; return -1; }
  f->port = port;
  return 0;
}
int listen(int fd, int) noexcept { Scope s; FileP f = get(fd); if (!f) { errno = EBADF; return -1; } f->type = F_LISTEN; return 0; }
static void fill_addr(File* f, sockaddr* a, socklen_t* len, u32 ip, int port) {
  if (!a || !len) return;
  if (f->domain == AF_INET6) {
    sockaddr_in6 s6; memset(&s6, 0, sizeof s6); s6.sin6_family = AF_INET6; s6.sin6_port = htons((u16)port); s6.sin6_addr = in6addr_loopback;
    memcpy(a, &s6, std::min<size_t>(*len, sizeof s6)); *len = sizeof s6;
  } else if (f->domain == AF_UNIX) {
    sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; memcpy(a, &u, std::min<size_t>(*len, 2)); *len = 2;
  } else {
    sockaddr_in s4; memset(&s4, 0, sizeof s4); s4.sin_family = AF_INET; s4.sin_port = htons((u16)port); s4.sin_addr.s_addr = htonl(ip);
    memcpy(a, &s4, std::min<size_t>(*len, sizeof s4)); *len = sizeof s4;
  }
}
int accept4(int fd, sockaddr* a, socklen_t* len, int flags) {
  sched_point(51, nullptr);
  Scope s;
  FileP f = get(fd); if (!f || f->type != F_LISTEN) { errno = f ? EINVAL : EBADF; return -1; }
  if (!f->errs.empty()) { errno = f->errs.front(); f->errs.pop_front(); return -1; }
  if (f->backlog.empty()) {
    if (f->nonblock) { errno = EAGAIN; return -1; }
    wait_fd([&] { return !f->backlog.empty(); }, kNever);
  }
  ConnP c = f->backlog.front(); f->backlog.pop_front();
  auto nf = std::make_shared<File>();
  nf->type = F_TCP; nf->domain = f->domain; nf->stype = SOCK_STREAM; nf->conn = c; nf->nonblock = flags & SOCK_NONBLOCK;
  int n = alloc_fd(nf);
  if (n < 0) { f->backlog.push_front(c); return -1; }
  c->fd = n;
  fill_addr(nf.get(), a, len, c->raddr, c->rport);
  return n;
}
int accept(int fd, sockaddr* a, socklen_t* len) { return accept4(fd, a, len, 0); }
int connect(int fd, const sockaddr* a, socklen_t) {
  sched_point(52, nullptr);
  Scope s;
  FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  if (f->type != F_TCP) return 0;
  if (f->conn && f->conn->state == 1) { errno = EALREADY; return -1; }
  if (f->conn && f->conn->state == 2) { errno = EISCONN; return -1; }
  ConnP c = std::make_shared<Conn>();
  c->id = ++conn_ids; c->state = 1; c->fd = fd; c->rport = port_of(a); c->lport = 50000 + (int)(c->id % 10000);
  if (a->sa_family == AF_INET) c->raddr = ntohl(((const sockaddr_in*)a)->sin_addr.s_addr);
  c->opener = cur; c->t_open = now_ns; c->step_open = steps;
  f->conn = c;
  hash_in(0xc0 + c->id);
  if (hooks.on_connect) hooks.on_connect(c); else conn_failed(c, ECONNREFUSED);
  if (f->nonblock) {
    if (c->state == 1) { errno = EINPROGRESS; return -1; }
  } else wait_fd([c] { return c->state != 1; }, kNever);
  if (c->state == 3) { errno = c->so_error; return -1; }
  return 0;
}
ssize_t recv(int fd, void* b, size_t n, int fl) {
  sched_point(53, nullptr);
  Scope s; FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  iovec v{b, n}; return f_recv(f, &v, 1, fl);
}
ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* l) {
  sched_point(53, nullptr);
  Scope s; FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  iovec v{b, n}; ssize_t r = f_recv(f, &v, 1, fl);
  if (r >= 0 && a && l) fill_addr(f.get(), a, l, 0x7f000001, 33333);
  return r;
}
ssize_t recvmsg(int fd, msghdr* m, int fl) {
  sched_point(53, nullptr);
  Scope s; FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  ssize_t r = f_recv(f, m->msg_iov, (int)m->msg_iovlen, fl);
  m->msg_flags = 0; m->msg_controllen = 0;
  if (r >= 0 && m->msg_name) fill_addr(f.get(), (sockaddr*)m->msg_name, &m->msg_namelen, 0x7f000001, 33333);
  return r;
}
ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int fl) { return recv(fd, b, n, fl); }
ssize_t __recvfrom_chk(int fd, void* b, size_t n, size_t, int fl, sockaddr* a, socklen_t* l) { return recvfrom(fd, b, n, fl, a, l); }
ssize_t send(int fd, const void* b, size_t n, int fl) {
  sched_point(54, nullptr);
  Scope s; FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  iovec v{(void*)b, n}; return f_send(f, &v, 1, fl);
}
ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr*, socklen_t) { return send(fd, b, n, fl); }
ssize_t sendmsg(int fd, const msghdr* m, int fl) {
  sched_point(54, nullptr);
  Scope s; FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  return f_send(f, m->msg_iov, (int)m->msg_iovlen, fl);
}
ssize_t read(int fd, void* b, size_t n) {
  if (!is_sim(fd)) { long r = raw_syscall(SYS_read, fd, (long)b, (long)n); if (r < 0) { errno = (int)-r; return -1; } return r; }
  return recv(fd, b, n, 0);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) {
  if (!is_sim(fd)) { long r = raw_syscall(SYS_write, fd, (long)b, (long)n); if (r < 0) { errno = (int)-r; return -1; } return r; }
  return send(fd, b, n, 0);
}
ssize_t readv(int fd, const iovec* v, int n) {
  if (!is_sim(fd)) { long r = raw_syscall(SYS_readv, fd, (long)v, n); if (r < 0) { errno = (int)-r; return -1; } return r; }
  msghdr m; memset(&m, 0, sizeof m); m.msg_iov = (iovec*)v; m.msg_iovlen = n; return recvmsg(fd, &m, 0);
}
ssize_t writev(int fd, const iovec* v, int n) {
  if (!is_sim(fd)) { long r = raw_syscall(SYS_writev, fd, (long)v, n); if (r < 0) { errno = (int)-r; return -1; } return r; }
  msghdr m; memset(&m, 0, sizeof m); m.msg_iov = (iovec*)v; m.msg_iovlen = n; return sendmsg(fd, &m, 0);
}
int close(int fd) {
  if (!is_sim(fd)) { long r = raw_syscall(SYS_close, fd); if (r < 0) { errno = (int)-r; return -1; } return 0; }
  sched_point(55, nullptr);
  Scope s; FileP f = get(fd);
  if (!f) { errno = EBADF; return -1; }
  ftab[fd] = nullptr;
  for (int i = kBase; i < kMax; ++i) if (ftab[i] && ftab[i]->type == F_EPOLL) ftab[i]->items.erase(fd);
  f_close(f);
  return 0;
}
int shutdown(int fd, int how) noexcept {
  Scope s; FileP f = get(fd); if (!f || !f->conn) { errno = f ? ENOTCONN : EBADF; return -1; }
  if (how == SHUT_WR || how == SHUT_RDWR) { if (!f->conn->shut_wr) { f->conn->shut_wr = true; fin_to_peer(f->conn); } touch(f.get(), false, true); }
  if (how == SHUT_RD || how == SHUT_RDWR) { f->conn->shut_rd = true; touch(f.get(), true, false); }
  return 0;
}
int getsockopt(int fd, int lvl, int opt, void* v, socklen_t* l) noexcept {
  Scope s; FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  int val = 0;
  if (lvl == SOL_SOCKET && opt == SO_ERROR) { if (f->conn) { val = f->conn->so_error; f->conn->so_error = 0; if (!val && f->conn->rst) val = ECONNRESET; } }
  else if (lvl == SOL_SOCKET && opt == SO_TYPE) val = f->stype;
  else if (lvl == SOL_SOCKET && (opt == SO_RCVBUF || opt == SO_SNDBUF)) val = (int)f->rcvbuf;
  else if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
    timeval tv{}; if (f->conn) { i64 t = opt == SO_RCVTIMEO ? f->conn->rcvtimeo : f->conn->sndtimeo; tv.tv_sec = t / kSec; tv.tv_usec = t % kSec / 1000; }
    memcpy(v, &tv, std::min<size_t>(*l, sizeof tv)); *l = sizeof tv; return 0;
  }
  if (v && l && *l >= sizeof(int)) { memcpy(v, &val, sizeof val); *l = sizeof val; }
  return 0;
}
int setsockopt(int fd, int lvl, int opt, const void* v, socklen_t l) noexcept {
  Scope s; FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && l >= sizeof(timeval)) {
    const timeval* tv = (const timeval*)v; i64 t = tv->tv_sec * kSec + tv->tv_usec * 1000;
    if (f->conn) (opt == SO_RCVTIMEO ? f->conn->rcvtimeo : f->conn->sndtimeo) = t;
  }
  if (lvl == SOL_SOCKET && opt == SO_RCVBUF && l >= 4) { int n = *(const int*)v; if (n > 1000000) f->rcvbuf = (size_t)n > (4u << 20) ? (4u << 20) : n; }
  return 0;
}
int getsockname(int fd, sockaddr* a, socklen_t* l) noexcept {
  Scope s; FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  fill_addr(f.get(), a, l, 0x7f000001, f->conn ? f->conn->lport : f->port); return 0;
}
int getpeername(int fd, sockaddr* a, socklen_t* l) noexcept {
  Scope s; FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  if (!f->conn || f->conn->state != 2) { errno = ENOTCONN; return -1; }
  fill_addr(f.get(), a, l, f->conn->raddr, f->conn->rport); return 0;
}
static int do_fcntl(int fd, int cmd, long arg) {
  if (!is_sim(fd)) { long r = raw_syscall(SYS_fcntl, fd, cmd, arg); if (r < 0) { errno = (int)-r; return -1; } return (int)r; }
  Scope s; FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  switch (cmd) {
    case F_GETFL: return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: f->nonblock = arg & O_NONBLOCK; return 0;
    case F_GETFD: return FD_CLOEXEC;
    case F_SETFD: return 0;
    default: return 0;
  }
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  if (!is_sim(fd)) { long r = raw_syscall(SYS_ioctl, fd, (long)req, (long)a); if (r < 0) { errno = (int)-r; return -1; } return (int)r; }
  Scope s; FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  if (req == FIONBIO) { f->nonblock = *(int*)a != 0; return 0; }
  if (req == FIONREAD) { int n = 0; if (f->conn) n = (int)(f->conn->rx.size() - f->conn->rx_off); else if (!f->q.empty()) n = (int)f->q.front().data.size(); *(int*)a = n; return 0; }
  return 0;
}
int epoll_create1(int) noexcept {
  if (!g_on) return (int)raw_syscall(SYS_epoll_create1, 0);
  Scope s; auto f = std::make_shared<File>(); f->type = F_EPOLL; return alloc_fd(f);
}
int epoll_create(int) noexcept { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, epoll_event* ev) noexcept {
  Scope s;
  FileP e = get(ep), f = get(fd);
  if (!e || !f) { errno = EBADF; return -1; }
  if (op == EPOLL_CTL_DEL) { if (!e->items.erase(fd)) { errno = ENOENT; return -1; } return 0; }
  if (op == EPOLL_CTL_ADD && e->items.count(fd)) { errno = EEXIST; return -1; }
  if (op == EPOLL_CTL_MOD && !e->items.count(fd)) { errno = ENOENT; return -1; }
  File::Item it; it.events = ev->events; it.data = ev->data.u64;
  e->items[fd] = it;
  touch(nullptr, false, false);
  return 0;
}
int epoll_wait(int ep, epoll_event* ev, int max, int timeout) {
  sched_point(56, nullptr);
  Scope s;
  FileP e = get(ep); if (!e) { errno = EBADF; return -1; }
  if (timeout != 0 && !epoll_ready(e.get()))   // about to block: nothing received earlier is still queued for its handler
    for (auto& kv : e->items) { FileP f = get(kv.first); if (f && (f->type == F_UDP || f->type == F_UNIX) && f->cur_tag) end_handling(f.get()); }
  if (p_eintr > 0 && decide_p(D_Net, p_eintr)) { count("fault.eintr"); errno = EINTR; return -1; }
  i64 dl = timeout < 0 ? kNever : now_ns + (i64)timeout * kMs;
  File* ef = e.get();
  wait_fd([ef] { return epoll_ready(ef); }, dl);
  int n = 0;
  std::vector<int> order; for (auto& kv : e->items) order.push_back(kv.first);
  if (order.size() > 1) { u32 r = decide(D_Net, (u32)order.size()); std::rotate(order.begin(), order.begin() + r, order.end()); }
  for (int fd : order) {
    if (n >= max) break;
    auto it = e->items.find(fd); if (it == e->items.end()) continue;
    FileP f = get(fd); if (!f) continue;
    u32 r = ep_item_ready(f.get(), it->second);
    if (!r) continue;
    it->second.last_in = f->in_seq; it->second.last_out = f->out_seq;
    if (it->second.events & EPOLLONESHOT) it->second.disabled = true;
    ev[n].events = r; ev[n].data.u64 = it->second.data; ++n;
  }
  return n;
}
int epoll_pwait(int ep, epoll_event* ev, int max, int timeout, const sigset_t*) { return epoll_wait(ep, ev, max, timeout); }
static int do_poll(pollfd* p, nfds_t n, i64 dl) {
  sched_point(57, nullptr);
  Scope s;
  if (p_eintr > 0 && decide_p(D_Net, p_eintr)) { count("fault.eintr"); errno = EINTR; return -1; }
  auto eval = [p, n](bool set) {
    int c = 0;
    for (nfds_t i = 0; i < n; ++i) {
      if (p[i].fd < 0) { if (set) p[i].revents = 0; continue; }
      FileP f = get(p[i].fd);
      u32 r = f ? readiness(f.get()) & ((u32)(unsigned short)p[i].events | POLLERR | POLLHUP) : (u32)POLLNVAL;
      if (set) p[i].revents = (short)r;
      if (r) ++c;
    }
    return c;
  };
  wait_fd([&] { return eval(false) > 0; }, dl);
  return eval(true);
}
int poll(pollfd* p, nfds_t n, int timeout) {
  if (!g_on) return (int)raw_syscall(SYS_poll, (long)p, n, timeout);
  return do_poll(p, n, timeout < 0 ? kNever : now_ns + (i64)timeout * kMs);
}
int __poll_chk(pollfd* p, nfds_t n, int timeout, size_t) { return poll(p, n, timeout); }
int ppoll(pollfd* p, nfds_t n, const timespec* t, const sigset_t*) { return do_poll(p, n, t ? now_ns + t->tv_sec * kSec + t->tv_nsec : kNever); }
int eventfd(unsigned v, int fl) noexcept {
  if (!g_on) return (int)raw_syscall(SYS_eventfd2, v, fl);
  Scope s; auto f = std::make_shared<File>(); f->type = F_EVENT; f->evt = v; f->nonblock = fl & EFD_NONBLOCK; return alloc_fd(f);
}
int timerfd_create(clockid_t c, int fl) noexcept {
  if (!g_on) return (int)raw_syscall(SYS_timerfd_create, c, fl);
  Scope s; auto f = std::make_shared<File>(); f->type = F_TIMER; f->t_real = c == CLOCK_REALTIME; f->nonblock = fl & TFD_NONBLOCK; return alloc_fd(f);
}
int timerfd_settime(int fd, int fl, const itimerspec* n, itimerspec* o) noexcept {
  Scope s; FileP f = get(fd); if (!f) { errno = EBADF; return -1; }
  if (o) memset(o, 0, sizeof *o);
  i64 v = n->it_value.tv_sec * kSec + n->it_value.tv_nsec;
  f->t_interval = n->it_interval.tv_sec * kSec + n->it_interval.tv_nsec;
  f->t_fired = 0;
  if (!v) f->t_expire = 0;
  else if (fl & TFD_TIMER_ABSTIME) f->t_expire = v;
  else f->t_expire = (f->t_real ? wall_now() : now_ns) + v;
  timer_arm(f);
  return 0;
}
int pipe2(int* fds, int fl) noexcept {
  if (!g_on) return (int)raw_syscall(SYS_pipe2, (long)fds, fl);
  Scope s;
  auto p = std::make_shared<Pipe>();
  auto a = std::make_shared<File>(), b = std::make_shared<File>();
  a->type = F_PIPE_R; b->type = F_PIPE_W; a->pipe = b->pipe = p; a->nonblock = b->nonblock = fl & O_NONBLOCK;
  fds[0] = alloc_fd(a); fds[1] = alloc_fd(b);
  return 0;
}
int pipe(int* fds) noexcept { return pipe2(fds, 0); }
int socketpair(int, int type, int, int* fds) noexcept {
  Scope s;
  auto p = std::make_shared<Pipe>(), q = std::make_shared<Pipe>();
  auto a = std::make_shared<File>(), b = std::make_shared<File>();
  a->type = b->type = F_SOCK; a->pipe = p; a->pipe2 = q; b->pipe = q; b->pipe2 = p;
  a->nonblock = b->nonblock = type & SOCK_NONBLOCK;
  fds[0] = alloc_fd(a); fds[1] = alloc_fd(b);
  return 0;
}
// ---- files --------------------------------------------------------------------------------
int open(const char* path, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  bool h; { Scope s; int fd = vopen(path, &h); if (h) return fd; }
  long r = raw_syscall(SYS_openat, AT_FDCWD, (long)path, fl, mode);
  if (r < 0) { errno = (int)-r; return -1; }
  return (int)r;
}
int open64(const char* path, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return open(path, fl, mode); }
int __open_2(const char* path, int fl) { return open(path, fl, 0); }
int __open64_2(const char* path, int fl) { return open(path, fl, 0); }
FILE* fopen(const char* path, const char* mode) {
  bool h; int fd; { Scope s; fd = vopen(path, &h); }
  if (h) return fd < 0 ? nullptr : fdopen(fd, "r");
  return REAL(fopen, path, mode);
}
FILE* fopen64(const char* path, const char* mode) {
  bool h; int fd; { Scope s; fd = vopen(path, &h); }
  if (h) return fd < 0 ? nullptr : fdopen(fd, "r");
  return REAL(fopen64, path, mode);
}
int unlink(const char* p) noexcept {
  if (!g_on) { errno = EPERM; return -1; }   // the simulation never touches the real file system
  sched_point(58, nullptr);
  Scope s;
  if (hooks.on_fs) hooks.on_fs("unlink", p);
  if (fs_sockets && fs_sockets->erase(p)) return 0;
  errno = ENOENT; return -1;
}
int remove(const char* p) noexcept { return unlink(p); }
int mkdir(const char* p, mode_t m) noexcept {
  Scope s;
  if (hooks.on_fs) hooks.on_fs("mkdir", p);
  if (!fs_dirs) fs_dirs = new std::set<std::string>();
  if (!fs_dirs->insert(p).second) { errno = EEXIST; return -1; }
  set_mode(p, m & ~cur_umask);
  return 0;
}
mode_t umask(mode_t m) noexcept {
  Scope s; mode_t o = cur_umask; cur_umask = m & 0777;
  if (hooks.on_fs) hooks.on_fs("umask", strf("%o", m));
  return o;
}
int chmod(const char* p, mode_t m) noexcept {
  Scope s;
  if (!(fs_sockets && fs_sockets->count(p)) && !(fs_dirs && fs_dirs->count(p))) { errno = ENOENT; return -1; }
  set_mode(p, m & 0777); return 0;
}
int fchmodat(int, const char* p, mode_t m, int) noexcept { return chmod(p, m); }
// ---- names ----------------------------------------------------------------------------------
static std::set<void*>* ai_set;
int getaddrinfo(const char* node, const char* svc, const addrinfo* hints, addrinfo** out) {
  Scope s;
  in_addr v4; in6_addr v6; bool is4 = false, is6 = false;
  int fam = hints ? hints->ai_family : AF_UNSPEC;
  if (!node) { v4.s_addr = htonl(hints && (hints->ai_flags & AI_PASSIVE) ? 0 : 0x7f000001); is4 = true; }
  else if (!strcmp(node, "localhost")) { v4.s_addr = htonl(0x7f000001); is4 = true; }
  else if (inet_pton(AF_INET, node, &v4) == 1) is4 = true;
  else if (inet_pton(AF_INET6, node, &v6) == 1) is6 = true;
  else return EAI_NONAME;
  if ((is4 && fam == AF_INET6) || (is6 && fam == AF_INET)) return EAI_NONAME;
  int port = svc ? atoi(svc) : 0;
  struct Blk { addrinfo ai; sockaddr_in6 a; };
  Blk* b = (Blk*)rt_alloc(sizeof(Blk)); memset(b, 0, sizeof *b);
  b->ai.ai_family = is4 ? AF_INET : AF_INET6;
  b->ai.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
  b->ai.ai_protocol = hints ? hints->ai_protocol : 0;
  b->ai.ai_addr = (sockaddr*)&b->a;
  if (is4) { sockaddr_in* p = (sockaddr_in*)&b->a; p->sin_family = AF_INET; p->sin_port = htons((u16)port); p->sin_addr = v4; b->ai.ai_addrlen = sizeof(sockaddr_in); }
  else { b->a.sin6_family = AF_INET6; b->a.sin6_port = htons((u16)port); b->a.sin6_addr = v6; b->ai.ai_addrlen = sizeof(sockaddr_in6); }
  *out = &b->ai;
  return 0;
}
void freeaddrinfo(addrinfo* a) noexcept { free(a); (void)ai_set; }
int gethostname(char* b, size_t n) noexcept { strncpy(b, "simhost", n); return 0; }
}
