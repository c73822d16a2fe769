// Simulated descriptors and network.
#pragma once
#include "rt.h"
#include <deque>
#include <memory>
namespace net {
using namespace rt;

struct Conn;
// world-side end of a TCP connection
struct Peer {
  virtual ~Peer() {}
  virtual void on_open(Conn*) {}
  virtual void on_data(Conn*, const std::string&) {}
  virtual void on_fin(Conn*) {}     // application closed or shut down its side
  virtual void on_app_closed(Conn*) {}   // the application closed its descriptor (called at once)
};
struct Conn {
  u64 id = 0;
  // application side
  std::string rx; size_t rx_off = 0;
  bool fin = false, rst = false;           // from the world
  bool rst_delivered = false;
  int state = 0;                            // 0 idle 1 connecting 2 connected 3 failed
  int so_error = 0;
  bool app_closed = false, shut_wr = false, shut_rd = false;
  i64 rcvtimeo = 0, sndtimeo = 0;
  u32 laddr = 0x7f000001, raddr = 0x7f000001; int lport = 0, rport = 0;
  size_t window = 1 << 20;                  // bytes accepted but not consumed by the peer
  size_t inflight = 0;
  bool peer_reads = true;                   // false: peer stopped reading
  i64 lat = 50 * kUs;
  i64 last_tx = 0;
  Thr* opener = nullptr;
  i64 t_open = 0; u64 step_open = 0;
  std::shared_ptr<Peer> peer;
  int fd = -1;
  std::string held;                         // bytes not yet read by a non-reading peer
  // world operations
  void w_send(const std::string& s);
  void w_fin();
  void w_rst();
  void w_resume();
};
using ConnP = std::shared_ptr<Conn>;

enum Ftype : u8 { F_UDP, F_UNIX, F_LISTEN, F_TCP, F_EPOLL, F_EVENT, F_TIMER, F_PIPE_R, F_PIPE_W, F_SOCK };

struct Dgram { std::string data; u64 tag; };
struct Pipe { std::string buf; bool r_open = true, w_open = true; };

struct File {
  Ftype type; int fd = -1; bool nonblock = false;
  u64 in_seq = 1, out_seq = 1;
  // dgram
  int port = 0; std::string path; std::deque<Dgram> q; size_t q_bytes = 0; size_t rcvbuf = 212992;
  std::deque<int> errs;             // errors returned by upcoming receive calls
  u64 n_recv = 0, kernel_drops = 0;
  u64 cur_tag = 0; u64 cur_step = 0; i64 cur_time = 0;   // datagram being handled
  int domain = 0, stype = 0;
  // tcp
  ConnP conn; std::deque<ConnP> backlog;
  // event/timer
  u64 evt = 0; i64 t_expire = 0, t_interval = 0; bool t_real = false; u64 t_gen = 0; u64 t_fired = 0;
  std::shared_ptr<Pipe> pipe, pipe2;
  // epoll
  struct Item { u32 events; u64 data; u64 last_in = 0, last_out = 0; bool disabled = false; };
  std::map<int, Item> items;
};
using FileP = std::shared_ptr<File>;

// hooks implemented by the world --------------------------------------------------
struct Hooks {
  // application connects to addr:port; the world decides what happens (calls accept_/refuse_)
  std::function<void(ConnP)> on_connect;
  std::function<bool()> on_socket;   // no descriptor for a stream socket?
  // a datagram receive call returned (tag of datagram, bytes returned); called in app thread context
  std::function<void(File*, u64 tag, size_t n)> on_dgram;
  // the receiving thread asks for more: the previous datagram is completely handled
  std::function<void(File*, u64 tag)> on_dgram_done;
  std::function<void(const char*, const std::string&)> on_fs;   // unlink / mkdir / umask
};
extern Hooks hooks;
extern double p_short_read, p_partial_send, p_eintr;

void conn_accepted(ConnP c);                 // world accepts an application connect
void conn_failed(ConnP c, int err);
// world connects to an application listener; null if nobody listens / backlog full
ConnP world_connect(int port, std::shared_ptr<Peer> p);
// datagram delivery; returns 0 ok, 1 no such socket, 2 dropped by full queue
int world_udp(int port, const std::string& data, u64 tag);
int world_unix(const std::string& path, const std::string& data, u64 tag);
bool inject_recv_error(int port, const std::string& path, int err);
File* find_udp(int port);
File* find_unix(const std::string& path);
File* find_listener(int port);
void make_stale_socket(const std::string& path);
void add_dir(const std::string& path);
bool path_exists(const std::string& path);
size_t open_files();
std::string open_summary();
}  // namespace net
