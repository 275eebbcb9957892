// The network under a socket: name resolution, sockets, connecting and the readiness interface of the kernel. What the
// resolver answers and how every connection attempt ends is decided (symbolically) up front; calls are recorded.
#pragma once
#include "vp.h"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <unistd.h>

#ifdef VP_UDP
#define VP_SOCKTYPE SOCK_DGRAM
#define VP_IPPROTO IPPROTO_UDP
#else
#define VP_SOCKTYPE SOCK_STREAM
#define VP_IPPROTO IPPROTO_TCP
#endif
struct Net {
  enum { MAXFD = 32, MAXE = 4, EVFD = 20, EPFD = 21, TMFD = 22 };
  // the resolver's answer
  int gai = 0; unsigned n_ent = 0; bool v6[MAXE]; unsigned char addr[MAXE][16]; uint16_t port[MAXE]; uint32_t scope[MAXE];
  // the outcome of each attempt: 0 or an errno; reported by connect() or, for non-blocking sockets, later
  int result[MAXE]; bool later[MAXE];
  int sock_errno = 0; unsigned sock_fail = ~0u; // socket() fails for this attempt
  // record
  unsigned n_gai = 0, n_free = 0; char host[8] = {}, service[8] = {}; bool host_null = false, service_null = false; int flags = 0, family = 0, socktype = 0, protocol = 0;
  unsigned n_sock = 0, n_conn = 0; bool order = true, target = true, fresh = true; bool one_at_a_time = true;
  bool open[MAXFD] = {}; unsigned closes[MAXFD] = {}; int domain[MAXFD] = {}; bool connected[MAXFD] = {}, tried[MAXFD] = {}, nonblock[MAXFD] = {}; int pending[MAXFD] = {}; bool inprogress[MAXFD] = {}; int next = 3; unsigned n_open = 0; bool bad = false;
  // readiness
  struct { bool reg; uint32_t ev; epoll_data_t data; bool edge; } ep[MAXFD] = {}; uint64_t counter = 0;
  addrinfo ai[MAXE]; sockaddr_in a4[MAXE]; sockaddr_in6 a6[MAXE];
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER;
  int add(int dom) { const int fd = next++; open[fd] = true; domain[fd] = dom; ++n_open; return fd; }
  bool ok(int fd) { if (fd < 0 || fd >= MAXFD || !open[fd]) { bad = true; errno = EBADF; return false; } return true; }
};
static Net net;
extern "C" {
int vpsys_getaddrinfo(const char* host, const char* service, const addrinfo* hints, addrinfo** res) {
  ++net.n_gai; net.host_null = !host; net.service_null = !service;
  for (int i = 0; host && i < 7 && host[i]; ++i) net.host[i] = host[i];
  for (int i = 0; service && i < 7 && service[i]; ++i) net.service[i] = service[i];
  if (hints) { net.flags = hints->ai_flags; net.family = hints->ai_family; net.socktype = hints->ai_socktype; net.protocol = hints->ai_protocol; }
  *res = nullptr; if (net.gai) return net.gai;
  addrinfo* last = nullptr;
  for (unsigned i = 0; i < net.n_ent; ++i) {
    addrinfo& a = net.ai[i]; std::memset(&a, 0, sizeof a); a.ai_socktype = VP_SOCKTYPE; a.ai_protocol = VP_IPPROTO;
    if (net.v6[i]) { sockaddr_in6& s = net.a6[i]; std::memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_port = net.port[i]; std::memcpy(&s.sin6_addr, net.addr[i], 16); s.sin6_scope_id = net.scope[i]; a.ai_family = AF_INET6; a.ai_addr = (sockaddr*)&s; a.ai_addrlen = sizeof s; }
    else { sockaddr_in& s = net.a4[i]; std::memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = net.port[i]; std::memcpy(&s.sin_addr, net.addr[i], 4); a.ai_family = AF_INET; a.ai_addr = (sockaddr*)&s; a.ai_addrlen = sizeof s; }
    if (last) last->ai_next = &a; else *res = &a; last = &a;
  }
  return 0;
}
void vpsys_freeaddrinfo(addrinfo* a) { if (a) ++net.n_free; }
int vpsys_socket(int domain, int type, int proto) {
  const unsigned k = net.n_sock++; if ((type & 15) != VP_SOCKTYPE || (proto != VP_IPPROTO && proto != 0)) net.bad = true;
  if (k == net.sock_fail) { errno = net.sock_errno; return -1; }
  return net.add(domain);
}
int vpsys_connect(int fd, const sockaddr* a, socklen_t n) {
  if (!net.ok(fd)) return -1;
  const unsigned k = net.n_conn++;
  if (net.tried[fd]) net.fresh = false;
  net.tried[fd] = true;
  for (int i = 3; i < net.next; ++i) if (i != fd && net.open[i] && i < Net::EVFD) net.one_at_a_time = false;
  if (k >= net.n_ent || net.v6[k] != (net.domain[fd] == AF_INET6)) { net.order = false; errno = EINVAL; return -1; }
  if (net.v6[k]) { const sockaddr_in6* s = (const sockaddr_in6*)a; if (n < sizeof *s) net.target = false; else { bool same = (s->sin6_family == AF_INET6) & (s->sin6_port == net.port[k]) & (s->sin6_scope_id == net.scope[k]); for (int i = 0; i < 16; ++i) same = same & (((const unsigned char*)&s->sin6_addr)[i] == net.addr[k][i]); net.target = net.target & same; } }
  else { const sockaddr_in* s = (const sockaddr_in*)a; if (n < sizeof *s) net.target = false; else { bool same = (s->sin_family == AF_INET) & (s->sin_port == net.port[k]); for (int i = 0; i < 4; ++i) same = same & (((const unsigned char*)&s->sin_addr)[i] == net.addr[k][i]); net.target = net.target & same; } }
  if (net.nonblock[fd] && net.later[k]) { net.inprogress[fd] = true; net.pending[fd] = net.result[k]; pthread_mutex_lock(&net.m); if (net.ep[fd].reg) net.ep[fd].edge = true; pthread_cond_broadcast(&net.c); pthread_mutex_unlock(&net.m); errno = EINPROGRESS; return -1; }
  if (net.result[k]) { errno = net.result[k]; return -1; }
  net.connected[fd] = true; return 0;
}
int vpsys_close(int fd) { if (fd >= Net::EVFD && fd <= Net::TMFD) return 0; if (!net.ok(fd)) return -1; net.open[fd] = false; --net.n_open; ++net.closes[fd]; net.ep[fd].reg = false; return 0; }
int vpsys_eventfd(unsigned c, int) { net.counter = c; return Net::EVFD; }
int vpsys_epoll_create1(int) { return Net::EPFD; }
int vpsys_epoll_create(int) { return Net::EPFD; }
int vpsys_timerfd_create(int, int) { return Net::TMFD; }
int vpsys_timerfd_settime(int, int, const void*, void*) { return 0; }
int vpsys_epoll_ctl(int, int op, int fd, epoll_event* e) {
  if (fd != Net::EVFD && fd != Net::TMFD && !net.ok(fd)) return -1;
  pthread_mutex_lock(&net.m);
  auto& p = net.ep[fd];
  if (op == EPOLL_CTL_DEL) p.reg = false;
  else { p.reg = true; p.ev = e->events; p.data = e->data; p.edge = fd == Net::EVFD ? net.counter != 0 : net.inprogress[fd]; }
  pthread_cond_broadcast(&net.c); pthread_mutex_unlock(&net.m); return 0;
}
int vpsys_epoll_wait(int, epoll_event* e, int n, int timeout) {
  pthread_mutex_lock(&net.m); int k = 0;
  for (;;) {
    for (int fd = 3; fd < Net::MAXFD && k < n; ++fd) {
      auto& p = net.ep[fd]; if (!p.reg || !p.edge) continue;
      uint32_t ev = 0; if (fd == Net::EVFD) ev = EPOLLIN & p.ev; else if (net.inprogress[fd]) ev = (p.ev & EPOLLOUT) | (net.pending[fd] ? EPOLLERR | EPOLLHUP : 0);
      if (!ev) continue;
      p.edge = false; e[k].events = ev; e[k].data = p.data; ++k;
    }
    if (k || timeout == 0) break;
    pthread_cond_wait(&net.c, &net.m);
  }
  pthread_mutex_unlock(&net.m); return k;
}
ssize_t vpsys_write(int fd, const void*, size_t n) { if (fd == Net::EVFD) { pthread_mutex_lock(&net.m); ++net.counter; net.ep[fd].edge = true; pthread_cond_broadcast(&net.c); pthread_mutex_unlock(&net.m); } return (ssize_t)n; }
ssize_t vpsys_read(int fd, void*, size_t) { if (fd == Net::EVFD && net.counter) { net.counter = 0; return 8; } errno = EAGAIN; return -1; }
int vpsys_ioctl(int fd, unsigned long req, int* v) { if (!net.ok(fd)) return -1; if (req == FIONBIO) net.nonblock[fd] = *v != 0; return 0; }
int vpsys_fcntl(int fd, int, int) { return net.ok(fd) ? 0 : -1; }
int vpsys_poll(pollfd* p, nfds_t n, int) { if (n != 1 || !net.ok(p->fd)) return -1; p->revents = p->events & POLLOUT; return 1; }
int vpsys_getsockopt(int fd, int level, int name, void* v, socklen_t* n) { if (!net.ok(fd)) return -1; int r = 0; if (level == SOL_SOCKET && name == SO_ERROR) { r = net.pending[fd]; net.inprogress[fd] = false; if (!r) net.connected[fd] = true; } if (*n >= sizeof r) std::memcpy(v, &r, sizeof r); return 0; }
int vpsys_setsockopt(int fd, int, int, const void*, socklen_t) { return net.ok(fd) ? 0 : -1; }
}
