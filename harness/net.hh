// Runs a UDP tool of the repository in a child process, on the loopback interface.
#pragma once
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include "pbt.hh"
#include "wire.hh"

namespace net {

using bytes = ref::bytes;

struct socket_
{
  int fd; std::uint16_t port; sockaddr_in peer{}; bool has_peer = false;
  socket_()
  {
    fd = ::socket(AF_INET, SOCK_DGRAM, 0);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int sz = 1 << 20; setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
    if (fd < 0 or bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) { perror("bind"); _exit(3); }
    socklen_t l = sizeof a; getsockname(fd, reinterpret_cast<sockaddr*>(&a), &l);
    port = ntohs(a.sin_port);
  }
  socket_(const socket_&) = delete;
  ~socket_() { ::close(fd); }
  void to(std::uint16_t p) { peer = sockaddr_in{}; peer.sin_family = AF_INET; peer.sin_addr.s_addr = htonl(INADDR_LOOPBACK); peer.sin_port = htons(p); has_peer = true; }
  void send(const bytes& b) { (void)!::sendto(fd, b.data(), b.size(), 0, reinterpret_cast<sockaddr*>(&peer), sizeof peer); }
  // false: nothing within the time
  template <typename Alive>
  bool receive(bytes& b, int ms, Alive&& alive)
  {
    pollfd pf{fd, POLLIN, 0};
    const auto until = pbt::now_s() + ms / 1000.;
    while (true)
    {
      const auto left = static_cast<int>((until - pbt::now_s()) * 1000);
      const auto r = poll(&pf, 1, std::min(std::max(left, 0), 200));
      if (r == 0 and (left <= 0 or not alive())) return false;
      if (r == 0) continue;
      if (r < 0) continue;   // interrupted
      b.resize(70000);
      sockaddr_in from{}; socklen_t l = sizeof from;
      const auto n = ::recvfrom(fd, &b[0], b.size(), MSG_DONTWAIT, reinterpret_cast<sockaddr*>(&from), &l);
      if (n < 0) continue;
      b.resize(static_cast<std::size_t>(n));
      peer = from; has_peer = true;
      return true;
    }
  }
  bool receive(bytes& b, int ms) { return receive(b, ms, [] { return true; }); }
};

struct tool
{
  pid_t pid = -1; std::uint16_t port = 0; int lock = -1;
  // A port which no other case uses: it's out of the range of those the system chooses, and an abstract address of its own is bound.
  void choose()
  {
    static unsigned n = 0;
    while (true)
    {
      if (lock >= 0) ::close(lock);
      port = static_cast<std::uint16_t>(2000 + (static_cast<unsigned>(getpid()) * 101u + n++ * 7u) % 28000u);
      lock = ::socket(AF_UNIX, SOCK_DGRAM, 0);
      sockaddr_un u{}; u.sun_family = AF_UNIX;
      const auto l = std::snprintf(u.sun_path + 1, sizeof u.sun_path - 1, "netcode-verif-port-%u", port);
      if (bind(lock, reinterpret_cast<sockaddr*>(&u), static_cast<socklen_t>(offsetof(sockaddr_un, sun_path) + 1 + static_cast<std::size_t>(l))) != 0) continue;
      const int fd = ::socket(AF_INET, SOCK_DGRAM, 0);
      sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY); a.sin_port = htons(port);
      const bool free = bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0;
      ::close(fd);
      if (free) return;
    }
  }
  // run(port) is called in the child, and shouldn't return.
  template <typename F>
  explicit tool(F&& run)
  {
    for (unsigned k = 0; k < 8; ++k)
    {
      choose();
      pid = fork();
      if (pid < 0) { perror("fork"); _exit(3); }
      if (pid == 0)
      {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        run(port);
        _exit(0);
      }
      // Wait for the port to be open: empty datagrams, which tools ignore, are refused until then.
      const int fd = ::socket(AF_INET, SOCK_DGRAM, 0);
      sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
      (void)!connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
      bool open = false;
      const auto until = pbt::now_s() + 30;
      while (not open and pbt::now_s() < until and alive())
      {
        char c;
        if (::send(fd, "", 0, 0) == 0)
        {
          usleep(500);
          open = ::recv(fd, &c, 1, MSG_DONTWAIT) < 0 and (errno == EAGAIN or errno == EWOULDBLOCK);
        }
        else usleep(1000);
      }
      ::close(fd);
      if (open and alive()) return;
      stop();   // the port may have been taken meanwhile: again, with another one
    }
    pbt::fail("the tool doesn't start");
  }
  // While it's frozen, a tool sees nothing of what is sent to it.
  void freeze() { if (alive() and kill(pid, SIGSTOP) == 0) { int st; while (waitpid(pid, &st, WUNTRACED) < 0 and errno == EINTR) {} if (not WIFSTOPPED(st)) pid = -1; } }
  void resume() { if (pid > 0) kill(pid, SIGCONT); }
  bool alive() { int st; if (pid > 0 and waitpid(pid, &st, WNOHANG) == pid) pid = -1; return pid > 0; }
  void stop() { if (pid > 0) { kill(pid, SIGKILL); int st; while (waitpid(pid, &st, 0) < 0 and errno == EINTR) {} pid = -1; } }
  tool(const tool&) = delete;
  ~tool() { stop(); ::close(lock); }
};

} // namespace net
