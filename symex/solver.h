// A child solver process driven through SMT-LIB text, with hard wall limits.
#pragma once
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <string>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

inline double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Solver {
  pid_t pid = -1;
  int in = -1, out = -1;
  std::string buf;
  std::vector<std::string> cmd;
  Solver(std::vector<std::string> c) : cmd(c) {}
  ~Solver() { stop(); }
  void stop() {
    if (pid > 0) {
      kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
      close(in);
      close(out);
      pid = -1;
    }
  }
  void start() {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) throw std::runtime_error("pipe");
    pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      dup2(a[0], 0);
      dup2(b[1], 1);
      close(a[0]); close(a[1]); close(b[0]); close(b[1]);
      std::vector<char *> av;
      for (auto &s : cmd) av.push_back((char *)s.c_str());
      av.push_back(nullptr);
      execvp(av[0], av.data());
      _exit(127);
    }
    close(a[0]);
    close(b[1]);
    in = a[1];
    out = b[0];
    fcntl(in, F_SETFL, O_NONBLOCK);
    buf.clear();
  }
  // sends text, reads until the sentinel; false on timeout/failure (process restarted)
  bool run(const std::string &text, std::string &reply, double wall) {
    if (pid < 0) start();
    std::string t = text + "\n(echo \"--done--\")\n";
    double end = nowS() + wall;
    size_t off = 0;
    reply.clear();
    std::string acc;
    while (true) {
      double left = end - nowS();
      if (left <= 0) { stop(); return false; }
      struct pollfd p[2] = {{out, POLLIN, 0}, {in, POLLOUT, 0}};
      int np = off < t.size() ? 2 : 1;
      int r = poll(p, np, (int)std::min(left * 1000 + 1, 1e6));
      if (r < 0) continue;
      if (np == 2 && (p[1].revents & (POLLOUT | POLLERR))) {
        ssize_t k = write(in, t.data() + off, t.size() - off);
        if (k < 0) { if (errno != EAGAIN) { stop(); return false; } }
        else off += k;
      }
      if (p[0].revents & (POLLIN | POLLHUP)) {
        char b[65536];
        ssize_t k = read(out, b, sizeof b);
        if (k <= 0) { stop(); return false; }
        acc.append(b, k);
        size_t pos = acc.find("--done--");
        if (pos != std::string::npos) {
          reply = acc.substr(0, pos);
          while (!reply.empty() && (reply.back() == '\n' || reply.back() == '"')) reply.pop_back();
          return true;
        }
      }
    }
  }
};
