#include "seq.h"

#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <map>

#include <glog/logging.h>

namespace seq {
namespace {
struct Mirror {
  int line;          // being executed, -1 none
  int next;          // to be executed next by this worker
  unsigned n_ev, n_extra;
  char extra[1 << 12];
  char ev[1 << 23];
};
Mirror* g_m = nullptr;
bool g_print = false;

void onAlarm(int) { _exit(98); }

std::string record(const std::vector<std::string>& lines, const Mirror& m, const char* end) {
  std::string s = "{\"prog\":" + std::to_string(m.line) + ",\"desc\":" + quote(lines[m.line]) + ",\"end\":\"" + end + "\"";
  if (m.n_extra) s += "," + std::string(m.extra, m.n_extra);
  s += ",\"ev\":[" + std::string(m.ev, m.n_ev);
  if (strcmp(end, "ok") != 0) s += std::string(m.n_ev ? "," : "") + "{\"e\":\"" + end + "\"}";
  return s + "]}\n";
}

void worker(const std::vector<std::string>& lines, int step, const std::string& file,
            const std::function<void(const std::string&)>& body) {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGALRM, onAlarm);
  const int null_fd = open("/dev/null", O_WRONLY);
  dup2(null_fd, 1);
  if (!getenv("SEQ_VERBOSE")) dup2(null_fd, 2);
  FILE* out = fopen(file.c_str(), "a");
  if (!out) _exit(97);
  for (; g_m->next < static_cast<int>(lines.size());) {
    g_m->line = g_m->next;
    g_m->next += step;
    g_m->n_ev = g_m->n_extra = 0;
    alarm(30);
    body(lines[g_m->line]);
    alarm(0);
    const std::string r = record(lines, *g_m, "ok");
    g_m->line = -1;
    fwrite(r.data(), 1, r.size(), out);
    fflush(out);
  }
  fclose(out);
  _exit(0);
}
}  // namespace

std::string quote(const std::string& v) {
  std::string r = "\"";
  for (unsigned char c : v) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
std::string hex(const void* p, size_t n) {
  static const char d[] = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < n; ++i) {
    const unsigned char c = static_cast<const unsigned char*>(p)[i];
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r;
}
J& J::s(const char* k, const std::string& v) { return raw(k, quote(v)); }
J& J::text(const char* k, const std::string& v) {
  std::vector<int> c;
  for (unsigned char x : v) c.push_back(x);
  return list(k, c);
}
void emit(const J& j) {
  const std::string s = j.str();
  if (g_print) { std::cout << s << std::endl; return; }
  if (g_m->n_ev + s.size() + 1 >= sizeof(g_m->ev)) _exit(96);
  if (g_m->n_ev) g_m->ev[g_m->n_ev++] = ',';
  memcpy(g_m->ev + g_m->n_ev, s.data(), s.size());
  g_m->n_ev += s.size();
}
void extra(const std::string& s) {
  if (g_print) { std::cout << s << std::endl; return; }
  if (g_m->n_extra) g_m->extra[g_m->n_extra++] = ',';
  memcpy(g_m->extra + g_m->n_extra, s.data(), s.size());
  g_m->n_extra += s.size();
}

int run(int argc, char** argv, const std::function<void(const std::string&)>& body) {
  google::InitGoogleLogging(argv[0]);
  if (argc == 3 && std::string(argv[1]) == "replay") {
    g_print = true;
    body(argv[2]);
    return 0;
  }
  std::vector<std::string> lines;
  std::ifstream in(argv[2]);
  for (std::string l; std::getline(in, l);) if (!l.empty()) lines.push_back(l);
  const int jobs = 8;
  std::map<pid_t, int> running;
  std::vector<Mirror*> m(jobs);
  int failed = 0;
  auto start = [&](int j) {
    const pid_t pid = fork();
    if (pid == 0) {
      g_m = m[j];
      worker(lines, jobs, std::string(argv[1]) + "/part." + std::to_string(j), body);
    }
    running[pid] = j;
  };
  for (int j = 0; j < jobs; ++j) {
    m[j] = static_cast<Mirror*>(mmap(nullptr, sizeof(Mirror), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    m[j]->line = -1;
    m[j]->next = j;
    start(j);
  }
  while (!running.empty()) {
    int status = 0;
    const pid_t pid = waitpid(-1, &status, 0);
    if (pid <= 0 || !running.count(pid)) continue;
    const int j = running[pid];
    running.erase(pid);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
    const int code = WIFEXITED(status) ? WEXITSTATUS(status) : 0;
    if (m[j]->line < 0 || code == 97 || code == 96 || (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)) {
      fprintf(stderr, "worker ended abnormally (status %d)\n", status);
      ++failed;
      continue;
    }
    const std::string r = record(lines, *m[j], code == 98 ? "hang" : "crash");
    FILE* out = fopen((std::string(argv[1]) + "/part." + std::to_string(j)).c_str(), "a");
    if (!out) { ++failed; continue; }
    fwrite(r.data(), 1, r.size(), out);
    fclose(out);
    m[j]->line = -1;
    start(j);
  }
  return failed;
}

}  // namespace seq
