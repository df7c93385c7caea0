#include "http.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sstream>
#include <stdexcept>
#include <sys/file.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static double mono() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static int connectTo(int port, double timeout) {
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (fd < 0) return -1;
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  timeval tv{(time_t)timeout, 0};
  setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
  if (connect(fd, (sockaddr*)&a, sizeof a) != 0) { close(fd); return -1; }
  int one = 1;
  setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  return fd;
}
static bool sendAll(int fd, const std::string& s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL);
    if (n <= 0) { if (n < 0 && errno == EINTR) continue; return false; }
    o += n;
  }
  return true;
}
// >0 bytes read, 0 end of stream, -1 error, -2 timeout
static int recvSome(int fd, std::string& buf, double until) {
  for (;;) {
    double left = until - mono();
    if (left <= 0) return -2;
    pollfd p{fd, POLLIN, 0};
    int r = poll(&p, 1, (int)std::min(left * 1000 + 1, 1e9));
    if (r < 0 && errno == EINTR) continue;
    if (r == 0) return -2;
    char tmp[65536];
    ssize_t n = recv(fd, tmp, sizeof tmp, 0);
    if (n < 0 && errno == EINTR) continue;
    if (n < 0) return -1;
    buf.append(tmp, n);
    return (int)n;
  }
}
static std::string lower(std::string s) { for (auto& c : s) c = tolower((unsigned char)c); return s; }

// Reads one response; leftover bytes stay in buf
static void readReply(int fd, std::string& buf, HttpReply& r, double until) {
  size_t h;
  while ((h = buf.find("\r\n\r\n")) == std::string::npos) {
    int n = recvSome(fd, buf, until);
    if (n == -2) { r.problem = "timeout waiting for the response head"; return; }
    if (n <= 0) { r.problem = buf.empty() ? "connection closed without a response" : "connection closed inside the response head: " + buf.substr(0, 200); return; }
  }
  std::string head = buf.substr(0, h);
  buf.erase(0, h + 4);
  std::stringstream ss(head);
  std::string line;
  std::getline(ss, line);
  if (!line.empty() && line.back() == '\r') line.pop_back();
  if (line.rfind("HTTP/1.", 0) != 0 || line.size() < 12 || !isdigit((unsigned char)line[9]) || !isdigit((unsigned char)line[10]) || !isdigit((unsigned char)line[11])) { r.problem = "bad status line: " + line; return; }
  r.status = atoi(line.c_str() + 9);
  r.reason = line.size() > 13 ? line.substr(13) : "";
  int cl = 0;
  while (std::getline(ss, line)) {
    if (!line.empty() && line.back() == '\r') line.pop_back();
    size_t c = line.find(':');
    if (c == std::string::npos) { r.problem = "bad header line: " + line; return; }
    std::string k = lower(line.substr(0, c)), v = line.substr(c + 1);
    while (!v.empty() && v[0] == ' ') v.erase(0, 1);
    r.headers.push_back({k, v});
    if (k == "content-length") {
      cl++;
      char* e;
      r.contentLength = strtol(v.c_str(), &e, 10);
      if (*e || v.empty()) { r.problem = "bad Content-Length: " + v; return; }
    }
  }
  if (cl != 1) { r.problem = std::to_string(cl) + " Content-Length headers"; return; }
  while ((long)buf.size() < r.contentLength) {
    int n = recvSome(fd, buf, until);
    if (n == -2) { r.problem = "timeout: " + std::to_string(buf.size()) + " of " + std::to_string(r.contentLength) + " body bytes"; return; }
    if (n <= 0) { r.problem = "closed after " + std::to_string(buf.size()) + " of " + std::to_string(r.contentLength) + " body bytes"; return; }
  }
  r.body = buf.substr(0, r.contentLength);
  buf.erase(0, r.contentLength);
  r.complete = true;
}

HttpReply httpGet(int port, const std::string& target, double timeout) {
  HttpReply r;
  int fd = connectTo(port, timeout);
  if (fd < 0) { r.problem = std::string("connect: ") + strerror(errno); return r; }
  r.connected = true;
  double until = mono() + timeout;
  if (!sendAll(fd, "GET " + target + " HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n")) { r.problem = "send failed"; close(fd); return r; }
  std::string buf;
  readReply(fd, buf, r, until);
  if (r.complete) {
    // the server closes after "Connection: close"; anything beyond the declared length is a framing error
    while (recvSome(fd, buf, std::min(until, mono() + 5)) > 0) {}
    if (!buf.empty()) { r.extraBytes = true; r.problem = "bytes after the declared body: " + buf.substr(0, 80); }
  }
  close(fd);
  return r;
}

std::vector<HttpReply> httpGetMany(int port, const std::vector<std::string>& targets, double timeout) {
  std::vector<HttpReply> out;
  int fd = connectTo(port, timeout);
  std::string buf;
  for (size_t i = 0; i < targets.size(); i++) {
    HttpReply r;
    if (fd < 0) { r.problem = "connect failed"; out.push_back(r); continue; }
    r.connected = true;
    if (!sendAll(fd, "GET " + targets[i] + " HTTP/1.1\r\nHost: localhost\r\n\r\n")) r.problem = "send failed";
    else readReply(fd, buf, r, mono() + timeout);
    bool ok = r.complete;
    out.push_back(r);
    if (!ok) { close(fd); fd = -1; }
  }
  if (fd >= 0) {
    if (!out.empty() && !buf.empty()) out.back().extraBytes = true;
    close(fd);
  }
  return out;
}

PortLease::PortLease() {
  static Rng r((uint64_t)getpid() * 1000003 + (uint64_t)(mono() * 1e6));
  static pid_t owner = getpid();
  if (owner != getpid()) { owner = getpid(); r = Rng((uint64_t)getpid() * 1000003 + (uint64_t)(mono() * 1e6)); }
  mkdir("/tmp/verif-ports", 0777);
  for (int tries = 0; tries < 2000; tries++) {
    int p = r.range(10000, 32000);
    int fd = open(("/tmp/verif-ports/" + std::to_string(p)).c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0666);
    if (fd < 0) continue;
    if (flock(fd, LOCK_EX | LOCK_NB) != 0) { close(fd); continue; }
    int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    int one = 1;
    setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(p);
    a.sin_addr.s_addr = htonl(INADDR_ANY);
    bool ok = bind(s, (sockaddr*)&a, sizeof a) == 0;
    close(s);
    if (!ok) { close(fd); continue; }
    port_ = p;
    fd_ = fd;
    return;
  }
  throw std::runtime_error("no free port");
}
PortLease::~PortLease() { if (fd_ >= 0) close(fd_); }

// ---------------------------------------------------------------------------------------------
OsrmStub::OsrmStub() {}
OsrmStub::~OsrmStub() { stop(); }
int OsrmStub::start(int port) {
  stop();
  stop_ = false;
  listen_ = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  int one = 1;
  setsockopt(listen_, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (bind(listen_, (sockaddr*)&a, sizeof a) != 0 || listen(listen_, 128) != 0) { close(listen_); listen_ = -1; return 0; }
  socklen_t l = sizeof a;
  getsockname(listen_, (sockaddr*)&a, &l);
  port_ = ntohs(a.sin_port);
  th_ = std::thread([this] { loop(); });
  return port_;
}
void OsrmStub::stop() {
  stop_ = true;
  if (listen_ >= 0) shutdown(listen_, SHUT_RDWR);
  if (th_.joinable()) th_.join();
  if (listen_ >= 0) close(listen_);
  listen_ = -1;
}
void OsrmStub::setData(const m::Dataset& d) {
  std::lock_guard<std::mutex> g(mu_);
  data_.places = d.places;
  data_.nodes = d.nodes;
  nodeAt_.clear();
  for (size_t i = 0; i < d.nodes.size(); i++) nodeAt_.push_back({{d.nodes[i].latE6, d.nodes[i].lonE6}, (int)i});
}
void OsrmStub::setFault(const std::string& f, int skip, int times) {
  std::lock_guard<std::mutex> g(mu_);
  fault_ = f;
  skip_ = skip;
  times_ = times;
}
void OsrmStub::loop() {
  std::vector<std::thread> ths;
  while (!stop_) {
    pollfd p{listen_, POLLIN, 0};
    if (poll(&p, 1, 100) <= 0) continue;
    int fd = accept4(listen_, nullptr, nullptr, SOCK_CLOEXEC);
    if (fd < 0) continue;
    ths.emplace_back([this, fd] { serve(fd); close(fd); });
    if (ths.size() > 64) { for (auto& t : ths) t.join(); ths.clear(); }
  }
  for (auto& t : ths) t.join();
}
static void hardClose(int fd) {
  linger l{1, 0}; // RST instead of FIN
  setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
}
void OsrmStub::serve(int fd) {
  std::string fault;
  {
    std::lock_guard<std::mutex> g(mu_);
    if (!fault_.empty()) {
      if (skip_ > 0) skip_--;
      else if (times_ != 0) { fault = fault_; if (times_ > 0) times_--; }
    }
  }
  requests_++;
  if (!fault.empty()) faulted_++;
  if (fault == "drop") return;
  if (fault == "reset") { hardClose(fd); return; }
  std::string buf;
  double until = mono() + 20;
  while (buf.find("\r\n\r\n") == std::string::npos) if (recvSome(fd, buf, until) <= 0) return;
  if (fault == "drop_after_request") return;
  if (fault == "reset_after_request") { hardClose(fd); return; }
  // GET /table/v1/walking/lon,lat;lon,lat;...?...
  std::vector<std::pair<int, int>> pts;
  size_t p = buf.find("/walking/"), e = buf.find('?');
  if (p != std::string::npos && e != std::string::npos && p < e) {
    std::stringstream ss(buf.substr(p + 9, e - p - 9));
    std::string item;
    while (std::getline(ss, item, ';')) {
      size_t c = item.find(',');
      if (c == std::string::npos) continue;
      pts.push_back({(int)std::llround(atof(item.c_str() + c + 1) * 1e6), (int)std::llround(atof(item.c_str()) * 1e6)});
    }
  }
  std::vector<std::string> dur{"0"}, dis{"0"};
  {
    std::lock_guard<std::mutex> g(mu_);
    const m::Place* pl = nullptr;
    if (!pts.empty()) for (auto& q : data_.places) if (q.latE6 == pts[0].first && q.lonE6 == pts[0].second) { pl = &q; break; }
    for (size_t i = 1; i < pts.size(); i++) {
      int node = -1, t = 99999, di = 99999;
      for (auto& n : nodeAt_) if (n.first == pts[i]) { node = n.second; break; }
      if (pl) for (auto& a : pl->acc) if (a.node == node) { t = a.time; di = a.dist; }
      // fractional values that round up to the table value
      char b[40];
      if (t > 0 && i % 2) snprintf(b, sizeof b, "%d.%d", t - 1, 3 + (int)(i % 6)); else snprintf(b, sizeof b, "%d", t);
      dur.push_back(b);
      if (di > 0 && i % 3) snprintf(b, sizeof b, "%d.%d", di - 1, 2 + (int)(i % 7)); else snprintf(b, sizeof b, "%d", di);
      dis.push_back(b);
    }
  }
  auto join = [](const std::vector<std::string>& v) { std::string s; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += v[i]; } return s; };
  std::string body, status = "200 OK", head;
  auto table = [&] { return "{\"code\":\"Ok\",\"durations\":[[" + join(dur) + "]],\"distances\":[[" + join(dis) + "]]}"; };
  long declared = -1;
  const size_t n = dur.size();
  if (fault == "status500") { status = "500 Internal Server Error"; body = "oops"; }
  else if (fault == "status400") { status = "400 Bad Request"; body = "{\"code\":\"NoSegment\",\"message\":\"Could not find a matching segment\"}"; }
  else if (fault == "status503_html") { status = "503 Service Unavailable"; body = "<html><body>busy</body></html>"; }
  else if (fault == "status204") { status = "204 No Content"; body = ""; }
  else if (fault == "status500_table") { status = "500 Internal Server Error"; body = table(); }
  else if (fault == "empty") body = "";
  else if (fault == "nonjson") body = "this is not json";
  else if (fault == "html") body = "<html><body>proxy</body></html>";
  else if (fault == "binary") body = std::string("\x00\xff\xfe\x01{[", 6);
  else if (fault == "half_json") { body = table(); body = body.substr(0, body.size() / 2); }
  else if (fault == "code_only") body = "{\"code\":\"NoTable\"}";
  else if (fault == "no_durations") body = "{\"code\":\"Ok\",\"distances\":[[" + join(dis) + "]]}";
  else if (fault == "no_distances") body = "{\"code\":\"Ok\",\"durations\":[[" + join(dur) + "]]}";
  else if (fault == "null_durations") body = "{\"code\":\"Ok\",\"durations\":null,\"distances\":null}";
  else if (fault == "null_row") body = "{\"code\":\"Ok\",\"durations\":[null],\"distances\":[null]}";
  else if (fault == "empty_rows") body = "{\"code\":\"Ok\",\"durations\":[],\"distances\":[]}";
  else if (fault == "empty_row") body = "{\"code\":\"Ok\",\"durations\":[[]],\"distances\":[[]]}";
  else if (fault == "null_entries") { for (size_t i = 1; i < n; i++) dur[i] = dis[i] = "null"; body = table(); }
  else if (fault == "null_one") { size_t i = n > 1 ? 1 + (size_t)requests_ % (n - 1) : 0; dur[i] = dis[i] = "null"; body = table(); }
  else if (fault == "null_distance_one") { size_t i = n > 1 ? 1 + (size_t)requests_ % (n - 1) : 0; dis[i] = "null"; body = table(); }
  else if (fault == "null_distances_row") body = "{\"code\":\"Ok\",\"durations\":[[" + join(dur) + "]],\"distances\":[null]}";
  else if (fault == "fewer") { dur.resize(std::max<size_t>(1, n / 2)); dis.resize(dur.size()); body = table(); }
  else if (fault == "fewer_distances") { dis.resize(std::max<size_t>(1, n / 2)); body = table(); }
  else if (fault == "more") { dur.resize(n + 2000, "0"); dis.resize(n + 2000, "0"); body = table(); }
  else if (fault == "more_durations") { dur.resize(n + 2000, "0"); body = table(); }
  else if (fault == "fewer_durations") { dur.resize(std::max<size_t>(1, n / 2)); body = table(); }
  else if (fault == "only_first") { dur.resize(1); dis.resize(1); body = table(); }
  else if (fault == "string_entries") { for (size_t i = 1; i < n; i++) dur[i] = "\"" + dur[i] + "\""; body = table(); }
  else if (fault == "scalar_durations") body = "{\"code\":\"Ok\",\"durations\":5,\"distances\":7}";
  else if (fault == "array_top") body = "[]";
  else if (fault == "number_top") body = "42";
  else if (fault == "null_top") body = "null";
  else if (fault == "string_durations") body = "{\"code\":\"Ok\",\"durations\":\"x\",\"distances\":\"y\"}";
  else body = table();
  if (fault == "truncate_body") { declared = body.size(); body = body.substr(0, body.size() / 2); }
  if (fault == "truncate_body_all") { declared = body.size(); body = ""; }
  if (fault == "truncate_head") { sendAll(fd, "HTTP/1.1 200 OK\r\nContent-Ty"); return; }
  if (fault == "bad_status_line") { sendAll(fd, "garbage\r\n\r\n" + body); return; }
  if (fault == "negative_length") { sendAll(fd, "HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\n" + body.substr(0, body.size() / 2)); return; }
  if (fault == "huge_length") { sendAll(fd, "HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999999\r\n\r\n" + body); return; }
  if (fault == "huge_chunk") { sendAll(fd, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\n" + body.substr(0, body.size() / 2)); return; }
  if (fault == "bad_length") { sendAll(fd, "HTTP/1.1 200 OK\r\nContent-Length: banana\r\n\r\n" + body); return; }
  if (fault == "chunked_bad") { sendAll(fd, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" + body); return; }
  if (fault == "chunked_truncated") { sendAll(fd, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n10\r\n{\"code\""); return; }
  if (fault == "no_length") { sendAll(fd, "HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n" + body.substr(0, body.size() / 2)); return; }
  head = "HTTP/1.1 " + status + "\r\nContent-Type: application/json\r\nConnection: close\r\nContent-Length: " + std::to_string(declared >= 0 ? declared : (long)body.size()) + "\r\n\r\n";
  sendAll(fd, head + body);
  shutdown(fd, SHUT_WR);
  // let the peer read everything before the descriptor goes away
  std::string rest;
  while (recvSome(fd, rest, mono() + 2) > 0) {}
}

// ---------------------------------------------------------------------------------------------
bool ServerProcess::start(const std::string& binary, const std::string& cacheDir, int osrmPort, int threads, bool cacheAll, const std::string& logFile, bool euclid, double waitSeconds) {
  stop();
  logFile_ = logFile;
  started_ = false;
  lease_ = std::make_unique<PortLease>();
  port_ = lease_->port();
  status_ = 0;
  std::vector<std::string> av{binary, "--port=" + std::to_string(port_), "--cachePath=" + cacheDir, "--threads=" + std::to_string(threads),
                              "--osrmWalkPort=" + std::to_string(osrmPort), "--osrmWalkHost=127.0.0.1", std::string("--cacheAllConnectionSets=") + (cacheAll ? "1" : "0")};
  if (euclid) av.push_back("--useEuclideanDistance=1");
  pid_t parent = getpid();
  pid_ = fork();
  if (pid_ == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(1);
    int fd = open(logFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
    std::vector<char*> a;
    for (auto& s : av) a.push_back((char*)s.c_str());
    a.push_back(nullptr);
    execv(binary.c_str(), a.data());
    _exit(127);
  }
  double until = mono() + waitSeconds;
  while (mono() < until) {
    if (!alive()) return false;
    int fd = connectTo(port_, 1);
    if (fd >= 0) { close(fd); started_ = true; return alive(); }
    usleep(5000);
  }
  return false;
}
bool ServerProcess::alive() {
  if (!pid_) return false;
  int st;
  pid_t r = waitpid(pid_, &st, WNOHANG);
  if (r == pid_) { status_ = st; pid_ = 0; return false; }
  return r == 0;
}
void ServerProcess::stop() {
  if (pid_) {
    kill(pid_, SIGKILL);
    waitpid(pid_, &status_, 0);
    pid_ = 0;
  }
}
std::string ServerProcess::wholeLog() const {
  std::ifstream f(logFile_);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
std::string ServerProcess::log() const {
  std::ifstream f(logFile_);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  if (s.size() > 6000) {
    size_t p = s.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = s.find("runtime error:");
    if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
    if (p == std::string::npos) p = s.find("terminate called");
    if (p != std::string::npos) return s.substr(p, 6000);
    return s.substr(s.size() - 6000);
  }
  return s;
}
