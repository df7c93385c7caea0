// Loopback HTTP: raw client, walking-router stub, server process control.
#pragma once
#include "model.hpp"
#include <atomic>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <sys/types.h>

struct HttpReply {
  bool connected = false;
  bool complete = false;      // status line, headers and Content-Length bytes all there
  std::string problem;        // why not complete
  int status = 0;
  std::string reason;
  std::vector<std::pair<std::string, std::string>> headers;
  std::string body;
  long contentLength = -1;
  bool extraBytes = false;    // bytes after the declared body
};
// One GET on a connection of its own. timeout in seconds.
HttpReply httpGet(int port, const std::string& target, double timeout = 30);
// Several pipelined/sequential GETs on one keep-alive connection
std::vector<HttpReply> httpGetMany(int port, const std::vector<std::string>& targets, double timeout = 30);

class OsrmStub {
public:
  OsrmStub();
  ~OsrmStub();
  int start(int port = 0);     // returns the port
  void stop();                 // closes the listening socket and all connections
  int port() const { return port_; }
  void setData(const m::Dataset& d);
  // Fault injected into the next answers; "" = behave. nth: only requests with (count % 2 == 0 / 1) etc. are decided by the caller
  void setFault(const std::string& f, int skip = 0, int times = -1);
  long requests() const { return requests_; }
  long faulted() const { return faulted_; }
private:
  void loop();
  void serve(int fd);
  std::atomic<bool> stop_{false};
  std::atomic<long> requests_{0}, faulted_{0};
  int listen_ = -1, port_ = 0;
  std::thread th_;
  std::mutex mu_;
  std::string fault_;
  int skip_ = 0, times_ = -1;
  std::vector<std::pair<std::pair<int, int>, int>> nodeAt_; // (lat,lon) -> node
  m::Dataset data_;
};

class PortLease;
class ServerProcess {
public:
  ~ServerProcess() { stop(); }
  // Starts the real server binary; false when it did not start listening (see died/log)
  bool start(const std::string& binary, const std::string& cacheDir, int osrmPort, int threads, bool cacheAll, const std::string& logFile, bool euclid = false, double waitSeconds = 60);
  bool startedOnce() const { return started_; }
  void stop();
  bool alive();
  int port() const { return port_; }
  int exitStatus() const { return status_; }
  std::string log() const;      // the part that matters
  std::string wholeLog() const;
  pid_t pid() const { return pid_; }
private:
  pid_t pid_ = 0;
  int port_ = 0, status_ = 0;
  bool started_ = false;
  std::unique_ptr<PortLease> lease_;
  std::string logFile_;
};
// A TCP port below the ephemeral range that only this process uses while the lease lives (lock file in /tmp/verif-ports)
class PortLease {
public:
  PortLease();
  ~PortLease();
  PortLease(const PortLease&) = delete;
  PortLease& operator=(const PortLease&) = delete;
  int port() const { return port_; }
private:
  int port_ = 0, fd_ = -1;
};
