// The real server binary under its monitors: framing, JSON, documented statuses and codes, echoed request, liveness.
#pragma once
#include "http.hpp"
#include "runner.hpp"
#include <nlohmann/json.hpp>

struct Ans {
  bool got = false;      // complete, parsed answer
  int http = 0;
  nlohmann::json j;
  std::string raw;
  std::string status() const { return got && j.is_object() ? j.value("status", std::string()) : std::string(); }
};

class Live {
public:
  bool euclid = false; // start with --useEuclideanDistance
  Live(Case& c, const char* binaryEnv = "VERIF_SERVER_ASAN");
  OsrmStub stub;
  ServerProcess srv;
  nlohmann::json context;  // added to the detail of every violation
  std::string history;     // requests sent so far (short)
  // False when the server did not come up; a death at start-up is a violation
  bool up(const std::string& dir, int threads = 2, bool cacheAll = false, const std::string& what = "start-up");
  void down() { srv.stop(); dead_ = false; }
  bool dead() const { return dead_; }
  // Any GET: exactly one complete response with a JSON object
  Ans get(const std::string& target);
  // /v2/*: documented status, HTTP status and codes
  Ans api(const std::string& target, int kind);
  // A request of the generator: api + echo of the request
  Ans ask(const m::Dataset& d, const m::Query& q);
  // Monitors only (for replies received elsewhere, e.g. on several threads)
  Ans judgeFraming(const std::string& target, const HttpReply& r);
  void judgeApi(const std::string& target, int kind, Ans& a);
  void judgeEcho(const m::Dataset& d, const m::Query& q, const Ans& a);
  bool checkAlive(const std::string& after);
private:
  void bad(const std::string& key, const std::string& msg, const std::string& target, const std::string& got);
  Case& c_;
  std::string binary_, logFile_;
  bool dead_ = false;
};

// Answers in a canonical order (accessibility nodes and summary lines sorted)
nlohmann::json canonical(nlohmann::json j);
// Summary answer against the route answer to the same parameters
void checkSummary(Case& c, const m::Dataset& d, const m::Query& q, const nlohmann::json& route, const nlohmann::json& summary);
