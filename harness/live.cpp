#include "live.hpp"
#include "common.hpp"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <unistd.h>

using nlohmann::json;
using namespace m;

json canonical(json j) {
  if (!j.is_object() || !j.contains("result") || !j["result"].is_object()) return j;
  auto sortBy = [](json& a, const char* k) {
    if (a.is_array()) std::sort(a.begin(), a.end(), [k](const json& x, const json& y) { return x.value(k, std::string()) < y.value(k, std::string()); });
  };
  if (j["result"].contains("nodes")) sortBy(j["result"]["nodes"], "nodeUuid");
  if (j["result"].contains("lines")) sortBy(j["result"]["lines"], "lineUuid");
  return j;
}

Live::Live(Case& c, const char* env) : c_(c) {
  const char* b = getenv(env);
  binary_ = b ? b : "";
  if (binary_.empty()) { fprintf(stderr, "%s is not set\n", env); _exit(3); }
}

void Live::bad(const std::string& key, const std::string& msg, const std::string& target, const std::string& got) {
  json d = {{"target", target}, {"got", got.substr(0, 3000)}, {"history", history.size() > 4000 ? history.substr(history.size() - 4000) : history}};
  if (!context.is_null()) d["context"] = context;
  c_.violation(key, msg, d);
}

bool Live::up(const std::string& dir, int threads, bool cacheAll, const std::string& what) {
  dead_ = false;
  logFile_ = dir + ".log";
  for (int tries = 0; tries < 5; tries++) {
    if (srv.start(binary_, dir, stub.port(), threads, cacheAll, logFile_, euclid)) { c_.count("server_starts"); return true; }
    const bool died = !srv.alive();
    const std::string log = srv.log();
    if (died && log.find("Address already in use") != std::string::npos) { usleep(50000); continue; }
    dead_ = true;
    if (died) bad(crashKey(log, srv.exitStatus()), "the server ended during " + what + " instead of serving or reporting data errors", "(start)", log);
    else bad("start-hang", "the server did not start listening within 60 s during " + what, "(start)", log);
    return false;
  }
  fprintf(stderr, "no free port\n");
  _exit(3);
}

bool Live::checkAlive(const std::string& after) {
  if (dead_) return false;
  if (srv.alive()) return true;
  dead_ = true;
  const std::string log = srv.log();
  bad(crashKey(log, srv.exitStatus()), "the server process ended (" + after + ")", after, log);
  return false;
}

Ans Live::judgeFraming(const std::string& target, const HttpReply& r) {
  Ans a;
  if (dead_) return a;
  if (!r.complete) {
    // a sanitizer report takes a moment to end the process
    for (int i = 0; i < 100 && srv.alive(); i++) usleep(20000);
    if (!checkAlive("while answering " + target)) return a;
    bad("unanswered", "no complete response (" + r.problem + ")", target, r.reason + " " + r.body);
    return a;
  }
  c_.count("responses");
  a.http = r.status;
  a.raw = r.body;
  if (r.extraBytes) bad("extra-bytes", "bytes after the declared Content-Length", target, r.body);
  int ct = 0;
  std::string ctype;
  for (auto& h : r.headers) {
    std::string n = h.first;
    for (auto& ch : n) ch = tolower(ch);
    if (n == "content-length") ct++;
    if (n == "content-type") ctype = h.second;
  }
  if (ct != 1) bad("content-length-count", std::to_string(ct) + " Content-Length headers", target, r.body);
  if (ctype.find("application/json") == std::string::npos) bad("content-type", "Content-Type is " + ctype, target, r.body);
  a.j = json::parse(r.body, nullptr, false);
  if (a.j.is_discarded() || !a.j.is_object()) { bad("not-json", "the body is not a JSON object", target, r.body); return a; }
  a.got = true;
  return a;
}

Ans Live::get(const std::string& target) {
  if (dead_) return {};
  history += " " + target.substr(0, 300);
  return judgeFraming(target, httpGet(srv.port(), target, 60));
}

void Live::judgeApi(const std::string& target, int kind, Ans& a) {
  if (!a.got) return;
  static const std::set<std::string> routeCodes{"EMPTY_SCENARIO", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_ORIGIN", "MISSING_PARAM_DESTINATION", "MISSING_PARAM_TIME_OF_TRIP", "INVALID_ORIGIN", "INVALID_DESTINATION", "INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"};
  static const std::set<std::string> accessCodes{"EMPTY_SCENARIO", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_PLACE", "MISSING_PARAM_TIME_OF_TRIP", "INVALID_PLACE", "INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"};
  static const std::set<std::string> dataCodes{"DATA_ERROR", "MISSING_DATA_AGENCIES", "MISSING_DATA_SERVICES", "MISSING_DATA_NODES", "MISSING_DATA_LINES", "MISSING_DATA_PATHS", "MISSING_DATA_SCENARIOS", "MISSING_DATA_SCHEDULES"};
  static const std::set<std::string> routeReasons{"NO_ROUTING_FOUND", "NO_ACCESS_AT_ORIGIN", "NO_ACCESS_AT_DESTINATION", "NO_ACCESS_AT_ORIGIN_AND_DESTINATION", "NO_SERVICE_FROM_ORIGIN", "NO_SERVICE_TO_DESTINATION"};
  static const std::set<std::string> accessReasons{"NO_ROUTING_FOUND", "NO_ACCESS_AT_PLACE", "NO_SERVICE_AT_PLACE"};
  auto str = [&](const char* k) { return a.j.contains(k) && a.j[k].is_string() ? a.j[k].get<std::string>() : std::string("(none)"); };
  const std::string st = str("status");
  c_.count("status_" + st);
  const bool acc = kind == Query::ACCESS;
  int want = 200;
  if (st == "query_error") {
    want = 400;
    if (!(acc ? accessCodes : routeCodes).count(str("errorCode"))) bad("undocumented-error-code", "errorCode " + str("errorCode") + " is not documented for this endpoint", target, a.raw);
    else c_.count("code_" + str("errorCode"));
  } else if (st == "data_error") {
    if (!dataCodes.count(str("errorCode"))) bad("undocumented-data-code", "errorCode " + str("errorCode") + " is not documented for data_error", target, a.raw);
    else c_.count("code_" + str("errorCode"));
  } else if (st == "no_routing_found") {
    if (kind == Query::SUMMARY) bad("summary-status", "summary answers status no_routing_found", target, a.raw);
    else if (!(acc ? accessReasons : routeReasons).count(str("reason"))) bad("undocumented-reason", "reason " + str("reason") + " is not documented for this endpoint", target, a.raw);
  } else if (st == "success") {
    if (!a.j.contains("result") || !a.j["result"].is_object()) bad("no-result", "status success without a result object", target, a.raw);
  } else bad("undocumented-status", "status " + st, target, a.raw);
  if (a.http != want) bad("http-status", "HTTP " + std::to_string(a.http) + " with status " + st, target, a.raw);
}

Ans Live::api(const std::string& target, int kind) {
  Ans a = get(target);
  judgeApi(target, kind, a);
  return a;
}

void Live::judgeEcho(const Dataset& d, const Query& q, const Ans& a) {
  if (!a.got || (a.status() != "success" && a.status() != "no_routing_found")) return;
  auto fail = [&](const std::string& f) { bad("echo-" + f, "the request is not echoed: field " + f, q.url(d), a.raw); };
  if (!a.j.contains("query") || !a.j["query"].is_object()) { fail("query"); return; }
  const json& e = a.j["query"];
  auto point = [&](const char* f, const Place& p) {
    if (!e.contains(f) || !e[f].is_array() || e[f].size() != 2 || !e[f][0].is_number() || !e[f][1].is_number() ||
        std::fabs(e[f][0].get<double>() - p.lonE6 / 1e6) > 1e-9 || std::fabs(e[f][1].get<double>() - p.latE6 / 1e6) > 1e-9) fail(f);
  };
  if (q.kind == Query::ACCESS) point("place", d.places[q.origin]);
  else { point("origin", d.places[q.origin]); point("destination", d.places[q.destination]); }
  if (!e.contains("timeOfTrip") || e["timeOfTrip"] != q.time) fail("timeOfTrip");
  if (!e.contains("timeType") || e["timeType"] != (q.arrival ? 1 : 0)) fail("timeType");
  c_.count("echoes_checked");
}

Ans Live::ask(const Dataset& d, const Query& q) {
  Ans a = api(q.url(d), q.kind);
  judgeEcho(d, q, a);
  return a;
}

void checkSummary(Case& c, const Dataset& d, const Query& q, const json& route, const json& sum) {
  auto det = [&] { return json{{"query", q.url(d)}, {"route", route}, {"summary", sum}, {"dataset", toJson(d)}}; };
  const std::string rs = route.value("status", ""), ss = sum.value("status", "");
  if (rs == "query_error" || rs == "data_error") {
    if (ss != rs || sum.value("errorCode", "") != route.value("errorCode", "")) c.violation("error-differs", "route answers " + route.dump() + ", summary " + sum.dump().substr(0, 200), det());
    return;
  }
  if (ss != "success" || !sum.contains("result")) { c.violation("status", "summary status " + ss + " for route status " + rs, det()); return; }
  const json& r = sum["result"];
  const long n = rs == "success" ? (long)route["result"]["routes"].size() : 0;
  if (!r.contains("nbRoutes") || r["nbRoutes"] != n) c.violation("nb-routes", "nbRoutes " + r.value("nbRoutes", json()).dump() + ", /v2/route returns " + std::to_string(n), det());
  std::map<std::string, long> want;
  if (rs == "success")
    for (auto& x : route["result"]["routes"])
      for (auto& s : x["steps"]) if (s.value("action", "") == "boarding") want[s.value("lineUuid", "")]++;
  std::set<std::string> listed;
  if (!r.contains("lines") || !r["lines"].is_array()) { c.violation("no-lines", "no lines array", det()); return; }
  for (auto& l : r["lines"]) {
    const std::string u = l.value("lineUuid", "");
    if (!listed.insert(u).second) { c.violation("duplicate-line", "line listed twice", det()); continue; }
    auto w = want.find(u);
    if (w == want.end()) { c.violation("extra-line", "lists a line that no route boards", det()); continue; }
    if (!l.contains("alternativeCount") || l["alternativeCount"] != w->second) c.violation("line-count", "count " + l.value("alternativeCount", json()).dump() + ", the routes board the line " + std::to_string(w->second) + " times", det());
    const Line* ml = nullptr;
    for (auto& x : d.lines) if (x.uuid == u) ml = &x;
    if (!ml) { c.violation("unknown-line", "line not in the data", det()); continue; }
    auto& ag = d.agencies[ml->agency];
    if (l.value("lineShortname", "") != ml->shortname || l.value("lineLongname", "") != ml->longname || l.value("agencyUuid", "") != ag.uuid ||
        l.value("agencyAcronym", "") != ag.acronym || l.value("agencyName", "") != ag.name) c.violation("line-fields", "identifying fields of the line differ from the data", det());
    c.count("lines_checked");
  }
  for (auto& w : want) if (!listed.count(w.first)) { c.violation("missing-line", "a boarded line is not listed", det()); break; }
  c.count("summaries_compared");
  if (n > 1) c.count("summaries_of_alternatives");
  for (auto& w : want) if (w.second > 1) { c.count("summaries_with_repeated_line"); break; }
  if (n == 0) c.count("summaries_without_route");
  // the rest of the query echo must be the route's (summary has no alternatives field)
  if (rs != "" && route.contains("query") && sum.contains("query"))
    for (auto* f : {"origin", "destination", "timeOfTrip", "timeType"})
      if (route["query"].value(f, json()) != sum["query"].value(f, json())) c.violation(std::string("echo-") + f, "query echo differs between route and summary", det());
  if (n > 0) c.seen(cc::caseHash(d, q));
}
