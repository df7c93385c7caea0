#include "sut.hpp"
#include <cmath>
#include <numeric>
#include <unordered_map>
#include <boost/uuid/string_generator.hpp>
#include <boost/uuid/uuid_io.hpp>

#include "spdlog/spdlog.h"
#include "agency.hpp"
#include "cache_fetcher.hpp"
#include "calculator.hpp"
#include "connection.hpp"
#include "data_source.hpp"
#include "dummy_data_fetcher.hpp"
#include "geofilter.hpp"
#include "line.hpp"
#include "mode.hpp"
#include "node.hpp"
#include "od_trip.hpp"
#include "euclideangeofilter.hpp"
#include "osrmgeofilter.hpp"
#include "parameters.hpp"
#include "path.hpp"
#include "person.hpp"
#include "point.hpp"
#include "result_to_v2.hpp"
#include "result_to_v2_accessibility.hpp"
#include "result_to_v2_summary.hpp"
#include "routing_result.hpp"
#include "scenario.hpp"
#include "service.hpp"
#include "transit_data.hpp"
#include "trip.hpp"

using namespace TrRouting;
using nlohmann::json;

namespace {

boost::uuids::uuid U(const std::string& s) { return boost::uuids::string_generator()(s); }

class MemFetcher : public DummyDataFetcher {
public:
  const m::Dataset& d;
  explicit MemFetcher(const m::Dataset& ds) : d(ds) {}
  const std::map<std::string, Mode> getModes() override {
    CacheFetcher c("");
    return c.getModes();
  }
  int getAgencies(std::map<boost::uuids::uuid, Agency>& ts, std::string) override {
    ts.clear();
    for (auto& a : d.agencies) {
      Agency x;
      x.uuid = U(a.uuid); x.acronym = a.acronym; x.name = a.name; x.internalId = ""; x.simulationUuid = boost::uuids::uuid();
      ts[x.uuid] = x;
    }
    return 0;
  }
  int getServices(std::map<boost::uuids::uuid, Service>& ts, std::string) override {
    ts.clear();
    for (auto& a : d.services) {
      Service x;
      x.uuid = U(a.uuid); x.name = a.name;
      x.monday = x.tuesday = x.wednesday = x.thursday = x.friday = x.saturday = x.sunday = 1;
      ts[x.uuid] = x;
    }
    return 0;
  }
  int getNodes(std::map<boost::uuids::uuid, Node>& ts, std::string) override {
    ts.clear();
    for (auto& n : d.nodes)
      ts.emplace(U(n.uuid), Node(U(n.uuid), n.id, n.code, n.name, "", std::make_unique<Point>(n.latE6 / 1000000.0, n.lonE6 / 1000000.0)));
    for (auto& n : d.nodes) {
      Node& a = ts.at(U(n.uuid));
      for (auto& f : n.foot) {
        Node& b = ts.at(U(d.nodes[f.to].uuid));
        a.transferableNodes.push_back(NodeTimeDistance(b, f.time, f.dist));
        b.reverseTransferableNodes.push_back(NodeTimeDistance(a, f.time, f.dist));
      }
    }
    return 0;
  }
  int getLines(std::map<boost::uuids::uuid, Line>& ts, const std::map<boost::uuids::uuid, Agency>& ag, const std::map<std::string, Mode>& modes, std::string) override {
    ts.clear();
    for (auto& l : d.lines)
      ts.emplace(U(l.uuid), Line(U(l.uuid), ag.at(U(d.agencies[l.agency].uuid)), modes.at(l.mode), l.shortname, l.longname, "", l.allowSameLine ? 1 : 0));
    return 0;
  }
  int getPaths(std::map<boost::uuids::uuid, Path>& ts, const std::map<boost::uuids::uuid, Line>& lines, const std::map<boost::uuids::uuid, Node>& nodes, std::string) override {
    ts.clear();
    for (auto& p : d.paths) {
      std::vector<std::reference_wrapper<const Node>> nr;
      for (int n : p.nodes) nr.push_back(nodes.at(U(d.nodes[n].uuid)));
      ts.emplace(U(p.uuid), Path(U(p.uuid), lines.at(U(d.lines[p.line].uuid)), "outbound", "", nr, std::vector<std::reference_wrapper<const Trip>>(), p.segTime, p.segDist));
    }
    return 0;
  }
  int getScenarios(std::map<boost::uuids::uuid, Scenario>& ts, const std::map<boost::uuids::uuid, Service>& services, const std::map<boost::uuids::uuid, Line>& lines,
                   const std::map<boost::uuids::uuid, Agency>& agencies, const std::map<boost::uuids::uuid, Node>&, const std::map<std::string, Mode>& modes, std::string) override {
    ts.clear();
    for (auto& s : d.scenarios) {
      Scenario x;
      x.uuid = U(s.uuid); x.name = s.name; x.simulationUuid = boost::uuids::uuid();
      for (int i : s.services) x.servicesList.push_back(services.at(U(d.services[i].uuid)));
      for (int i : s.onlyLines) x.onlyLines.push_back(lines.at(U(d.lines[i].uuid)));
      for (int i : s.exceptLines) x.exceptLines.push_back(lines.at(U(d.lines[i].uuid)));
      for (int i : s.onlyAgencies) x.onlyAgencies.push_back(agencies.at(U(d.agencies[i].uuid)));
      for (int i : s.exceptAgencies) x.exceptAgencies.push_back(agencies.at(U(d.agencies[i].uuid)));
      for (auto& i : s.onlyModes) x.onlyModes.push_back(modes.at(i));
      for (auto& i : s.exceptModes) x.exceptModes.push_back(modes.at(i));
      ts[x.uuid] = x;
    }
    return 0;
  }
  int getSchedules(std::map<boost::uuids::uuid, Trip>& trips, const std::map<boost::uuids::uuid, Line>& lines, std::map<boost::uuids::uuid, Path>& paths,
                   const std::map<boost::uuids::uuid, Service>& services, std::vector<Connection>& conns, std::string) override {
    trips.clear();
    conns.clear();
    for (auto& t : d.trips) {
      auto& ml = d.lines[d.paths[t.path].line];
      const Line& line = lines.at(U(ml.uuid));
      Path& path = paths.at(U(d.paths[t.path].uuid));
      trips.emplace(U(t.uuid), Trip(U(t.uuid), line.agency, line, path, line.mode, services.at(U(d.services[t.service].uuid)), line.allowSameLineTransfers, -1, -1));
      Trip& trip = trips.at(U(t.uuid));
      path.tripsRef.push_back(trip);
      trip.connectionDepartureTimes.resize(t.arr.size());
      for (size_t i = 0; i + 1 < t.arr.size(); i++) {
        conns.push_back(Connection(path.nodesRef[i].get(), path.nodesRef[i + 1].get(), t.dep[i], t.arr[i + 1], trip, t.board[i] == 1, t.unboard[i + 1] == 1, i + 1,
                                   trip.allowSameLineTransfers, line.mode.isTransferable() ? 0 : -1));
        trip.connectionDepartureTimes[i] = t.dep[i];
      }
    }
    return 0;
  }
};

// The walking router: offers exactly the stops the data set's table lists for the point, within the maximum.
class TableGeoFilter : public GeoFilter {
public:
  const m::Dataset& d;
  std::vector<boost::uuids::uuid> nodeUuid;
  explicit TableGeoFilter(const m::Dataset& ds) : d(ds) { for (auto& n : d.nodes) nodeUuid.push_back(U(n.uuid)); }
  std::vector<NodeTimeDistance> getAccessibleNodesFootpathsFromPoint(const Point& pt, const std::map<boost::uuids::uuid, Node>& nodes, int maxTime, float, bool = false) override {
    std::vector<NodeTimeDistance> r;
    long la = std::llround(pt.latitude * 1e6), lo = std::llround(pt.longitude * 1e6);
    for (auto& p : d.places) {
      if (p.latE6 != la || p.lonE6 != lo) continue;
      for (auto& a : p.acc) {
        if (a.time > maxTime) continue;
        auto it = nodes.find(nodeUuid[a.node]);
        if (it != nodes.end()) r.push_back(NodeTimeDistance(it->second, a.time, a.dist));
      }
      break;
    }
    return r;
  }
};
} // namespace

struct Sut::Impl {
  m::Dataset data; // own copy: the fetcher and the filter refer to it
  std::unique_ptr<DataFetcher> fetcher;
  std::unique_ptr<TransitData> td;
  std::unique_ptr<GeoFilter> geo;
};

Sut::Sut(const m::Dataset& d, const SutOptions& o) : p(new Impl) {
  p->data = d;
  if (o.files) {
    if (!o.keepFiles) writeCache(d, o.dir);
    p->fetcher = std::make_unique<CacheFetcher>(o.dir);
  } else p->fetcher = std::make_unique<MemFetcher>(p->data);
  p->td = std::make_unique<TransitData>(*p->fetcher, o.cacheAll);
  if (o.osrmPort > 0) p->geo = std::make_unique<OsrmGeoFilter>("walking", "127.0.0.1", std::to_string(o.osrmPort));
  else if (d.euclid) p->geo = std::make_unique<EuclideanGeoFilter>();
  else p->geo = std::make_unique<TableGeoFilter>(p->data);
}
Sut::~Sut() {}
std::string Sut::status() const {
  switch (p->td->getDataStatus()) {
    case DataStatus::READY: return "READY";
    case DataStatus::NO_AGENCIES: return "AGENCIES";
    case DataStatus::NO_SERVICES: return "SERVICES";
    case DataStatus::NO_NODES: return "NODES";
    case DataStatus::NO_LINES: return "LINES";
    case DataStatus::NO_PATHS: return "PATHS";
    case DataStatus::NO_SCENARIOS: return "SCENARIOS";
    case DataStatus::NO_SCHEDULES: return "SCHEDULES";
    default: return "ERROR";
  }
}
void Sut::refresh(const std::vector<std::string>& names) {
  for (auto& n : names) {
    auto is = [&](const char* k) { return n == k || n == "all"; };
    if (is("data_sources")) p->td->updateDataSources();
    if (is("persons")) p->td->updatePersons();
    if (is("od_trips")) p->td->updateOdTrips();
    if (is("agencies")) p->td->updateAgencies();
    if (is("services")) p->td->updateServices();
    if (is("nodes")) p->td->updateNodes();
    if (is("lines")) p->td->updateLines();
    if (is("paths")) p->td->updatePaths();
    if (is("scenarios")) p->td->updateScenarios();
    if (is("schedules")) p->td->updateSchedules();
  }
}
void Sut::setData(const m::Dataset& d) {
  const bool table = dynamic_cast<TableGeoFilter*>(p->geo.get()) != nullptr;
  p->data = d;
  if (table) p->geo = std::make_unique<TableGeoFilter>(p->data);
}
bool Sut::ready() const { return p->td->getDataStatus() == DataStatus::READY; }

json Sut::ask(const m::Query& q) { return askParams(q.kind, q.params(p->data)); }

json Sut::askParams(int kind, std::vector<std::pair<std::string, std::string>> params) {
  static const bool trace = getenv("VERIF_TRACE") != nullptr;
  if (trace) {
    std::string line = kind == m::Query::ACCESS ? "ask /v2/accessibility?" : kind == m::Query::SUMMARY ? "ask /v2/summary?" : "ask /v2/route?";
    for (auto& x : params) line += x.first + "=" + x.second + "&";
    std::cerr << line << std::endl;
  }
  Calculator calc(*p->td, *p->geo);
  try {
    if (kind == m::Query::ACCESS) {
      AccessibilityParameters q = AccessibilityParameters::createAccessibilityParameter(params, p->td->getScenarios());
      try {
        auto r = calc.calculateAllNodes(q);
        if (r) return ResultToV2AccessibilityResponse::resultToJsonString(*r, q);
        return json{{"__null", true}};
      } catch (NoRoutingFoundException& e) { return ResultToV2AccessibilityResponse::noRoutingFoundResponse(q, e.getReason()); }
    }
    RouteParameters q = RouteParameters::createRouteODParameter(params, p->td->getScenarios());
    const bool sum = kind == m::Query::SUMMARY;
    try {
      if (q.isWithAlternatives()) {
        AlternativesResult r = calc.alternativesRouting(q);
        return sum ? ResultToV2SummaryResponse::resultToJsonString(r, q) : ResultToV2Response::resultToJsonString(r, q);
      }
      auto r = calc.calculateSingle(q);
      if (r) return sum ? ResultToV2SummaryResponse::resultToJsonString(*r, q) : ResultToV2Response::resultToJsonString(*r, q);
      return json{{"__null", true}};
    } catch (NoRoutingFoundException& e) {
      return sum ? ResultToV2SummaryResponse::noRoutingFoundResponse(q, e.getReason()) : ResultToV2Response::noRoutingFoundResponse(q, e.getReason());
    }
  } catch (ParameterException& e) {
    return json{{"status", "query_error"}, {"__paramError", (int)e.getType()}, {"__scenario", e.getType() == ParameterException::Type::MISSING_SCENARIO || e.getType() == ParameterException::Type::EMPTY_SCENARIO}};
  } catch (std::exception& e) {
    return json{{"__exception", e.what()}};
  }
}
