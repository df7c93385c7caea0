#include "sut.hpp"
#include <capnp/message.h>
#include <capnp/serialize-packed.h>
#include <fcntl.h>
#include <fstream>
#include <stdexcept>
#include <sys/stat.h>
#include <unistd.h>
#include "capnp/agencyCollection.capnp.h"
#include "capnp/dataSourceCollection.capnp.h"
#include "capnp/line.capnp.h"
#include "capnp/lineCollection.capnp.h"
#include "capnp/node.capnp.h"
#include "capnp/odTripCollection.capnp.h"
#include "capnp/personCollection.capnp.h"
#include "capnp/nodeCollection.capnp.h"
#include "capnp/pathCollection.capnp.h"
#include "capnp/scenarioCollection.capnp.h"
#include "capnp/serviceCollection.capnp.h"

namespace {
void save(::capnp::MessageBuilder& b, const std::string& path) {
  std::string tmp = path + ".tmp";
  int fd = open(tmp.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644);
  if (fd < 0) throw std::runtime_error("cannot write " + tmp);
  ::capnp::writePackedMessageToFd(fd, b);
  close(fd);
  if (rename(tmp.c_str(), path.c_str()) != 0) throw std::runtime_error("cannot rename " + tmp);
}
// Fault hooks: every text and every numeric list passes through here with the name of its field
std::string T(const char* field, const std::string& v) { return writeHooks && writeHooks->text ? writeHooks->text(field, v) : v; }
std::vector<int> L(const char* field, std::vector<int> v) { if (writeHooks && writeHooks->list) writeHooks->list(field, v); return v; }
template <class List> void texts(List list, const std::vector<std::string>& v, const char* field) { for (size_t i = 0; i < v.size(); i++) list.set(i, T(field, v[i]).c_str()); }
template <class List> void ints(List list, const std::vector<int>& v) { for (size_t i = 0; i < v.size() && i < list.size(); i++) list.set(i, v[i]); }
} // namespace
WriteHooks* writeHooks = nullptr;

void writeScenarios(const m::Dataset& d, const std::string& dir) {
  ::capnp::MallocMessageBuilder b;
  auto root = b.initRoot<scenarioCollection::ScenarioCollection>();
  auto ls = root.initScenarios(d.scenarios.size());
  for (size_t i = 0; i < d.scenarios.size(); i++) {
    auto& s = d.scenarios[i];
    auto x = ls[i];
    x.setUuid(T("scenario.uuid", s.uuid).c_str());
    x.setName(T("scenario.name", s.name).c_str());
    x.setIsEnabled(1);
    auto ids = [&](const std::vector<int>& v, auto& objs) { std::vector<std::string> r; for (int k : v) r.push_back(objs[k].uuid); return r; };
    texts(x.initServicesUuids(s.services.size()), ids(s.services, d.services), "scenario.service");
    texts(x.initOnlyLinesUuids(s.onlyLines.size()), ids(s.onlyLines, d.lines), "scenario.onlyLine");
    texts(x.initExceptLinesUuids(s.exceptLines.size()), ids(s.exceptLines, d.lines), "scenario.exceptLine");
    texts(x.initOnlyAgenciesUuids(s.onlyAgencies.size()), ids(s.onlyAgencies, d.agencies), "scenario.onlyAgency");
    texts(x.initExceptAgenciesUuids(s.exceptAgencies.size()), ids(s.exceptAgencies, d.agencies), "scenario.exceptAgency");
    x.initOnlyNodesUuids(0);
    x.initExceptNodesUuids(0);
    texts(x.initOnlyModesShortnames(s.onlyModes.size()), s.onlyModes, "scenario.onlyMode");
    texts(x.initExceptModesShortnames(s.exceptModes.size()), s.exceptModes, "scenario.exceptMode");
  }
  save(b, dir + "/scenarios.capnpbin");
}

void writeSchedules(const m::Dataset& d, const std::string& dir) {
  mkdir((dir + "/lines").c_str(), 0755);
  for (size_t li = 0; li < d.lines.size(); li++) {
    auto& l = d.lines[li];
    ::capnp::MallocMessageBuilder b;
    auto x = b.initRoot<line::Line>();
    x.setUuid(T("linefile.uuid", l.uuid).c_str());
    x.setMode(T("linefile.mode", l.mode).c_str());
    x.setAgencyUuid(T("linefile.agency", d.agencies[l.agency].uuid).c_str());
    x.setShortname(l.shortname.c_str());
    x.setLongname(l.longname.c_str());
    x.setIsEnabled(1);
    x.setAllowSameLineTransfers(l.allowSameLine);
    // one schedule per service that has trips; two periods when there are several trips
    std::vector<std::vector<int>> byService(d.services.size());
    for (size_t t = 0; t < d.trips.size(); t++) if (d.paths[d.trips[t].path].line == (int)li) byService[d.trips[t].service].push_back(t);
    std::vector<int> used;
    for (size_t s = 0; s < byService.size(); s++) if (!byService[s].empty()) used.push_back(s);
    auto sch = x.initSchedules(used.size());
    for (size_t k = 0; k < used.size(); k++) {
      auto& list = byService[used[k]];
      auto sc = sch[k];
      sc.setServiceUuid(T("schedule.service", d.services[used[k]].uuid).c_str());
      size_t nper = list.size() >= 3 ? 2 : 1;
      auto per = sc.initPeriods(nper);
      size_t cut = nper == 2 ? list.size() / 2 : list.size();
      for (size_t pi = 0; pi < nper; pi++) {
        size_t from = pi == 0 ? 0 : cut, to = pi == 0 ? cut : list.size();
        auto trips = per[pi].initTrips(to - from);
        for (size_t q = from; q < to; q++) {
          auto& t = d.trips[list[q]];
          auto y = trips[q - from];
          y.setUuid(T("trip.uuid", t.uuid).c_str());
          y.setPathUuid(T("trip.path", d.paths[t.path].uuid).c_str());
          size_t n = t.arr.size();
          std::vector<int> va = L("trip.arr", t.arr), vd = L("trip.dep", t.dep), vb = L("trip.board", {t.board.begin(), t.board.end()}), vu = L("trip.unboard", {t.unboard.begin(), t.unboard.end()});
          ints(y.initNodeArrivalTimesSeconds(va.size()), va);
          ints(y.initNodeDepartureTimesSeconds(vd.size()), vd);
          ints(y.initNodesCanBoard(vb.size()), vb);
          ints(y.initNodesCanUnboard(vu.size()), vu);
          if (n) { y.setDepartureTimeSeconds(t.dep[0]); y.setArrivalTimeSeconds(t.arr[n - 1]); }
        }
      }
    }
    save(b, dir + "/lines/line_" + l.uuid + ".capnpbin");
  }
}

void writeCache(const m::Dataset& d, const std::string& dir) {
  mkdir(dir.c_str(), 0755);
  mkdir((dir + "/nodes").c_str(), 0755);
  {
    ::capnp::MallocMessageBuilder b;
    auto root = b.initRoot<agencyCollection::AgencyCollection>();
    auto l = root.initAgencies(d.agencies.size());
    for (size_t i = 0; i < d.agencies.size(); i++) { l[i].setUuid(T("agency.uuid", d.agencies[i].uuid).c_str()); l[i].setAcronym(T("agency.acronym", d.agencies[i].acronym).c_str()); l[i].setName(T("agency.name", d.agencies[i].name).c_str()); l[i].setIsEnabled(1); }
    save(b, dir + "/agencies.capnpbin");
  }
  {
    ::capnp::MallocMessageBuilder b;
    auto root = b.initRoot<serviceCollection::ServiceCollection>();
    auto l = root.initServices(d.services.size());
    for (size_t i = 0; i < d.services.size(); i++) {
      l[i].setUuid(T("service.uuid", d.services[i].uuid).c_str()); l[i].setName(d.services[i].name.c_str());
      l[i].setMonday(1); l[i].setTuesday(1); l[i].setStartDate(T("service.date", "2020-01-01").c_str()); l[i].setEndDate(T("service.date", "2030-01-01").c_str()); l[i].setIsEnabled(1);
    }
    save(b, dir + "/services.capnpbin");
  }
  {
    ::capnp::MallocMessageBuilder b;
    auto root = b.initRoot<nodeCollection::NodeCollection>();
    auto l = root.initNodes(d.nodes.size());
    for (size_t i = 0; i < d.nodes.size(); i++) {
      auto& n = d.nodes[i];
      l[i].setUuid(T("node.uuid", n.uuid).c_str()); l[i].setId(n.id); l[i].setCode(T("node.code", n.code).c_str()); l[i].setName(T("node.name", n.name).c_str());
      l[i].setLatitude(n.latE6); l[i].setLongitude(n.lonE6); l[i].setIsEnabled(1);
    }
    save(b, dir + "/nodes.capnpbin");
    for (auto& n : d.nodes) {
      ::capnp::MallocMessageBuilder nb;
      auto x = nb.initRoot<node::Node>();
      x.setUuid(T("nodefile.uuid", n.uuid).c_str()); x.setId(n.id); x.setCode(n.code.c_str()); x.setName(n.name.c_str());
      x.setLatitude(n.latE6); x.setLongitude(n.lonE6);
      auto u = x.initTransferableNodesUuids(n.foot.size());
      std::vector<int> vt, vd;
      for (size_t k = 0; k < n.foot.size(); k++) { u.set(k, T("nodefile.to", d.nodes[n.foot[k].to].uuid).c_str()); vt.push_back(n.foot[k].time); vd.push_back(n.foot[k].dist); }
      vt = L("nodefile.times", vt);
      vd = L("nodefile.dists", vd);
      ints(x.initTransferableNodesTravelTimes(vt.size()), vt);
      ints(x.initTransferableNodesDistances(vd.size()), vd);
      save(nb, dir + "/nodes/node_" + n.uuid + ".capnpbin");
    }
  }
  {
    ::capnp::MallocMessageBuilder b;
    auto root = b.initRoot<lineCollection::LineCollection>();
    auto l = root.initLines(d.lines.size());
    for (size_t i = 0; i < d.lines.size(); i++) {
      auto& n = d.lines[i];
      l[i].setUuid(T("line.uuid", n.uuid).c_str()); l[i].setMode(T("line.mode", n.mode).c_str()); l[i].setAgencyUuid(T("line.agency", d.agencies[n.agency].uuid).c_str());
      l[i].setShortname(T("line.shortname", n.shortname).c_str()); l[i].setLongname(T("line.longname", n.longname).c_str()); l[i].setAllowSameLineTransfers(n.allowSameLine); l[i].setIsEnabled(1);
    }
    save(b, dir + "/lines.capnpbin");
  }
  {
    ::capnp::MallocMessageBuilder b;
    auto root = b.initRoot<pathCollection::PathCollection>();
    auto l = root.initPaths(d.paths.size());
    for (size_t i = 0; i < d.paths.size(); i++) {
      auto& n = d.paths[i];
      l[i].setUuid(T("path.uuid", n.uuid).c_str()); l[i].setDirection("outbound"); l[i].setLineUuid(T("path.line", d.lines[n.line].uuid).c_str()); l[i].setIsEnabled(1);
      nlohmann::json j;
      j["segments"] = nlohmann::json::array();
      for (size_t k = 0; k < n.segDist.size(); k++) {
        nlohmann::json s;
        if (n.segDist[k] >= 0) s["distanceMeters"] = n.segDist[k]; else s["distanceMeters"] = nullptr;
        s["travelTimeSeconds"] = n.segTime[k];
        j["segments"].push_back(s);
      }
      l[i].setData(T("path.data", j.dump()).c_str());
      auto u = l[i].initNodesUuids(n.nodes.size());
      for (size_t k = 0; k < n.nodes.size(); k++) u.set(k, T("path.node", d.nodes[n.nodes[k]].uuid).c_str());
    }
    save(b, dir + "/paths.capnpbin");
  }
  writeScenarios(d, dir);
  writeSchedules(d, dir);
}
void writeAux(const m::Dataset& d, const std::string& dir) {
  const std::string ds = "b7a4f3a1-3e26-4d5a-8b7c-3d3c2b1a0f01", person = "c7a4f3a1-3e26-4d5a-8b7c-3d3c2b1a0f02", od = "d7a4f3a1-3e26-4d5a-8b7c-3d3c2b1a0f0";
  {
    ::capnp::MallocMessageBuilder b;
    auto l = b.initRoot<dataSourceCollection::DataSourceCollection>().initDataSources(1);
    l[0].setUuid(T("dataSource.uuid", ds).c_str());
    l[0].setName("ds");
    l[0].setShortname("ds");
    save(b, dir + "/dataSources.capnpbin");
  }
  mkdir((dir + "/dataSources").c_str(), 0755);
  const std::string sub = dir + "/dataSources/" + ds;
  mkdir(sub.c_str(), 0755);
  {
    ::capnp::MallocMessageBuilder b;
    auto l = b.initRoot<personCollection::PersonCollection>().initPersons(1);
    l[0].setUuid(T("person.uuid", person).c_str());
    l[0].setDataSourceUuid(T("person.dataSource", ds).c_str());
    save(b, sub + "/persons.capnpbin");
    std::ofstream(sub + "/persons.capnpbin.count") << T("person.count", "1");
  }
  for (int i = 0; i < 2; i++) { // two files, so that the numbered names are used
    ::capnp::MallocMessageBuilder b;
    auto l = b.initRoot<odTripCollection::OdTripCollection>().initOdTrips(1);
    l[0].setUuid(T("odTrip.uuid", od + std::to_string(i)).c_str());
    l[0].setDataSourceUuid(T("odTrip.dataSource", ds).c_str());
    l[0].setPersonUuid(T("odTrip.person", person).c_str());
    l[0].setDepartureTimeSeconds(28800);
    if (!d.nodes.empty()) {
      l[0].initOriginNodesUuids(1).set(0, T("odTrip.node", d.nodes[0].uuid).c_str());
      ints(l[0].initOriginNodesTravelTimes(1), L("odTrip.times", {100}));
      ints(l[0].initOriginNodesDistances(1), L("odTrip.times", {90}));
    }
    save(b, sub + "/odTrips.capnpbin." + std::to_string(i));
  }
  std::ofstream(sub + "/odTrips.capnpbin.count") << T("odTrip.count", "2");
}
