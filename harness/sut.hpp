// Drives the real calculator of /repo in this process.
#pragma once
#include "model.hpp"
#include <functional>
#include <memory>
#include <nlohmann/json.hpp>
#include <string>

struct SutOptions {
  bool cacheAll = false;
  bool files = false;         // write Cap'n Proto files under `dir` and load them with CacheFetcher
  std::string dir;            // scratch directory (files mode)
  bool keepFiles = false;     // files mode: the files are already there
  int osrmPort = 0;           // >0: OsrmGeoFilter against a router stub on this port
};

class Sut {
public:
  Sut(const m::Dataset& d, const SutOptions& o = {});
  ~Sut();
  // Same dispatch as the HTTP handlers; "__exception"/"__null" mark answers the server could not have produced normally.
  nlohmann::json ask(const m::Query& q);
  nlohmann::json askParams(int kind, std::vector<std::pair<std::string, std::string>> params);
  bool ready() const;
  std::string status() const; // READY, ERROR, or the missing kind (AGENCIES ... SCHEDULES)
  // update* of the real TransitData for these cache names ("all", "schedules", ...), as the /updateCache handler does
  void refresh(const std::vector<std::string>& names);
  void setData(const m::Dataset& d); // for the walking table (files mode)
  struct Impl;
  Impl* impl() { return p.get(); }
private:
  std::unique_ptr<Impl> p;
};

// Cap'n Proto cache files for the data set
// Lets a check corrupt single fields while files are written (text field / numeric list, by field name)
struct WriteHooks {
  std::function<std::string(const std::string& field, const std::string& value)> text;
  std::function<void(const std::string& field, std::vector<int>& values)> list;
};
extern WriteHooks* writeHooks;
void writeCache(const m::Dataset& d, const std::string& dir);
// Files of the schedules only (one per line), resp. the scenarios only
void writeSchedules(const m::Dataset& d, const std::string& dir);
void writeScenarios(const m::Dataset& d, const std::string& dir);
// Auxiliary collections (data sources, persons, od trips): small valid files so that their loaders run too
void writeAux(const m::Dataset& d, const std::string& dir);
