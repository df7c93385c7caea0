#include "faults.hpp"
#include "sut.hpp"
#include <algorithm>
#include <capnp/serialize-packed.h>
#include <climits>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <kj/io.h>
#include <sstream>
#include <stdexcept>
#include <sys/stat.h>
#include <unistd.h>

using namespace m;
namespace faults {

static void walk(const std::string& root, const std::string& rel, std::vector<std::string>& out) {
  DIR* d = opendir((root + "/" + rel).c_str());
  if (!d) return;
  while (dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = rel.empty() ? n : rel + "/" + n;
    struct stat st;
    if (lstat((root + "/" + p).c_str(), &st) != 0) continue;
    if (S_ISDIR(st.st_mode)) walk(root, p, out);
    else out.push_back(p);
  }
  closedir(d);
}
std::vector<std::string> list(const std::string& dir) {
  std::vector<std::string> r;
  walk(dir, "", r);
  std::sort(r.begin(), r.end());
  return r;
}
static std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
static void spit(const std::string& p, const std::string& s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << s;
}
void removeTree(const std::string& p) {
  DIR* d = opendir(p.c_str());
  if (d) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string q = p + "/" + n;
      struct stat st;
      if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) removeTree(q);
      else unlink(q.c_str());
    }
    closedir(d);
  }
  rmdir(p.c_str());
}
void copyTree(const std::string& from, const std::string& to) {
  mkdir(to.c_str(), 0755);
  for (auto& f : list(from)) {
    for (size_t p = f.find('/'); p != std::string::npos; p = f.find('/', p + 1)) mkdir((to + "/" + f.substr(0, p)).c_str(), 0755);
    spit(to + "/" + f, slurp(from + "/" + f));
  }
}

static std::string kindOf(const std::string& f) {
  if (f == "agencies.capnpbin") return "AGENCIES";
  if (f == "services.capnpbin") return "SERVICES";
  if (f == "nodes.capnpbin") return "NODES";
  if (f == "lines.capnpbin") return "LINES";
  if (f == "paths.capnpbin") return "PATHS";
  if (f == "scenarios.capnpbin") return "SCENARIOS";
  if (f.rfind("lines/", 0) == 0) return "LINEFILE";
  if (f.rfind("nodes/", 0) == 0) return "NODEFILE";
  return "AUX";
}

// The message's words without the packing
static std::string unpack(const std::string& p) {
  int fd = open(p.c_str(), O_RDONLY);
  std::string r;
  try {
    kj::FdInputStream in(fd);
    kj::BufferedInputStreamWrapper buf(in);
    ::capnp::_::PackedInputStream pk(buf);
    char b[8];
    while (pk.tryRead((kj::byte*)b, 8, 8) == 8) r.append(b, 8);
  } catch (kj::Exception&) {}
  close(fd);
  return r;
}
static void repack(const std::string& p, const std::string& words) {
  int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  {
    kj::FdOutputStream out(fd);
    kj::BufferedOutputStreamWrapper buf(out);
    ::capnp::_::PackedOutputStream pk(buf);
    pk.write((const kj::byte*)words.data(), words.size() / 8 * 8);
    buf.flush();
  }
  close(fd);
}

static std::string hooked(Rng& r, const Dataset& d, const std::string& dir) {
  static const std::vector<std::string> texts{"agency.uuid", "agency.name", "agency.acronym", "service.uuid", "service.date", "node.uuid", "node.name", "node.code", "nodefile.uuid", "nodefile.to",
    "line.uuid", "line.mode", "line.agency", "line.shortname", "line.longname", "path.uuid", "path.line", "path.node", "path.data", "path.data", "scenario.uuid", "scenario.service", "scenario.onlyLine", "scenario.exceptLine",
    "scenario.onlyAgency", "scenario.exceptAgency", "scenario.onlyMode", "scenario.exceptMode", "linefile.uuid", "linefile.mode", "linefile.agency", "schedule.service", "schedule.service", "trip.uuid", "trip.uuid", "trip.path", "trip.path",
    "dataSource.uuid", "person.uuid", "person.dataSource", "odTrip.uuid", "odTrip.dataSource", "odTrip.person", "odTrip.node", "person.count", "odTrip.count"};
  static const std::vector<std::string> lists{"trip.arr", "trip.dep", "trip.board", "trip.unboard", "trip.arr", "trip.dep", "nodefile.times", "nodefile.dists", "odTrip.times"};
  WriteHooks h;
  const bool useText = r.chance(0.6);
  const std::string field = useText ? r.pick(texts) : r.pick(lists);
  const int how = r.range(0, 9);
  const double p = r.chance(0.3) ? 1.0 : r.chance(0.5) ? 0.5 : 0.15;
  auto hr = std::make_shared<Rng>(r.next());
  auto prev = std::make_shared<std::string>();
  auto any = std::make_shared<bool>(false);
  std::string label;
  if (useText) {
    const bool uuidLike = field.find("uuid") != std::string::npos || field.find("nodefile.to") == 0 || field.find("path.line") == 0 || field.find("path.node") == 0 || field.find("line.agency") == 0 || field.find("linefile.agency") == 0 ||
                          field.find("scenario.") == 0 || field.find("schedule.") == 0 || field.find("trip.path") == 0 || field.find("person.dataSource") == 0 || field.find("odTrip.") == 0;
    static const char* names[] = {"unknown", "empty", "malformed", "short", "badchar", "other-kind", "duplicate", "long", "utf8", "unknown"};
    label = std::string(names[how]);
    h.text = [=, &d](const std::string& f, const std::string& v) -> std::string {
      if (f != field) return v;
      std::string old = *prev;
      *prev = v;
      if (!hr->chance(p)) return v;
      *any = true;
      if (field == "path.data") {
        static const std::vector<std::string> js{"", "{", "[]", "null", "5", "\"x\"", "{}", "{\"segments\":null}", "{\"segments\":{}}", "{\"segments\":[]}", "{\"segments\":[{}]}", "{\"segments\":[null]}", "{\"segments\":[{\"distanceMeters\":\"x\",\"travelTimeSeconds\":\"y\"}]}",
          "{\"segments\":[{\"distanceMeters\":-5,\"travelTimeSeconds\":-7}]}", "{\"segments\":[{\"distanceMeters\":1e300,\"travelTimeSeconds\":1e300}]}", "{\"segments\":[{\"distanceMeters\":12}]}", "{\"segments\":[{\"travelTimeSeconds\":12}]}", "{\"segments\":[[1,2]]}", "{\"segments\":5}",
          "{\"segments\":[{\"distanceMeters\":1,\"travelTimeSeconds\":1},{\"distanceMeters\":1,\"travelTimeSeconds\":1},{\"distanceMeters\":1,\"travelTimeSeconds\":1},{\"distanceMeters\":1,\"travelTimeSeconds\":1},{\"distanceMeters\":1,\"travelTimeSeconds\":1},{\"distanceMeters\":1,\"travelTimeSeconds\":1},{\"distanceMeters\":1,\"travelTimeSeconds\":1},{\"distanceMeters\":1,\"travelTimeSeconds\":1},{\"distanceMeters\":1,\"travelTimeSeconds\":1},{\"distanceMeters\":1,\"travelTimeSeconds\":1}]}"};
        if (hr->chance(0.2)) return v.substr(0, v.size() / 2);
        return hr->pick(js);
      }
      if (field.find(".count") != std::string::npos) return hr->pick(std::vector<std::string>{"", "0", "-1", "abc", "3", "5", "1x", "99999999999999999999", "\n"});
      if (field == "service.date") return hr->pick(std::vector<std::string>{"", "x", "2020", "2020-13-45", "0000-00-00", "99999-01-01", "2020-01-01T00:00:00"});
      switch (how) {
        case 0: case 9: return uuidLike ? uuidFrom(*hr) : std::string("?");
        case 1: return "";
        case 2: return "abc";
        case 3: return v.substr(0, v.size() / 2);
        case 4: { std::string s = v; if (!s.empty()) s[hr->next() % s.size()] = 'z'; return s; }
        case 5: return hr->pick(std::vector<std::string>{d.nodes[0].uuid, d.agencies[0].uuid, d.lines[0].uuid, d.paths[0].uuid, d.trips.empty() ? d.nodes[0].uuid : d.trips[0].uuid, d.services[0].uuid, d.scenarios[0].uuid});
        case 6: return old.empty() ? v : old;
        case 7: return std::string(70000, 'a');
        default: return v + "\xff\xfe" + "\xc3";
      }
    };
  } else {
    static const char* names[] = {"one-shorter", "empty", "longer", "max", "min", "negative", "zero", "descending", "half", "much-longer"};
    label = names[how];
    h.list = [=](const std::string& f, std::vector<int>& v) {
      if (f != field || !hr->chance(p)) return;
      *any = true;
      switch (how) {
        case 0: if (!v.empty()) v.pop_back(); break;
        case 1: v.clear(); break;
        case 2: v.push_back(v.empty() ? 0 : v.back()); break;
        case 3: if (!v.empty()) v[hr->next() % v.size()] = INT_MAX; break;
        case 4: if (!v.empty()) v[hr->next() % v.size()] = INT_MIN; break;
        case 5: if (!v.empty()) v[hr->next() % v.size()] = -(int)hr->range(1, 100000); break;
        case 6: std::fill(v.begin(), v.end(), 0); break;
        case 7: std::reverse(v.begin(), v.end()); break;
        case 8: v.resize(v.size() / 2); break;
        default: for (int k = 0; k < 12; k++) v.push_back(v.empty() ? k : v.back() + k); break;
      }
    };
  }
  writeHooks = &h;
  try { writeCache(d, dir); } catch (...) { writeHooks = nullptr; throw; }
  writeHooks = nullptr;
  return std::string("field ") + field + " " + label + (*any ? "" : " (no occurrence)");
}

// Valid data plus records that cannot be resolved: trips on unknown paths or services, trips whose times do not fit their
// path, footpaths to unknown stops, unknown entries in the lists of scenarios
static std::string foreign(Rng& r, const Dataset& d, const std::string& dir, std::set<std::string>& touched) {
  Dataset x = d;
  std::string what = "additional";
  std::set<std::string> ghostTrips;
  std::map<std::string, std::set<size_t>> feet; // stop -> positions that shall be unknown
  std::map<std::pair<std::string, std::string>, std::set<size_t>> entries; // (scenario, field) -> positions
  int ghostService = -1;
  const int n = r.range(1, 3);
  for (int k = 0; k < n; k++) {
    const int how = r.range(0, 6);
    if (how <= 3 && !d.trips.empty()) {
      Trip t = r.pick(d.trips);
      t.uuid = uuidFrom(r);
      if (how == 0) { ghostTrips.insert(t.uuid); what += " trip-unknown-path"; }
      else if (how == 1) { t.arr.clear(); t.dep.clear(); t.board.clear(); t.unboard.clear(); what += " trip-without-times"; }
      else if (how == 2) {
        const int m = d.paths[t.path].nodes.size() + r.range(1, 3) - (int)t.arr.size();
        for (int i = 0; i < m; i++) { t.arr.push_back(t.arr.back() + 60); t.dep.push_back(t.arr.back()); t.board.push_back(1); t.unboard.push_back(1); }
        what += " trip-more-times";
      } else {
        if (ghostService < 0) { ghostService = x.services.size(); x.services.push_back({uuidFrom(r), "ghost"}); }
        t.service = ghostService;
        what += " trip-unknown-service";
      }
      x.trips.insert(x.trips.begin() + r.range(0, x.trips.size()), t);
      touched.insert("LINEFILE");
    } else if (how <= 5) {
      if (r.chance(0.5)) {
        Node& n = x.nodes[r.next() % x.nodes.size()];
        if (n.foot.empty() || feet.count(n.uuid)) continue;
        const size_t at = r.range(0, n.foot.size());
        n.foot.insert(n.foot.begin() + at, Foot{0, (int)r.range(0, 900), (int)r.range(0, 900)});
        feet[n.uuid].insert(at);
        touched.insert("NODEFILE");
        what += " footpath-unknown-stop";
      } else if (!x.scenarios.empty()) {
        Scenario& s = x.scenarios[r.next() % x.scenarios.size()];
        auto add = [&](auto& v, const char* field, auto val, bool evenIfEmpty) {
          if ((v.empty() && !evenIfEmpty) || entries.count({s.uuid, field})) return;
          const size_t at = r.range(0, v.size());
          v.insert(v.begin() + at, val);
          entries[{s.uuid, field}].insert(at);
          what += std::string(" ") + field;
        };
        switch (r.range(0, 6)) {
          case 0: add(s.services, "scenario.service", 0, false); break;
          case 1: add(s.onlyLines, "scenario.onlyLine", 0, false); break;
          case 2: add(s.exceptLines, "scenario.exceptLine", 0, true); break;
          case 3: add(s.onlyAgencies, "scenario.onlyAgency", 0, false); break;
          case 4: add(s.exceptAgencies, "scenario.exceptAgency", 0, true); break;
          case 5: add(s.onlyModes, "scenario.onlyMode", std::string("bus"), false); break;
          default: add(s.exceptModes, "scenario.exceptMode", std::string("bus"), true); break;
        }
        touched.insert("SCENARIOS");
      }
    }
  }
  WriteHooks h;
  auto hr = std::make_shared<Rng>(r.next());
  std::string owner;
  std::map<std::string, size_t> pos;
  h.text = [&](const std::string& f, const std::string& v) -> std::string {
    if (f == "trip.uuid" || f == "nodefile.uuid" || f == "scenario.uuid") { owner = v; pos.clear(); return v; }
    if (f == "trip.path" && ghostTrips.count(owner)) return uuidFrom(*hr);
    if (f == "service.uuid" && ghostService >= 0 && v == x.services[ghostService].uuid) return uuidFrom(*hr); // what the schedules name is defined nowhere
    if (f == "nodefile.to") { const size_t i = pos[f]++; return feet.count(owner) && feet[owner].count(i) ? uuidFrom(*hr) : v; }
    if (f.rfind("scenario.", 0) == 0) {
      const size_t i = pos[f]++;
      auto it = entries.find({owner, f});
      if (it == entries.end() || !it->second.count(i)) return v;
      return f.find("Mode") != std::string::npos ? std::string("unknown") : uuidFrom(*hr);
    }
    return v;
  };
  writeHooks = &h;
  try { writeCache(x, dir); } catch (...) { writeHooks = nullptr; throw; }
  writeHooks = nullptr;
  return what;
}

bool Fault::mayLack(const std::string& kind) const {
  static const std::map<std::string, std::vector<std::string>> needs{
    {"AGENCIES", {"AGENCIES"}}, {"SERVICES", {"SERVICES"}}, {"NODES", {"NODES", "NODEFILE"}}, {"LINES", {"LINES", "AGENCIES"}}, {"PATHS", {"PATHS", "LINES", "AGENCIES", "NODES", "NODEFILE"}},
    {"SCENARIOS", {"SCENARIOS", "SERVICES", "PATHS", "LINES", "AGENCIES", "NODES", "NODEFILE"}}, {"SCHEDULES", {"LINEFILE", "SERVICES", "PATHS", "LINES", "AGENCIES", "NODES", "NODEFILE"}}};
  auto it = needs.find(kind);
  if (it == needs.end()) return true;
  for (auto& n : it->second) if (touched.count(n)) return true;
  return false;
}

Fault inject(Rng& r, const Dataset& d, const std::string& dir) {
  Fault f;
  if (r.chance(0.15)) {
    f.what = foreign(r, d, dir, f.touched);
    f.onlyForeign = true;
    return f;
  }
  auto all = list(dir);
  auto pickFile = [&]() -> std::string {
    // base files first: there are few of them
    std::vector<std::string> c;
    const double x = r.next() % 1000 / 1000.0;
    for (auto& s : all) {
      const std::string k = kindOf(s);
      if (x < 0.5 ? (k != "LINEFILE" && k != "NODEFILE" && k != "AUX") : x < 0.75 ? k == "LINEFILE" : x < 0.88 ? k == "NODEFILE" : k == "AUX") c.push_back(s);
    }
    return c.empty() ? r.pick(all) : r.pick(c);
  };
  auto touch = [&](const std::string& s) { if (std::find(f.files.begin(), f.files.end(), s) == f.files.end()) f.files.push_back(s); };
  bool del = false, damage = false;
  auto one = [&] {
    const int how = r.range(0, 99);
    if (how < 20) { // delete
      std::string s = pickFile();
      unlink((dir + "/" + s).c_str());
      del = true;
      touch(s);
      f.what += "delete " + s + "; ";
      all = list(dir);
    } else if (how < 25) { // a whole directory or many files
      const int w = r.range(0, 3);
      std::vector<std::string> gone;
      for (auto& s : all) if (w == 0 ? s.rfind("lines/", 0) == 0 : w == 1 ? s.rfind("nodes/", 0) == 0 : w == 2 ? kindOf(s) == "AUX" : r.chance(0.4)) gone.push_back(s);
      for (auto& s : gone) { unlink((dir + "/" + s).c_str()); touch(s); }
      if (w == 0 && r.chance(0.5)) rmdir((dir + "/lines").c_str());
      if (w == 1 && r.chance(0.5)) rmdir((dir + "/nodes").c_str());
      del = true;
      f.what += std::string("delete ") + (w == 0 ? "lines/" : w == 1 ? "nodes/" : w == 2 ? "aux files" : "many files") + "; ";
      all = list(dir);
    } else if (how < 55) {
      std::string s = pickFile(), p = dir + "/" + s, b = slurp(p);
      damage = true;
      touch(s);
      if (how < 40) { // truncate
        size_t n = b.size();
        size_t at = r.chance(0.15) ? 0 : r.chance(0.2) ? std::min<size_t>(n, (size_t)r.range(1, 16)) : r.chance(0.3) ? n - std::min<size_t>(n, (size_t)r.range(1, 16)) : (n ? r.next() % n : 0);
        spit(p, b.substr(0, at));
        f.what += "truncate " + s + " to " + std::to_string(at) + " of " + std::to_string(n) + "; ";
      } else if (how < 48) {
        int k = r.range(1, 8);
        for (int i = 0; i < k && !b.empty(); i++) b[r.next() % b.size()] ^= (char)(1 << r.range(0, 7));
        spit(p, b);
        f.what += "flip " + std::to_string(k) + " bits of " + s + "; ";
      } else if (how < 52) {
        if (!b.empty()) { size_t at = r.next() % b.size(), n = std::min<size_t>(b.size() - at, r.range(1, 64)); const bool z = r.chance(0.5); for (size_t i = 0; i < n; i++) b[at + i] = z ? 0 : (char)r.next(); }
        spit(p, b);
        f.what += "overwrite bytes of " + s + "; ";
      } else {
        if (r.chance(0.5)) { int n = r.range(1, 200); for (int i = 0; i < n; i++) b += (char)r.next(); }
        else b = r.pick(std::vector<std::string>{"", "{}", "hello world\n", std::string(100, '\0'), std::string(1000, '\xff')});
        spit(p, b);
        f.what += "append to / replace " + s + "; ";
      }
    } else if (how < 62) { // contents of another file
      std::string a = pickFile(), b = pickFile();
      std::string ca = slurp(dir + "/" + a), cb = slurp(dir + "/" + b);
      spit(dir + "/" + a, cb);
      touch(a);
      if (r.chance(0.5)) { spit(dir + "/" + b, ca); touch(b); }
      damage = true;
      f.what += "contents of " + b + " in " + a + "; ";
    } else if (how < 80) { // words of the unpacked message
      std::string s = pickFile(), p = dir + "/" + s, w = unpack(p);
      touch(s);
      damage = true;
      if (w.size() >= 8) {
        int k = r.range(1, 3);
        for (int i = 0; i < k; i++) {
          size_t at = r.next() % (w.size() / 8) * 8;
          uint64_t v;
          memcpy(&v, &w[at], 8);
          switch (r.range(0, 6)) {
            case 0: v = 0; break;
            case 1: v = ~0ull; break;
            case 2: v ^= 1ull << r.range(0, 63); break;
            case 3: v += r.range(-4, 4); break;
            case 4: v += (uint64_t)r.range(-64, 64) << 32; break;
            case 5: v = r.next(); break;
            default: v ^= 0xffull << (8 * r.range(0, 7)); break;
          }
          memcpy(&w[at], &v, 8);
        }
        if (r.chance(0.2)) w.resize(r.next() % (w.size() / 8 + 1) * 8);
        repack(p, w);
      }
      f.what += "words of " + s + "; ";
    } else {
      std::string w = hooked(r, d, dir);
      auto starts = [&](const char* x) { return w.rfind(std::string("field ") + x, 0) == 0; };
      touch(starts("agency.") ? "agencies.capnpbin" : starts("service.") ? "services.capnpbin" : starts("node.") ? "nodes.capnpbin" : starts("nodefile.") ? "nodes/fields" : starts("line.") ? "lines.capnpbin" :
            starts("path.") ? "paths.capnpbin" : starts("scenario.") ? "scenarios.capnpbin" : starts("linefile.") || starts("schedule.") || starts("trip.") ? "lines/fields" : "dataSources/fields");
      damage = true;
      f.what += w + "; ";
      all = list(dir);
    }
  };
  // field faults rewrite all files, so they come first
  const int n = r.chance(0.7) ? 1 : r.range(2, 4);
  for (int i = 0; i < n; i++) {
    one();
    if (all.empty()) break;
  }
  f.onlyDeletions = del && !damage;
  f.onlyAux = true;
  std::set<int> left;
  auto now = list(dir);
  std::set<std::string> there(now.begin(), now.end());
  for (auto& s : f.files) {
    const std::string k = kindOf(s);
    f.touched.insert(k);
    if (k != "AUX") f.onlyAux = false;
  }
  for (auto* k : {"agencies", "services", "nodes", "lines", "paths", "scenarios"})
    if (!there.count(std::string(k) + ".capnpbin")) { std::string u = k; for (auto& c : u) c = toupper(c); f.deleted.insert(u); }
  bool anyTrip = false;
  for (size_t i = 0; i < d.lines.size(); i++) {
    if (!there.count("lines/line_" + d.lines[i].uuid + ".capnpbin")) f.lostLines.insert(i);
    else for (auto& t : d.trips) if (d.paths[t.path].line == (int)i) anyTrip = true;
  }
  if (!anyTrip) f.deleted.insert("SCHEDULES");
  f.onlyScheduleDeletions = f.onlyDeletions;
  for (auto& s : f.files) if (kindOf(s) != "LINEFILE" && kindOf(s) != "AUX") f.onlyScheduleDeletions = false;
  return f;
}
} // namespace faults
