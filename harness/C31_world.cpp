// VH: libs=avoidance flavour=asan shards=4
// The simulated world drawn for the operator: world files and model paths of every kind, sound and broken, in; markers out.
#include <avoidance/rviz_world_loader.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <memory>
#include "vh.h"
using namespace avoidance;
using vh::fmt;
typedef visualization_msgs::Marker M;

namespace {
struct Scratch {
  std::string dir;
  std::vector<std::string> made;
  Scratch() {
    char t[] = "/tmp/vh_world_XXXXXX";
    dir = mkdtemp(t);
  }
  std::string sub(const std::string& n) {
    std::string p = dir + "/" + n;
    if (mkdir(p.c_str(), 0700) == 0) made.push_back(p);
    return p;
  }
  void write(const std::string& path, const std::string& s) {
    struct stat st;
    if (stat(path.c_str(), &st)) made.push_back(path);
    std::ofstream(path, std::ios::binary) << s;
  }
  void clear() {
    while (!made.empty()) {
      if (unlink(made.back().c_str())) rmdir(made.back().c_str());
      made.pop_back();
    }
  }
  ~Scratch() {
    clear();
    rmdir(dir.c_str());
  }
};
Scratch& scratch() {
  static Scratch s;
  return s;
}
struct Obj {
  std::string type, name, frame, mesh, uri;  // uri: what is to be shown
  float v[10];                               // position, orientation, scale
  bool bad = false;
};
std::string vec(vh::Rng& r, const float* v, int n) {
  std::string s;
  bool block = r.chance(0.3);
  for (int i = 0; i < n; i++) s += block ? fmt("\n     - %.9g", v[i]) : fmt(i ? ", %.9g" : "[%.9g", v[i]);
  return block ? s : s + "]";
}
std::string yaml(vh::Rng& r, std::vector<Obj>& o, bool broken) {
  std::string s = r.chance(0.2) ? "# world\n" : "";
  int victim = broken && !o.empty() ? (int)r.below(o.size()) : -1;
  int what = r.below(4);
  for (size_t i = 0; i < o.size(); i++) {
    std::vector<std::string> f = {"type: \"" + o[i].type + "\"", "name: " + o[i].name, "frame_id: \"" + o[i].frame + "\"", "mesh_resource: \"" + o[i].mesh + "\"",
                                  "position: " + vec(r, o[i].v, 3), "orientation: " + vec(r, o[i].v + 3, 4), "scale: " + vec(r, o[i].v + 7, 3)};
    if ((int)i == victim) {
      if (what == 0) f.erase(f.begin() + r.below(f.size()));
      else if (what == 1) f[4 + r.below(3)] = r.pick<const char*>({"position: [1.0, 2.0]", "orientation: [0, 0, 1]", "scale: 3", "position: [a, b, c]", "scale: {x: 1}"});
      else if (what == 2) f[0] = r.pick<const char*>({"type: cone", "type: \"\"", "type: [cube]", "type: Cube"});
      else f.insert(f.begin() + r.below(f.size()), r.pick<const char*>({"[", "}: {", "\tx: 1", "\"open"}));
      if (what == 1) {  // the replaced key must be gone
        std::vector<std::string> g;
        for (const char* k : {"type", "name", "frame_id", "mesh_resource", "position", "orientation", "scale"})
          for (auto& e : f)
            if (e.compare(0, strlen(k), k) == 0) {
              g.push_back(e);
              if (e.size() > 40 || true) break;
            }
        f = g;
      }
      o[i].bad = true;
    } else if (r.chance(0.3)) {
      for (size_t k = f.size(); k > 1; k--) std::swap(f[k - 1], f[r.below(k)]);
      if (r.chance(0.3)) f.push_back("colour: red  # not used");
    }
    for (size_t k = 0; k < f.size(); k++) s += (k ? "   " : " - ") + f[k] + "\n";
    if (r.chance(0.5)) s += "\n";
  }
  return s;
}
}  // namespace

VH_SUITE(world, 1500, 40000) {
  auto& r = c.rng;
  rosmock::reset();
  double now = 1000;
  rosmock::setTime(now);
  Scratch& sc = scratch();
  sc.clear();
  // model directories
  std::vector<std::string> places;
  for (int i = 0, n = r.range(0, 3); i < n; i++) places.push_back(sc.sub(fmt("place%d", i)));
  std::string home = sc.sub("home");
  sc.sub("home/.gazebo");
  std::string last = sc.sub("home/.gazebo/models");
  int pathMode = r.below(4);
  std::string mp;
  for (auto& p : places) mp += (mp.empty() ? "" : ":") + p;
  if (pathMode == 3) {
    unsetenv("GAZEBO_MODEL_PATH");
    places.clear();
  } else {
    setenv("GAZEBO_MODEL_PATH", mp.c_str(), 1);
  }
  std::vector<std::string> search = places;
  if (r.chance(0.85)) {
    setenv("HOME", home.c_str(), 1);
    search.push_back(last);
  } else {
    unsetenv("HOME");
  }
  std::map<std::string, std::string> where;  // of each model, "" if nowhere
  auto model = [&](const std::string& name) {
    std::string found;
    for (auto& p : search) {
      struct stat st;
      if (found.empty() && stat((p + "/" + name).c_str(), &st) == 0 && S_ISREG(st.st_mode)) found = p;
    }
    return found.empty() ? "" : "file://" + found + "/" + name;
  };
  std::vector<std::string> models = {"tree.dae", "house.dae", "wall.stl", "gone.dae"};
  for (auto& m : models)
    for (auto& p : search) {
      if (m == "gone.dae") continue;
      if (r.chance(0.4)) sc.write(p + "/" + m, "mesh");
      else if (r.chance(0.2)) sc.sub((p + "/" + m).substr(sc.dir.size() + 1));  // a directory of that name is no model
    }
  bool drone = r.chance(0.5) && !search.empty();
  if (drone) {
    std::string p = r.pick(search);
    sc.sub((p + "/matrice_100").substr(sc.dir.size() + 1));
    sc.sub((p + "/matrice_100/meshes").substr(sc.dir.size() + 1));
    sc.write(p + "/matrice_100/meshes/Matrice_100.dae", "mesh");
  }
  std::string ns = r.pick<const char*>({"", "/node", "/sim/local_planner"});
  std::string file = sc.dir + "/world.yaml";
  bool configured = r.chance(0.9);
  if (configured) rosmock::bus().sparams[ns.empty() ? "world_name" : ns + "/world_name"] = file;
  std::unique_ptr<WorldVisualizer> v;
  vh::Hasher h;
  try {
    v.reset(new WorldVisualizer(ros::NodeHandle(""), ns));
    for (int round = 0, n = r.range(1, 4); round < n; round++) {
      std::vector<Obj> o;
      for (int i = 0, k = r.pick({0, 1, 3, 12}); i < k; i++) {
        Obj x;
        x.type = r.pick<const char*>({"cube", "sphere", "cylinder", "cube", "mesh"});
        x.name = fmt("thing_%d", i);
        x.frame = r.pick<const char*>({"local_origin", "world", "map"});
        if (x.type == "mesh") {
          std::string m = r.chance(0.03) ? "gone.dae" : r.pick(models);
          x.mesh = r.chance(0.6) ? "model://" + m : r.pick<const char*>({"file:///tmp/none.dae", "package://x/y.dae"});
          x.uri = x.mesh.compare(0, 8, "model://") ? x.mesh : model(m);
          if (x.uri.empty()) x.bad = true;
        }
        for (auto& f : x.v) f = r.chance(0.2) ? r.pick({0.f, 1.f, -2.5f}) : r.unif(-100, 100);
        o.push_back(x);
      }
      int kind = r.pick({0, 0, 0, 1, 2, 3});  // sound, sound, sound, one object broken, bytes damaged, no such file
      bool judge = true, nothing = false;
      std::string text = yaml(r, o, kind == 1);
      if (kind == 2) {
        for (int i = 0, k = r.range(1, 6); i < k && !text.empty(); i++) {
          size_t at = r.below(text.size());
          if (r.chance(0.5)) text[at] = (char)r.next();
          else if (r.chance(0.5)) text.erase(at, r.below(40));
          else text.insert(at, r.pick<const char*>({"- ", ": ", "[", "]", "{", "&a ", "*a ", "\n", "  ", "!!", "%", "\"", "---\n", "...\n"}));
        }
        judge = false;
      }
      sc.write(file, text);
      if (kind == 3) unlink(file.c_str());
      nothing = !configured;
      for (auto& x : o) nothing |= x.bad;
      rosmock::clearLog();
      rosmock::setTime(now += r.uni(0.1, 3));
      int fired = rosmock::fire(2.0);
      auto got = rosmock::taken<visualization_msgs::MarkerArray>("world");
      std::string ctx = fmt("world file of %zu objects (%s), model path %s", o.size(), kind == 0 ? "sound" : kind == 1 ? "one broken" : kind == 2 ? "damaged" : "missing", pathMode == 3 ? "unset" : mp.c_str());
      if (fired != 1) c.fail("no-timer", fmt("%d timers of 2 s", fired));
      c.evals(1);
      if (kind == 3) {
        if (!got.empty() && !got[0].markers.empty()) c.fail("shown-from-nowhere", ctx);
        c.count("missing files survived");
      } else if (!judge) {
        c.count("damaged files survived");
      } else if (nothing) {
        if (!got.empty()) c.fail("shown-although-broken", ctx + fmt(": %zu markers published", got[0].markers.size()));
        c.count(configured ? "broken worlds refused" : "runs without a world");
      } else {
        if (got.size() != 1) {
          c.fail("not-shown", ctx + fmt(": %zu messages published", got.size()));
          return;
        }
        auto& ms = got[0].markers;
        if (ms.size() != o.size()) {
          c.fail("object-count", ctx + fmt(": %zu markers", ms.size()));
          return;
        }
        std::set<int> ids;
        for (size_t i = 0; i < ms.size(); i++) {
          auto& m = ms[i];
          auto& x = o[i];
          int type = x.type == "cube" ? (int)M::CUBE : x.type == "sphere" ? (int)M::SPHERE : x.type == "cylinder" ? (int)M::CYLINDER : (int)M::MESH_RESOURCE;
          double w[10] = {m.pose.position.x, m.pose.position.y, m.pose.position.z, m.pose.orientation.x, m.pose.orientation.y, m.pose.orientation.z, m.pose.orientation.w, m.scale.x, m.scale.y, m.scale.z};
          for (int k = 0; k < 10; k++)
            if (!vh::close(w[k], x.v[k], 1e-6, 1e-6)) c.fail("geometry", ctx + fmt(": object %zu (%s): value %d is %g, %g in the file", i, x.type.c_str(), k, w[k], x.v[k]));
          if (m.type != type || m.action != M::ADD) c.fail("shape", ctx + fmt(": object %zu (%s) shown as type %d", i, x.type.c_str(), (int)m.type));
          if (m.mesh_resource != x.uri) c.fail("model", ctx + fmt(": %s resolved to \"%s\", expected \"%s\"", x.mesh.c_str(), m.mesh_resource.c_str(), x.uri.c_str()));
          if (type == M::MESH_RESOURCE ? !m.mesh_use_embedded_materials : !(m.color.a > 0)) c.fail("invisible", ctx + fmt(": object %zu", i));
          if (m.header.frame_id != x.frame || !(m.header.stamp == ros::Time::now())) c.fail("header", ctx + fmt(": frame %s, %s in the file", m.header.frame_id.c_str(), x.frame.c_str()));
          if (!ids.insert(m.id).second) c.fail("same-id", ctx + fmt(": id %d twice: one object hides the other", m.id));
          c.count(("objects shown: " + x.type).c_str());
        }
        h << (int)ms.size() << (ms.empty() ? 0.f : ms[0].pose.position.x);
        c.count("worlds compared");
      }
      // the vehicle
      geometry_msgs::PoseStamped p;
      p.pose.position.x = r.unif(-50, 50), p.pose.position.y = r.unif(-50, 50), p.pose.position.z = r.unif(-5, 50);
      p.pose.orientation.x = r.unif(-1, 1), p.pose.orientation.y = r.unif(-1, 1), p.pose.orientation.z = r.unif(-1, 1), p.pose.orientation.w = r.unif(-1, 1);
      rosmock::clearLog();
      rosmock::deliver<geometry_msgs::PoseStamped>("mavros/local_position/pose", p);
      auto dr = rosmock::taken<M>("drone");
      std::string want = configured ? model("matrice_100/meshes/Matrice_100.dae") : "";
      if (want.empty()) {
        if (!dr.empty()) c.fail("drone-from-nowhere", ctx);
      } else if (dr.size() != 1) {
        c.fail("drone-not-shown", ctx + fmt(": %zu markers for a pose", dr.size()));
      } else {
        auto& m = dr[0];
        auto &a = m.pose, &b = p.pose;
        if (a.position.x != b.position.x || a.position.y != b.position.y || a.position.z != b.position.z || a.orientation.x != b.orientation.x || a.orientation.y != b.orientation.y ||
            a.orientation.z != b.orientation.z || a.orientation.w != b.orientation.w)
          c.fail("drone-pose", ctx);
        if (m.mesh_resource != want || m.type != M::MESH_RESOURCE || m.header.frame_id != "local_origin" || !(m.header.stamp == ros::Time::now()) || m.action != M::ADD) c.fail("drone-marker", ctx + ": " + m.mesh_resource);
        c.count("vehicle markers compared");
      }
    }
  } catch (const std::exception& e) {
    c.fail("exception", fmt("an exception left the node's callback and ends it: %s (model path %s)", e.what(), pathMode == 3 ? "unset" : mp.c_str()));
  }
  v.reset();
  sc.clear();
  c.distinct(h);
  if (c.index < 2) c.sample(fmt("%zu places searched for models, world %s", search.size(), configured ? "configured" : "not configured"));
}

// the worlds shipped with the simulation
VH_SUITE(shipped, 1, 1) {
  std::string dir = std::string(getenv("VH_REPO") ? getenv("VH_REPO") : "/repo") + "/avoidance/sim/worlds/";
  for (const char* f : {"boxes1", "boxes2", "boxes3", "boxes4", "boxes5", "boxes6", "simple_obstacle", "window"}) {
    rosmock::reset();
    rosmock::setTime(10);
    rosmock::bus().sparams["/n/world_name"] = dir + f + ".yaml";
    std::ifstream in(dir + f + ".yaml");
    size_t objects = 0;
    bool meshes = false;
    for (std::string l; std::getline(in, l);) objects += l.find("- type:") != std::string::npos, meshes |= l.find("model://") != std::string::npos;
    if (!objects || meshes) {
      c.count("shipped worlds that need models installed");
      continue;
    }
    try {
      WorldVisualizer v(ros::NodeHandle(""), "/n");
      rosmock::fire(2.0);
    } catch (const std::exception& e) {
      c.fail("shipped-exception", fmt("%s: %s", f, e.what()));
    }
    auto got = rosmock::taken<visualization_msgs::MarkerArray>("world");
    if (got.size() != 1 || got[0].markers.size() != objects) c.fail("shipped-world", fmt("%s: %zu objects in the file, %zu shown", f, objects, got.empty() ? 0 : got[0].markers.size()));
    c.count("shipped worlds compared");
    c.evals(1);
  }
}
