// reference model of the graph cache and random histories run on both (graph.cpp, context.cpp)
#pragma once
#include "common.hpp"
#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <tuple>
#include <thread>
#include <atomic>
#include <condition_variable>
#include <unordered_map>
#ifdef PEEK
#define private public
#endif
#include "rmw_dds_common/graph_cache.hpp"
#undef private
#include "rmw/qos_profiles.h"
#include "rosidl_runtime_c/type_hash.h"

using rmw_dds_common::GraphCache;
typedef std::array<uint8_t, RMW_GID_STORAGE_SIZE> Key;
typedef rmw_dds_common::msg::ParticipantEntitiesInfo Msg;
typedef rmw_dds_common::msg::NodeEntitiesInfo NodeMsg;

static std::string g_prop;
struct Other {};   // a check of another property failed: this case cannot say anything more
static std::vector<std::string> g_log;
static std::string history()
{
  std::string s;
  for (auto & l : g_log) {s += " | " + l;}
  return s;
}
#define CHECK(tag, cond, what) \
  do { \
    if (!(cond)) { \
      if (g_prop != (tag)) {throw Other();} \
      std::ostringstream o_; \
      o_ << what << "; history" << history(); \
      throw Fail{o_.str()}; \
    } \
  } while (0)

struct MEnt
{
  std::string topic, type;
  rosidl_type_hash_t hash;
  Key part;
  rmw_qos_profile_t qos;
};
struct MNode
{
  std::string name, ns;
  std::vector<Key> r, w;
  bool operator==(const MNode & o) const
  {
    return name == o.name && ns == o.ns && r == o.r && w == o.w;
  }
};
struct MPart {std::string enclave; std::vector<MNode> nodes;};
struct Model
{
  std::map<Key, MEnt> writers, readers;
  std::map<Key, MPart> parts;
};

static bool same_time(rmw_time_t a, rmw_time_t b) {return a.sec == b.sec && a.nsec == b.nsec;}
static bool same_qos(const rmw_qos_profile_t & a, const rmw_qos_profile_t & b)
{
  return a.history == b.history && a.depth == b.depth && a.reliability == b.reliability &&
         a.durability == b.durability && same_time(a.deadline, b.deadline) &&
         same_time(a.lifespan, b.lifespan) && a.liveliness == b.liveliness &&
         same_time(a.liveliness_lease_duration, b.liveliness_lease_duration) &&
         a.avoid_ros_namespace_conventions == b.avoid_ros_namespace_conventions;
}
static bool same_hash(const rosidl_type_hash_t & a, const rosidl_type_hash_t & b)
{
  return a.version == b.version && memcmp(a.value, b.value, sizeof(a.value)) == 0;
}

// ------------------------------------------------------------------ values
static rmw_gid_t to_gid(const Key & k)
{
  rmw_gid_t g;
  static const char * ids[] = {nullptr, "impl_a", "impl_b"};
  static int n = 0;
  g.implementation_identifier = ids[n++ % 3];
  memcpy(g.data, k.data(), k.size());
  return g;
}
static Key to_key(const rmw_dds_common::msg::Gid & g)
{
  Key k;
  std::copy(g.data.begin(), g.data.end(), k.begin());
  return k;
}
static rmw_dds_common::msg::Gid to_msg(const Key & k)
{
  rmw_dds_common::msg::Gid g;
  std::copy(k.begin(), k.end(), g.data.begin());
  return g;
}
static std::vector<MNode> nodes_of(const Msg & m)
{
  std::vector<MNode> v;
  for (auto & n : m.node_entities_info_seq) {
    MNode x;
    x.name = n.node_name;
    x.ns = n.node_namespace;
    for (auto & g : n.reader_gid_seq) {x.r.push_back(to_key(g));}
    for (auto & g : n.writer_gid_seq) {x.w.push_back(to_key(g));}
    v.push_back(x);
  }
  return v;
}
static Msg msg_of(const Key & k, const std::vector<MNode> & v)
{
  Msg m;
  m.gid = to_msg(k);
  for (auto & n : v) {
    NodeMsg x;
    x.node_name = n.name;
    x.node_namespace = n.ns;
    for (auto & g : n.r) {x.reader_gid_seq.push_back(to_msg(g));}
    for (auto & g : n.w) {x.writer_gid_seq.push_back(to_msg(g));}
    m.node_entities_info_seq.push_back(x);
  }
  return m;
}
static std::string show(const Key & k)
{
  char b[16];
  snprintf(b, sizeof(b), "%02x..%02x%02x", k[0], k[14], k[15]);
  return b;
}
static std::string show(const std::vector<MNode> & v)
{
  std::string s = "[";
  for (auto & n : v) {
    s += n.ns + "/" + n.name + "(r:";
    for (auto & k : n.r) {s += show(k) + " ";}
    s += "w:";
    for (auto & k : n.w) {s += show(k) + " ";}
    s += ") ";
  }
  return s + "]";
}

// small pools so that operations collide
static Key part_key(Rng & r)
{
  static const uint8_t a[] = {0, 1, 128, 255};
  Key k;
  k.fill(0);
  k[0] = a[r.below(4)];
  return k;
}
static Key ent_key(Rng & r)
{
  static const uint8_t a[] = {0, 1, 127, 128, 255};
  Key k;
  k.fill(7);
  k[r.coin() ? 15 : 0] = a[r.below(5)];
  return k;
}
static std::string topic(Rng & r)
{
  static const std::vector<std::string> v{"", "rt/a", "rt/b", "rt/a/b", "rs/a", "x"};
  return r.pick(v);
}
static std::string type(Rng & r)
{
  static const std::vector<std::string> v{"T", "U", "pkg::T_", "", "T"};
  return r.pick(v);
}
static std::string node_name(Rng & r)
{
  static const std::vector<std::string> v{"n", "m", "nsn", "node_with_a_rather_long_name"};   // "/" + "nsn" is "/ns" + "n"
  return r.pick(v);
}
static std::string node_ns(Rng & r)
{
  static const std::vector<std::string> v{"/", "/ns", "/"};
  return r.pick(v);
}
static rosidl_type_hash_t hash(Rng & r)
{
  rosidl_type_hash_t h;
  memset(&h, 0, sizeof(h));
  h.version = static_cast<uint8_t>(r.below(3));
  for (auto & b : h.value) {b = static_cast<uint8_t>(r.next());}
  return h;
}
static rmw_time_t time_of(Rng & r)
{
  rmw_time_t t;
  t.sec = r.coin() ? 0 : r.next() >> r.below(64);
  t.nsec = r.coin() ? 0 : r.below(1000000000);
  return t;
}
static rmw_qos_profile_t qos(Rng & r)
{
  rmw_qos_profile_t q;
  memset(&q, 0, sizeof(q));
  q.history = static_cast<rmw_qos_history_policy_t>(r.below(4));
  q.depth = r.next() >> r.below(64);
  q.reliability = static_cast<rmw_qos_reliability_policy_t>(r.below(5));
  q.durability = static_cast<rmw_qos_durability_policy_t>(r.below(5));
  q.liveliness = static_cast<rmw_qos_liveliness_policy_t>(r.below(5));
  q.deadline = time_of(r);
  q.lifespan = time_of(r);
  q.liveliness_lease_duration = time_of(r);
  q.avoid_ros_namespace_conventions = r.coin();
  return q;
}

// ------------------------------------------------------------------ the model's operations
static MNode * first_node(MPart & p, const std::string & name, const std::string & ns)
{
  for (auto & n : p.nodes) {
    if (n.name == name && n.ns == ns) {return &n;}
  }
  return nullptr;
}

struct Run
{
  GraphCache & g;
  Model m;
  int calls = 0;
  bool has_cb = false;
  Rng & r;

  Run(GraphCache & g_, Rng & r_) : g(g_), r(r_) {}

  void set_cb()
  {
    if (r.coin()) {
      std::function<void()> f = [this] {++calls;};
      g.set_on_change_callback(f);
    } else {
      g.set_on_change_callback([this] {++calls;});
    }
    has_cb = true;
    g_log.push_back("set_on_change_callback");
  }

  // private state against the model, attributed to the property of the operation
  void state(const char * tag, const char * op)
  {
#ifdef PEEK
    for (int rd = 0; rd < 2; ++rd) {
      auto & real = rd ? g.data_readers_ : g.data_writers_;
      auto & mod = rd ? m.readers : m.writers;
      CHECK(tag, real.size() == mod.size(), op << ": " << real.size() << " known " <<
        (rd ? "readers" : "writers") << " instead of " << mod.size());
      for (auto & e : mod) {
        auto it = real.find(to_gid(e.first));
        CHECK(tag, it != real.end(), op << ": endpoint " << show(e.first) << " missing");
        auto & x = it->second;
        CHECK(tag, x.topic_name == e.second.topic && x.topic_type == e.second.type,
          op << ": topic or type of " << show(e.first) << " differs");
        CHECK(tag, same_hash(x.topic_type_hash, e.second.hash), op << ": type hash differs");
        CHECK(tag, memcmp(x.participant_gid.data, e.second.part.data(), 16) == 0,
          op << ": participant of endpoint differs");
        CHECK(tag, same_qos(x.qos, e.second.qos), op << ": QoS of endpoint differs");
      }
    }
    CHECK(tag, g.participants_.size() == m.parts.size(), op << ": " << g.participants_.size() <<
      " participants instead of " << m.parts.size());
    for (auto & e : m.parts) {
      auto it = g.participants_.find(to_gid(e.first));
      CHECK(tag, it != g.participants_.end(), op << ": participant missing");
      CHECK(tag, it->second.enclave == e.second.enclave, op << ": enclave of " << show(e.first) <<
        " is '" << it->second.enclave << "' instead of '" << e.second.enclave << "'");
      Msg t;
      t.node_entities_info_seq = it->second.node_entities_info_seq;
      auto real = nodes_of(t);
      CHECK(tag, real == e.second.nodes, op << ": nodes of " << show(e.first) << " are " <<
        show(real) << " instead of " << show(e.second.nodes));
    }
#else
    (void)tag; (void)op;
#endif
  }

  void called(bool changed, const char * op)
  {
    int want = has_cb && changed ? 1 : 0;
    int got = calls;
    calls = 0;
    CHECK("C18", got == want, op << ": callback called " << got << " times instead of " << want);
  }

  void message(const char * tag, const Msg & x, const Key & k, const char * op)
  {
    CHECK(tag, to_key(x.gid) == k, op << ": message carries another participant");
    CHECK(tag, nodes_of(x) == m.parts[k].nodes, op << ": message holds " << show(nodes_of(x)) <<
      " instead of " << show(m.parts[k].nodes));
  }

  // ---------------------------------------------------------------- endpoints
  void add_endpoint(bool rd)
  {
    Key k = ent_key(r), p = part_key(r);
    MEnt e;
    e.topic = topic(r);
    e.type = type(r);
    e.part = p;
    e.qos = qos(r);
    bool hashed = r.coin(3, 4);
    e.hash = hashed ? hash(r) : rosidl_get_zero_initialized_type_hash();
    g_log.push_back(std::string("add ") + (rd ? "reader " : "writer ") + show(k) + " '" + e.topic +
      "' '" + e.type + "' of " + show(p) + (hashed ? "" : " (no hash)"));
    auto & mod = rd ? m.readers : m.writers;
    bool fresh = mod.emplace(k, e).second;
    bool got;
    rmw_gid_t kg = to_gid(k), pg = to_gid(p);
    bool ent = r.coin();
    if (hashed) {
      got = ent ? g.add_entity(kg, e.topic, e.type, e.hash, pg, e.qos, rd) :
        rd ? g.add_reader(kg, e.topic, e.type, e.hash, pg, e.qos) :
        g.add_writer(kg, e.topic, e.type, e.hash, pg, e.qos);
    } else {
      got = ent ? g.add_entity(kg, e.topic, e.type, pg, e.qos, rd) :
        rd ? g.add_reader(kg, e.topic, e.type, pg, e.qos) :
        g.add_writer(kg, e.topic, e.type, pg, e.qos);
    }
    CHECK("C14", got == fresh, "adding an endpoint returned " << got);
    state("C14", "adding an endpoint");
    called(fresh, "adding an endpoint");
  }
  void remove_endpoint(bool rd)
  {
    auto & mod = rd ? m.readers : m.writers;
    Key k = ent_key(r);
    if (!mod.empty() && r.coin()) {k = std::next(mod.begin(), r.below(mod.size()))->first;}
    g_log.push_back(std::string("remove ") + (rd ? "reader " : "writer ") + show(k));
    bool was = mod.erase(k) > 0;
    rmw_gid_t kg = to_gid(k);
    bool got = r.coin() ? g.remove_entity(kg, rd) : rd ? g.remove_reader(kg) : g.remove_writer(kg);
    CHECK("C14", got == was, "removing an endpoint returned " << got);
    state("C14", "removing an endpoint");
    called(was, "removing an endpoint");
  }

  // ---------------------------------------------------------------- participants
  void add_participant()
  {
    Key k = part_key(r);
    std::string e = r.coin() ? "/enclave" : r.coin() ? "/other" : "";
    g_log.push_back("add participant " + show(k) + " '" + e + "'");
    m.parts[k].enclave = e;
    g.add_participant(to_gid(k), e);
    state("C15", "adding a participant");
    called(true, "adding a participant");
  }
  void remove_participant()
  {
    Key k = part_key(r);
    g_log.push_back("remove participant " + show(k));
    bool was = m.parts.erase(k) > 0;
    bool got = g.remove_participant(to_gid(k));
    CHECK("C15", got == was, "removing a participant returned " << got);
    state("C15", "removing a participant");
    called(was, "removing a participant");
  }
  void update()
  {
    Key k = part_key(r);
    std::vector<MNode> v(r.below(4));
    for (auto & n : v) {
      n.name = node_name(r);
      n.ns = node_ns(r);
      for (size_t i = r.below(4); i > 0; --i) {n.r.push_back(ent_key(r));}
      for (size_t i = r.below(4); i > 0; --i) {n.w.push_back(ent_key(r));}
    }
    g_log.push_back("message of " + show(k) + " " + show(v));
    m.parts[k].nodes = v;
    g.update_participant_entities(msg_of(k, v));
    state("C15", "an entities message");
    called(true, "an entities message");
  }

  // ---------------------------------------------------------------- nodes
  bool some_part(Key & k)
  {
    if (m.parts.empty()) {return false;}
    k = std::next(m.parts.begin(), r.below(m.parts.size()))->first;
    return true;
  }
  bool some_node(Key & k, std::string & name, std::string & ns)
  {
    std::vector<std::pair<Key, const MNode *>> all;
    for (auto & p : m.parts) {
      for (auto & n : p.second.nodes) {all.push_back({p.first, &n});}
    }
    if (all.empty()) {return false;}
    auto x = all[r.below(all.size())];
    k = x.first;
    name = x.second->name;
    ns = x.second->ns;
    return true;
  }
  void add_node()
  {
    Key k;
    if (!some_part(k)) {return;}
    MNode n;
    n.name = node_name(r);
    n.ns = node_ns(r);
    g_log.push_back("add node " + n.ns + "/" + n.name + " to " + show(k));
    m.parts[k].nodes.push_back(n);
    Msg x = g.add_node(to_gid(k), n.name, n.ns);
    message("C16", x, k, "adding a node");
    state("C16", "adding a node");
    called(true, "adding a node");
  }
  void remove_node()
  {
    Key k;
    std::string name, ns;
    if (!some_node(k, name, ns)) {return;}
    g_log.push_back("remove node " + ns + "/" + name + " of " + show(k));
    auto & v = m.parts[k].nodes;
    v.erase(v.begin() + (first_node(m.parts[k], name, ns) - v.data()));
    Msg x = g.remove_node(to_gid(k), name, ns);
    message("C16", x, k, "removing a node");
    state("C16", "removing a node");
    called(true, "removing a node");
  }
  void associate(bool rd, bool add)
  {
    Key k, e = ent_key(r);
    std::string name, ns;
    if (!some_node(k, name, ns)) {return;}
    MNode * n = first_node(m.parts[k], name, ns);
    auto & l = rd ? n->r : n->w;
    if (!add && !l.empty() && r.coin(3, 4)) {e = l[r.below(l.size())];}
    g_log.push_back(std::string(add ? "associate " : "dissociate ") + (rd ? "reader " : "writer ") +
      show(e) + " with " + ns + "/" + name + " of " + show(k));
    if (add) {
      l.push_back(e);
    } else {
      auto it = std::find(l.begin(), l.end(), e);
      if (it != l.end()) {l.erase(it);}
    }
    rmw_gid_t eg = to_gid(e), pg = to_gid(k);
    Msg x = add ? (rd ? g.associate_reader(eg, pg, name, ns) : g.associate_writer(eg, pg, name, ns)) :
      (rd ? g.dissociate_reader(eg, pg, name, ns) : g.dissociate_writer(eg, pg, name, ns));
    const char * op = add ? "associating an endpoint" : "dissociating an endpoint";
    message("C17", x, k, op);
    state("C17", op);
    called(true, op);
  }

  void callback()
  {
    if (r.coin()) {
      set_cb();
    } else {
      g_log.push_back("clear_on_change_callback");
      g.clear_on_change_callback();
      has_cb = false;
    }
    called(false, "changing the callback");
  }

  void step()
  {
    switch (r.below(18)) {
      case 0: case 1: case 2: add_endpoint(r.coin()); break;
      case 3: remove_endpoint(r.coin()); break;
      case 4: case 5: add_participant(); break;
      case 6: remove_participant(); break;
      case 7: case 8: update(); break;
      case 9: case 10: case 11: add_node(); break;
      case 12: remove_node(); break;
      case 13: case 14: associate(r.coin(), true); break;
      case 15: associate(r.coin(), false); break;
      case 16: callback(); break;
      default: add_endpoint(r.coin()); break;
    }
  }
};
