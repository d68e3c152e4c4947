// concrete harness for C25-C27: the real context.cpp and graph_cache.cpp against the model, with
// every lock operation observed
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include "graph_model.hpp"
#include "rmw_dds_common/context.hpp"

using rmw_dds_common::Context;

// ------------------------------------------------------------------ lock observation
struct Event {char kind; const void * m;};   // L lock, U unlock, W graph change, P publication
static std::vector<Event> * g_events = nullptr;
static const void * g_deadlock = nullptr;
typedef int (* LockFn)(pthread_mutex_t *);
static bool held(const void * m)
{
  bool h = false;
  if (g_events) {
    for (auto & e : *g_events) {
      if (e.m == m && e.kind == 'L') {h = true;}
      if (e.m == m && e.kind == 'U') {h = false;}
    }
  }
  return h;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t * m)
{
  static LockFn real = reinterpret_cast<LockFn>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
  if (g_events) {
    if (held(m)) {
      std::cout << "FAIL property=" << g_prop << ": a lock already held is acquired again; history" <<
        history() << std::endl;
      _exit(1);
    }
    auto * l = g_events;
    g_events = nullptr;
    l->push_back({'L', m});
    g_events = l;
  }
  return real(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t * m)
{
  static LockFn real = reinterpret_cast<LockFn>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
  if (g_events) {
    auto * l = g_events;
    g_events = nullptr;
    l->push_back({'U', m});
    g_events = l;
  }
  return real(m);
}

// ------------------------------------------------------------------ the context and its model
struct Published {const rmw_publisher_t * pub; Key gid; std::vector<MNode> nodes;};

struct CRun
{
  Context c;
  Rng & r;
  Run t;
  Key me;
  rmw_publisher_t publisher;
  std::vector<Published> msgs;
  std::vector<Event> events;
  bool fail_publish = false;
  rmw_ret_t failure = RMW_RET_ERROR;
  Context::publish_callback_t published;

  // the publisher or the callback may be missing, also after nodes were added
  void choose()
  {
    c.pub = r.coin(7, 8) ? &publisher : nullptr;
    if (r.coin(7, 8)) {
      c.publish_callback = published;
    } else {
      c.publish_callback = nullptr;
    }
    if (!c.pub || !c.publish_callback) {
      g_log.push_back(c.pub ? "(no publish callback)" : "(no publisher)");
    }
  }

  explicit CRun(Rng & r_) : r(r_), t(c.graph_cache, r_)
  {
    memset(&publisher, 0, sizeof(publisher));
    me = part_key(r);
    c.gid = to_gid(me);
    published = [this](const rmw_publisher_t * p, const void * m) {
        auto * l = g_events;
        g_events = nullptr;
        const Msg & x = *static_cast<const Msg *>(m);
        msgs.push_back({p, to_key(x.gid), nodes_of(x)});
        events.push_back({'P', nullptr});
        g_events = l;
        return fail_publish ? failure : RMW_RET_OK;
      };
    choose();
    c.graph_cache.set_on_change_callback([this] {
        auto * l = g_events;
        g_events = nullptr;
        events.push_back({'W', nullptr});
        g_events = l;
      });
    t.m.parts[me].enclave = "/e";
    c.graph_cache.add_participant(c.gid, "/e");
  }

  bool in_graph(const void * m) const
  {
    auto a = reinterpret_cast<const char *>(&c.graph_cache), x = static_cast<const char *>(m);
    return x >= a && x < a + sizeof(c.graph_cache);
  }
  bool is_update_lock(const void * m) const
  {
    auto a = reinterpret_cast<const char *>(&c), x = static_cast<const char *>(m);
    return x >= a && x < a + sizeof(c) && !in_graph(m);
  }

  // every change under the graph's lock; every change and the publication inside one
  // uninterrupted section of the update lock
  void locks(const char * op, bool context_op)
  {
    int section = 0, used = -1;
    std::map<const void *, int> depth;
    for (auto & e : events) {
      bool update = false, graph = false;
      for (auto & d : depth) {
        update |= d.second > 0 && is_update_lock(d.first);
        graph |= d.second > 0 && in_graph(d.first);
      }
      if (e.kind == 'L') {
        ++depth[e.m];
        if (is_update_lock(e.m)) {++section;}
        continue;
      }
      if (e.kind == 'U') {--depth[e.m]; continue;}
      CHECK("C27", e.kind != 'W' || graph, op << ": the graph changes without its lock");
      if (!context_op) {continue;}
      CHECK("C27", update, op << ": " << (e.kind == 'W' ? "graph update" : "publication") <<
        " without the update lock");
      CHECK("C27", used == -1 || used == section, op <<
        ": update and publication in different critical sections");
      used = section;
    }
    for (auto & d : depth) {CHECK("C27", d.second == 0, op << ": a lock is not released");}
  }

  void state(const char * tag, const char * op)
  {
#ifdef PEEK
    t.state(tag, op);
#else
    (void)tag; (void)op;
#endif
  }

  void outcome(const char * tag, rmw_ret_t ret, const std::vector<MNode> & after,
    const std::vector<MNode> & before, bool rollback, const char * op)
  {
    g_events = nullptr;
    bool possible = c.pub && c.publish_callback;
    bool good = possible && !fail_publish;
    CHECK(tag, (ret == RMW_RET_OK) == good && (good || ret == RMW_RET_ERROR), op << ": returned " <<
      ret);
    CHECK(tag, msgs.size() == (possible ? 1u : 0u), op << ": " << msgs.size() <<
      " messages published");
    for (auto & m : msgs) {
      CHECK(tag, m.pub == &publisher, op << ": published through another publisher");
      CHECK(tag, m.gid == me, op << ": message of another participant");
      CHECK(tag, m.nodes == after, op << ": message holds " << show(m.nodes) << " instead of " <<
        show(after));
    }
    t.m.parts[me].nodes = !good && rollback ? before : after;
    state(tag, op);
    locks(op, true);
  }

  void begin()
  {
    msgs.clear();
    events.clear();
    if (r.coin(1, 4)) {choose();}
    fail_publish = r.coin(1, 3);
    failure = r.coin() ? RMW_RET_ERROR : RMW_RET_TIMEOUT;
    g_events = &events;
  }

  void node_op(bool add)
  {
    auto before = t.m.parts[me].nodes;
    auto after = before;
    std::string name = node_name(r), ns = node_ns(r);
    if (add) {
      after.push_back(MNode{name, ns, {}, {}});
    } else {
      if (before.empty()) {return;}
      auto & n = before[r.below(before.size())];
      name = n.name;
      ns = n.ns;
      after.erase(after.begin() + (first_node(t.m.parts[me], name, ns) -
        t.m.parts[me].nodes.data()));
    }
    g_log.push_back(std::string(add ? "add" : "remove") + "_node_graph " + ns + "/" + name);
    begin();
    if (fail_publish) {g_log.push_back("(publishing fails)");}
    rmw_ret_t ret = add ? c.add_node_graph(name, ns) : c.remove_node_graph(name, ns);
    outcome(add ? "C25" : "C26", ret, after, before, add, add ? "add_node_graph" :
      "remove_node_graph");
  }

  void endpoint_op(bool add)
  {
    auto before = t.m.parts[me].nodes;
    if (before.empty()) {return;}
    auto pick = before[r.below(before.size())];
    std::string name = pick.name, ns = pick.ns;
    auto after = before;
    MPart tmp;
    tmp.nodes = after;
    MNode * n = first_node(tmp, name, ns);
    Key a = ent_key(r), b = ent_key(r);
    int kind = static_cast<int>(r.below(4));
    static const char * names[] = {"publisher", "subscriber", "client", "service"};
    auto & la = kind == 0 || kind == 2 ? n->w : n->r;   // list of the first GID
    auto & lb = kind == 2 ? n->r : n->w;                // list of the second one
    auto has = [](const std::vector<Key> & l, const Key & k) {
        return std::find(l.begin(), l.end(), k) != l.end();
      };
    if (!add && !la.empty() && r.coin(3, 4)) {a = la[r.below(la.size())];}
    if (!add && kind > 1 && !lb.empty() && r.coin(3, 4)) {b = lb[r.below(lb.size())];}
    if (add && (has(la, a) || (kind > 1 && has(lb, b)))) {return;}
    auto edit = [&](std::vector<Key> & l, const Key & k) {
        if (add) {
          l.push_back(k);
        } else {
          auto it = std::find(l.begin(), l.end(), k);
          if (it != l.end()) {l.erase(it);}
        }
      };
    edit(la, a);
    if (kind > 1) {edit(lb, b);}
    after = tmp.nodes;
    std::string op = std::string(add ? "add_" : "remove_") + names[kind] + "_graph";
    g_log.push_back(op + " " + show(a) + " " + show(b) + " of " + ns + "/" + name);
    rmw_gid_t ga = to_gid(a), gb = to_gid(b);
    begin();
    if (fail_publish) {g_log.push_back("(publishing fails)");}
    rmw_ret_t ret;
    switch (kind) {
      case 0:
        ret = add ? c.add_publisher_graph(ga, name, ns) : c.remove_publisher_graph(ga, name, ns);
        break;
      case 1:
        ret = add ? c.add_subscriber_graph(ga, name, ns) : c.remove_subscriber_graph(ga, name, ns);
        break;
      case 2:
        ret = add ? c.add_client_graph(ga, gb, name, ns) : c.remove_client_graph(ga, gb, name, ns);
        break;
      default:
        ret = add ? c.add_service_graph(ga, gb, name, ns) :
          c.remove_service_graph(ga, gb, name, ns);
    }
    outcome(add ? "C25" : "C26", ret, after, before, add, op.c_str());
  }

  // the plain graph operations, observed for the lock discipline
  void graph_op()
  {
    if (g_prop != "C27") {return;}
    events.clear();
    msgs.clear();
    g_events = &events;
    std::string tp = topic(r);
    size_t n;
    rmw_gid_t g = to_gid(ent_key(r));
    std::string nn = node_name(r), ns = node_ns(r);
    switch (r.below(8)) {
      case 0: c.graph_cache.add_writer(g, tp, "T", rosidl_get_zero_initialized_type_hash(), c.gid,
          rmw_qos_profile_default); t.m.writers.clear(); break;
      case 1: c.graph_cache.add_reader(g, tp, "T", rosidl_get_zero_initialized_type_hash(), c.gid,
          rmw_qos_profile_default); break;
      case 2: c.graph_cache.remove_writer(g); break;
      case 3: c.graph_cache.remove_reader(g); break;
      case 4: (void)!c.graph_cache.get_writer_count(tp, &n); break;
      case 5: (void)!c.graph_cache.get_reader_count(tp, &n); break;
      case 6: (void)c.graph_cache.get_number_of_nodes(); break;
      default: c.graph_cache.add_participant(c.gid, "/e");
    }
    g_events = nullptr;
    locks("a graph operation", false);
  }
};

static void one(Rng & r)
{
  g_log.clear();
  g_events = nullptr;
  CRun t(r);
  for (size_t i = 1 + r.below(20); i > 0; --i) {
    if (g_prop == "C27" && r.coin(1, 6)) {
      t.graph_op();
      continue;
    }
    if (r.coin(1, 8) && g_prop != "C27") {
      // another participant
      Key k = part_key(r);
      if (k != t.me) {
        t.t.m.parts[k].nodes = {MNode{"n", "/", {ent_key(r)}, {ent_key(r)}}};
        t.c.graph_cache.update_participant_entities(msg_of(k, t.t.m.parts[k].nodes));
      }
    }
    bool add = r.coin(2, 3);
    if (r.coin()) {t.node_op(add);} else {t.endpoint_op(add);}
  }
}

int main(int argc, char ** argv)
{
  g_prop = argc > 1 ? argv[1] : "C25";
  double budget = argc > 2 ? atof(argv[2]) : 5;
  uint64_t seed = argc > 3 ? strtoull(argv[3], nullptr, 10) : 1;
  return drive(g_prop.c_str(), budget, seed, [](Rng & r, uint64_t) {
             try {
               one(r);
             } catch (const Other &) {
             }
             g_events = nullptr;
           });
}
