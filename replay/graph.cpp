// concrete harness for C14-C24: the real graph_cache.cpp against the reference model
#include "graph_model.hpp"
#include "rcutils/testing/fault_injection.h"

// ------------------------------------------------------------------ counting allocator
struct Alloc
{
  std::map<void *, size_t> live;
  long countdown = -1;     // fail the countdown-th allocation
  bool failed = false;
  bool bad_free = false;
  bool fail()
  {
    if (countdown < 0) {return false;}
    if (countdown-- == 0) {failed = true; return true;}
    return false;
  }
  void * get(size_t n)
  {
    if (n && fail()) {return nullptr;}   // a refused empty block is no failure
    void * p = malloc(n ? n : 1);
    live[p] = n;
    return p;
  }
  void put(void * p)
  {
    if (!p) {return;}
    if (live.erase(p) == 0) {bad_free = true; return;}
    free(p);
  }
};
static void * a_alloc(size_t n, void * s) {return static_cast<Alloc *>(s)->get(n);}
static void a_free(void * p, void * s) {static_cast<Alloc *>(s)->put(p);}
static void * a_realloc(void * p, size_t n, void * s)
{
  Alloc * a = static_cast<Alloc *>(s);
  void * q = a->get(n);
  if (q && p) {
    memcpy(q, p, std::min(n, a->live[p]));
    a->put(p);
  }
  return q;
}
static void * a_calloc(size_t x, size_t y, void * s)
{
  void * p = static_cast<Alloc *>(s)->get(x * y);
  if (p) {memset(p, 0, x * y);}
  return p;
}
static rcutils_allocator_t make(Alloc & a)
{
  return rcutils_allocator_t{a_alloc, a_free, a_realloc, a_calloc, &a};
}

// ------------------------------------------------------------------ demangling
static std::string dem_id(const std::string & s) {return s;}
static std::string dem_prefix(const std::string & s)
{
  return s.compare(0, 3, "rt/") == 0 ? s.substr(2) : "";
}
static std::string dem_collapse(const std::string & s)
{
  return s.empty() ? "" : s.substr(0, 4);
}
static std::string dem_len(const std::string & s) {return std::string(s.size() % 3, 'q');}
typedef std::string (* Dem)(const std::string &);
static Dem dem(Rng & r)
{
  static const std::vector<Dem> v{dem_id, dem_prefix, dem_collapse, dem_len, dem_id};
  return r.pick(v);
}

// ------------------------------------------------------------------ queries
static const char * NONAME = "_NODE_NAME_UNKNOWN_", * NONS = "_NODE_NAMESPACE_UNKNOWN_",
  * BARE = "_CREATED_BY_BARE_DDS_APP_";

static void counts(Run & t, Rng & r)
{
  for (int rd = 0; rd < 2; ++rd) {
    std::string tp = topic(r);
    size_t want = 0, got = 4711;
    for (auto & e : rd ? t.m.readers : t.m.writers) {want += e.second.topic == tp;}
    rmw_ret_t ret = rd ? t.g.get_reader_count(tp, &got) : t.g.get_writer_count(tp, &got);
    CHECK("C19", ret == RMW_RET_OK && got == want, "count of '" << tp << "' is " << got <<
      " instead of " << want << " (ret " << ret << ")");
    ret = rd ? t.g.get_reader_count(tp, nullptr) : t.g.get_writer_count(tp, nullptr);
    CHECK("C19", ret == RMW_RET_INVALID_ARGUMENT, "null count accepted");
  }
  t.state("C19", "counting");
}

static rmw_ret_t infos(
  Run & t, bool rd, const std::string & tp, Dem d, rcutils_allocator_t * a,
  rmw_topic_endpoint_info_array_t * out)
{
  return rd ? t.g.get_readers_info_by_topic(tp, d, a, out) :
         t.g.get_writers_info_by_topic(tp, d, a, out);
}

static void endpoint_infos(Run & t, Rng & r)
{
  for (int rd = 0; rd < 2; ++rd) {
    std::string tp = topic(r);
    Dem d = dem(r);
    auto & all = rd ? t.m.readers : t.m.writers;
    std::map<Key, MEnt> want;
    for (auto & e : all) {
      if (e.second.topic == tp) {want.insert(e);}
    }
    Alloc al;
    rcutils_allocator_t a = make(al);
    rmw_topic_endpoint_info_array_t out = rmw_get_zero_initialized_topic_endpoint_info_array();
    rmw_topic_endpoint_info_t dummy;
    if (want.empty() && r.coin()) {
      out.size = 3;
      out.info_array = &dummy;
    }
    auto before = out;
    rmw_ret_t ret = infos(t, rd, tp, d, &a, &out);
    CHECK("C20", ret == RMW_RET_OK, "query failed with " << ret);
    if (want.empty()) {
      CHECK("C20", out.size == before.size && out.info_array == before.info_array,
        "output changed although nothing matches");
      continue;
    }
    CHECK("C20", out.size == want.size(), out.size << " elements instead of " << want.size());
    std::set<Key> seen;
    for (size_t i = 0; i < out.size; ++i) {
      auto & x = out.info_array[i];
      Key k;
      memcpy(k.data(), x.endpoint_gid, k.size());
      CHECK("C20", seen.insert(k).second, "endpoint listed twice");
      CHECK("C20", want.count(k), "endpoint " << show(k) << " is not on the topic");
      auto & e = want[k];
      CHECK("C20", x.topic_type && e.type.c_str() && d(e.type) == x.topic_type, "type is wrong");
      CHECK("C20", same_hash(x.topic_type_hash, e.hash), "type hash is wrong");
      CHECK("C20", same_qos(x.qos_profile, e.qos), "QoS is wrong");
      CHECK("C20", x.endpoint_type == (rd ? RMW_ENDPOINT_SUBSCRIPTION : RMW_ENDPOINT_PUBLISHER),
        "endpoint kind is wrong");
      std::string name = BARE, ns = BARE;
      auto it = t.m.parts.find(e.part);
      if (it != t.m.parts.end()) {
        name = NONAME;
        ns = NONS;
        for (auto & n : it->second.nodes) {
          auto & l = rd ? n.r : n.w;
          if (std::find(l.begin(), l.end(), k) != l.end()) {
            name = n.name;
            ns = n.ns;
            break;
          }
        }
      }
      CHECK("C20", x.node_name && name == x.node_name, "node name of " << show(k) << " is " <<
        (x.node_name ? x.node_name : "(null)") << " instead of " << name);
      CHECK("C20", x.node_namespace && ns == x.node_namespace, "node namespace is wrong");
    }
    CHECK("C21", !al.bad_free, "memory released twice");
    (void)!rmw_topic_endpoint_info_array_fini(&out, &a);
    CHECK("C21", al.live.empty() && !al.bad_free, "memory of a successful query is not owned by "
      "its output: " << al.live.size() << " blocks left");
  }
  t.state("C20", "the query");
}

typedef std::map<std::string, std::set<std::string>> NT;

static void nt_equal(const char * tag, const rmw_names_and_types_t & out, const NT & want)
{
  std::map<std::string, std::set<std::string>> got;
  CHECK(tag, out.names.size == want.size(), out.names.size << " topics instead of " <<
    want.size());
  for (size_t i = 0; i < out.names.size; ++i) {
    CHECK(tag, out.names.data[i], "null name");
    std::string n = out.names.data[i];
    CHECK(tag, !got.count(n), "topic " << n << " listed twice");
    auto & s = got[n];
    for (size_t j = 0; j < out.types[i].size; ++j) {
      CHECK(tag, out.types[i].data[j], "null type");
      CHECK(tag, s.insert(out.types[i].data[j]).second, "type listed twice");
    }
  }
  CHECK(tag, got == want, "names and types are wrong");
}

static bool nt_zero(const rmw_names_and_types_t & x)
{
  return x.names.size == 0 && !x.names.data && !x.types;
}

// one of the three names-and-types queries on the model; false: no such node
static bool nt_model(Run & t, int kind, const std::string & name, const std::string & ns, Dem dt,
  Dem dy, NT & want)
{
  auto add = [&](const MEnt & e) {
      if (dt(e.topic) != "") {want[dt(e.topic)].insert(dy(e.type));}
    };
  if (kind == 0) {
    for (auto & e : t.m.readers) {add(e.second);}
    for (auto & e : t.m.writers) {add(e.second);}
    return true;
  }
  for (auto & p : t.m.parts) {
    MNode * n = first_node(p.second, name, ns);
    if (!n) {continue;}
    auto & all = kind == 1 ? t.m.writers : t.m.readers;
    for (auto & k : kind == 1 ? n->w : n->r) {
      auto it = all.find(k);
      if (it != all.end()) {add(it->second);}
    }
    return true;
  }
  return false;
}
static rmw_ret_t nt_real(Run & t, int kind, const std::string & name, const std::string & ns, Dem dt,
  Dem dy, rcutils_allocator_t * a, rmw_names_and_types_t * out)
{
  return kind == 0 ? t.g.get_names_and_types(dt, dy, a, out) :
         kind == 1 ? t.g.get_writer_names_and_types_by_node(name, ns, dt, dy, a, out) :
         t.g.get_reader_names_and_types_by_node(name, ns, dt, dy, a, out);
}

static void names_and_types(Run & t, Rng & r)
{
  for (int kind = 0; kind < 3; ++kind) {
    const char * tag = kind ? "C23" : "C22";
    std::string name = node_name(r), ns = node_ns(r);
    Key k;
    if (r.coin(3, 4)) {t.some_node(k, name, ns);}
    Dem dt = dem(r), dy = dem(r);
    NT want;
    bool there = nt_model(t, kind, name, ns, dt, dy, want);
    Alloc al;
    rcutils_allocator_t a = make(al);
    rmw_names_and_types_t out = rmw_get_zero_initialized_names_and_types();
    rmw_ret_t ret = nt_real(t, kind, name, ns, dt, dy, &a, &out);
    if (!there) {
      CHECK(tag, ret == RMW_RET_NODE_NAME_NON_EXISTENT, "missing node gives " << ret);
      CHECK(tag, nt_zero(out), "output changed for a missing node");
      continue;
    }
    CHECK(tag, ret == RMW_RET_OK, "query failed with " << ret);
    nt_equal(tag, out, want);
    if (want.empty()) {CHECK(tag, nt_zero(out), "nothing to report but the output changed");}
    CHECK("C21", !al.bad_free, "memory released twice");
    (void)!rmw_names_and_types_fini(&out);
    CHECK("C21", al.live.empty() && !al.bad_free, "memory of a successful query is not owned by "
      "its output");
  }
  t.state("C22", "the query");
}

static std::string str(const char * s) {return s ? s : "(null)";}

static void node_names(Run & t, Rng & r)
{
  typedef std::tuple<std::string, std::string, std::string> Row;
  std::vector<Row> want, got;
  bool encl = r.coin();
  for (auto & p : t.m.parts) {
    for (auto & n : p.second.nodes) {
      want.push_back(Row(n.name, n.ns, encl ? p.second.enclave : ""));
    }
  }
  CHECK("C24", t.g.get_number_of_nodes() == want.size(), "number of nodes is " <<
    t.g.get_number_of_nodes() << " instead of " << want.size());
  Alloc al;
  rcutils_allocator_t a = make(al);
  auto n = rcutils_get_zero_initialized_string_array();
  auto s = n, e = n;
  rmw_ret_t ret = t.g.get_node_names(&n, &s, encl ? &e : nullptr, &a);
  CHECK("C24", ret == RMW_RET_OK, "listing failed with " << ret);
  CHECK("C24", n.size == want.size() && s.size == want.size() && (!encl || e.size == want.size()),
    "columns have " << n.size << "/" << s.size << " entries instead of " << want.size());
  for (size_t i = 0; i < n.size; ++i) {
    got.push_back(Row(str(n.data[i]), str(s.data[i]), encl ? str(e.data[i]) : ""));
  }
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  CHECK("C24", got == want, "listed nodes are wrong");
  CHECK("C21", !al.bad_free, "memory released twice");
  (void)!rcutils_string_array_fini(&n);
  (void)!rcutils_string_array_fini(&s);
  if (encl) {(void)!rcutils_string_array_fini(&e);}
  CHECK("C21", al.live.empty() && !al.bad_free, "memory of a successful query is not owned by its "
    "outputs");
  t.state("C24", "the listing");
}

// ------------------------------------------------------------------ failures
// runs `q` with a failure at every possible point; q(allocator) runs the query and returns its
// status, zero() tells whether the outputs hold nothing
static void failing(
  const std::function<void()> & reset, const std::function<rmw_ret_t(rcutils_allocator_t *)> & q,
  const std::function<bool()> & zero, const std::function<void(rcutils_allocator_t *)> & fini)
{
  for (int mode = 0; mode < 2; ++mode) {
    for (long c = 0; c < 4000; ++c) {
      Alloc al;
      rcutils_allocator_t a = make(al);
      reset();
      if (mode == 0) {al.countdown = c;} else {rcutils_fault_injection_set_count(c);}
      rmw_ret_t ret = q(&a);
      bool hit = mode == 0 ? al.failed : rcutils_fault_injection_get_count() < 0;
      rcutils_fault_injection_set_count(-1);
      const char * what = mode == 0 ? "allocation " : "call ";
      CHECK("C21", !al.bad_free, what << c << " fails: memory released twice");
      if (!hit) {
        if (ret == RMW_RET_OK) {fini(&a);}
        CHECK("C21", al.live.empty() && !al.bad_free, "successful query: memory without owner");
        break;
      }
      CHECK("C21", ret != RMW_RET_OK, what << c << " fails but the query succeeds");
      CHECK("C21", zero(), what << c << " fails: an output is not zero-initialised");
      CHECK("C21", al.live.empty(), what << c << " fails: " << al.live.size() <<
        " blocks are leaked");
    }
  }
}

static void failures(Run & t, Rng & r)
{
  std::string tp = topic(r), name = node_name(r), ns = node_ns(r);
  Key k;
  t.some_node(k, name, ns);
  Dem dt = dem(r), dy = dem(r);
  for (int rd = 0; rd < 2; ++rd) {
    auto out = rmw_get_zero_initialized_topic_endpoint_info_array();
    failing(
      [&] {out = rmw_get_zero_initialized_topic_endpoint_info_array();},
      [&](rcutils_allocator_t * a) {return infos(t, rd, tp, dy, a, &out);},
      [&] {return out.size == 0 && !out.info_array;},
      [&](rcutils_allocator_t * a) {
        if (out.info_array) {(void)!rmw_topic_endpoint_info_array_fini(&out, a);}
      });
  }
  for (int kind = 0; kind < 3; ++kind) {
    auto out = rmw_get_zero_initialized_names_and_types();
    failing(
      [&] {out = rmw_get_zero_initialized_names_and_types();},
      [&](rcutils_allocator_t * a) {return nt_real(t, kind, name, ns, dt, dy, a, &out);},
      [&] {return !out.names.data && !out.types;},
      [&](rcutils_allocator_t *) {(void)!rmw_names_and_types_fini(&out);});
  }
  for (int encl = 0; encl < 2; ++encl) {
    auto n = rcutils_get_zero_initialized_string_array();
    auto s = n, e = n;
    failing(
      [&] {n = s = e = rcutils_get_zero_initialized_string_array();},
      [&](rcutils_allocator_t * a) {return t.g.get_node_names(&n, &s, encl ? &e : nullptr, a);},
      [&] {return !n.data && !s.data && !e.data;},
      [&](rcutils_allocator_t *) {
        (void)!rcutils_string_array_fini(&n);
        (void)!rcutils_string_array_fini(&s);
        (void)!rcutils_string_array_fini(&e);
      });
  }
}

static void invalid(Run & t, Rng & r)
{
  Alloc al;
  rcutils_allocator_t good = make(al), bad = rcutils_get_zero_initialized_allocator();
  std::string name = node_name(r), ns = node_ns(r);
  Key k;
  t.some_node(k, name, ns);
  char * slot[1] = {nullptr};
  auto z = rcutils_get_zero_initialized_string_array();
  auto dirty = z;
  dirty.size = 1;
  dirty.data = slot;
  rcutils_string_array_t types[1] = {z};
  for (int kind = 0; kind < 3; ++kind) {
    auto out = rmw_get_zero_initialized_names_and_types();
    rcutils_allocator_t * a = &good;
    bool null_out = false;
    switch (r.below(5)) {
      case 0: a = nullptr; break;
      case 1: a = &bad; break;
      case 2: out.names = dirty; out.types = types; break;
      case 3: out.names = dirty; break;
      default: null_out = true;
    }
    auto before = out;
    rmw_ret_t ret = nt_real(t, kind, name, ns, dem_id, dem_id, a, null_out ? nullptr : &out);
    CHECK("C21", ret == RMW_RET_INVALID_ARGUMENT, "invalid argument gives " << ret);
    CHECK("C21", out.names.data == before.names.data && out.names.size == before.names.size &&
      out.types == before.types, "output written although an argument is invalid");
  }
  {
    rcutils_string_array_t o[3] = {z, z, z};
    rcutils_string_array_t * p[3] = {&o[0], &o[1], r.coin() ? &o[2] : nullptr};
    rcutils_allocator_t * a = &good;
    switch (r.below(7)) {
      case 0: a = nullptr; break;
      case 1: a = &bad; break;
      case 2: o[0] = dirty; break;
      case 3: o[1] = dirty; break;
      case 4: o[2] = dirty; p[2] = &o[2]; break;
      case 5: p[0] = nullptr; break;
      default: p[1] = nullptr;
    }
    rcutils_string_array_t before[3] = {o[0], o[1], o[2]};
    rmw_ret_t ret = t.g.get_node_names(p[0], p[1], p[2], a);
    CHECK("C21", ret == RMW_RET_INVALID_ARGUMENT, "invalid argument gives " << ret);
    for (int i = 0; i < 3; ++i) {
      CHECK("C21", o[i].data == before[i].data && o[i].size == before[i].size,
        "output written although an argument is invalid");
    }
  }
  CHECK("C21", al.live.empty(), "invalid arguments leak");
}

static void quiet(Run & t, const char * op)
{
  t.called(false, op);
}

static void one(Rng & r, uint64_t n)
{
  g_log.clear();
  GraphCache g;
  Run t(g, r);
  if (r.coin()) {t.set_cb();}
  size_t len = r.below(r.coin(1, 8) ? 120 : 24);
  bool queries_inside = r.coin(1, 4);
  auto ask = [&] {
      if (g_prop == "C19" || g_prop == "C18") {counts(t, r); quiet(t, "counting");}
      if (g_prop == "C20" || g_prop == "C21" || g_prop == "C18") {
        endpoint_infos(t, r);
        quiet(t, "an endpoint query");
      }
      if (g_prop == "C22" || g_prop == "C23" || g_prop == "C21" || g_prop == "C18") {
        names_and_types(t, r);
        quiet(t, "a names-and-types query");
      }
      if (g_prop == "C24" || g_prop == "C21" || g_prop == "C18") {
        node_names(t, r);
        quiet(t, "listing nodes");
      }
      if (g_prop == "C21") {
        invalid(t, r);
        if (n % 4 == 0) {failures(t, r);}
      }
      if (g_prop == "C18") {
        std::ostringstream o;
        o << g;
        quiet(t, "printing");
      }
    };
  for (size_t i = 0; i < len; ++i) {
    t.step();
    if (queries_inside && r.coin(1, 6)) {ask();}
  }
  ask();
#ifndef PEEK
  // public observations only: complete node lists, participants
  if (g_prop == "C15" || g_prop == "C16" || g_prop == "C17") {
    for (auto & p : t.m.parts) {
      p.second.nodes.push_back(MNode{"probe", "/", {}, {}});
      Msg x = g.add_node(to_gid(p.first), "probe", "/");
      CHECK(g_prop, nodes_of(x) == p.second.nodes, "nodes of " << show(p.first) << " are wrong");
    }
    std::string save = g_prop;
    g_prop = "C24";
    try {
      node_names(t, r);
    } catch (const Fail & f) {
      g_prop = save;
      throw;
    }
    g_prop = save;
  }
  if (g_prop == "C14") {
    g_prop = "C20";
    try {
      for (int i = 0; i < 6; ++i) {endpoint_infos(t, r);}
    } catch (...) {
      g_prop = "C14";
      throw;
    }
    g_prop = "C14";
  }
#endif
}

int main(int argc, char ** argv)
{
  g_prop = argc > 1 ? argv[1] : "C14";
  double budget = argc > 2 ? atof(argv[2]) : 5;
  uint64_t seed = argc > 3 ? strtoull(argv[3], nullptr, 10) : 1;
  return drive(g_prop.c_str(), budget, seed, [](Rng & r, uint64_t n) {
             try {
               one(r, n);
             } catch (const Other &) {
             }
           });
}
