// concrete harness for C07-C13: real qos.cpp against independent oracles
#include "common.hpp"
#include <algorithm>
#include <map>
#include "rcutils/testing/fault_injection.h"
#include "rmw/get_topic_endpoint_info.h"
#include "rmw/qos_profiles.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rosidl_runtime_c/type_hash.h"
#include "rmw_dds_common/qos.hpp"

typedef rmw_qos_profile_t P;

static rmw_time_t T(uint64_t s, uint64_t n) {rmw_time_t t; t.sec = s; t.nsec = n; return t;}
static bool eq(rmw_time_t a, rmw_time_t b) {return a.sec == b.sec && a.nsec == b.nsec;}
static bool lt(rmw_time_t a, rmw_time_t b)
{
  return a.sec < b.sec || (a.sec == b.sec && a.nsec < b.nsec);
}
static std::string show(rmw_time_t t)
{
  return std::to_string(t.sec) + "." + std::to_string(t.nsec);
}
static std::string show(const P & p)
{
  std::ostringstream o;
  o << "{rel=" << p.reliability << " dur=" << p.durability << " liv=" << p.liveliness <<
    " dl=" << show(p.deadline) << " lease=" << show(p.liveliness_lease_duration) << "}";
  return o.str();
}

// all values a duration may take here are normalised (nsec below one second)
static rmw_time_t duration(Rng & r)
{
  static const std::vector<rmw_time_t> k{T(0, 0), T(0, 0), T(0, 1), T(1, 0), T(2, 0), T(1, 999999999),
    T(9223372036ull, 854775807ull), T(9223372036ull, 854775806ull), T(9223372036ull, 854775805ull),
    T(9223372037ull, 0), T(UINT64_MAX, 999999999), T(4294967296ull, 5), T(0, 999999999),
    T(9223372036ull, 0), T(0, 854775806ull), T(0, 854775807ull), T(4294967297ull, 0)};
  if (r.coin(3, 4)) {return r.pick(k);}
  return T(r.next() >> r.below(64), r.below(1000000000));
}
static rmw_qos_reliability_policy_t rel(Rng & r)
{
  return static_cast<rmw_qos_reliability_policy_t>(r.coin(19, 20) ? r.below(5) : 5 + r.below(3));
}
static rmw_qos_durability_policy_t dur(Rng & r)
{
  return static_cast<rmw_qos_durability_policy_t>(r.coin(19, 20) ? r.below(5) : 5 + r.below(3));
}
static rmw_qos_liveliness_policy_t liv(Rng & r)
{
  return static_cast<rmw_qos_liveliness_policy_t>(r.coin(19, 20) ? r.below(6) : 6 + r.below(2));
}
static P profile(Rng & r)
{
  P p;
  memset(&p, 0, sizeof(p));
  p.history = static_cast<rmw_qos_history_policy_t>(r.below(4));
  p.depth = r.next() >> r.below(64);
  p.reliability = rel(r);
  p.durability = dur(r);
  p.deadline = duration(r);
  p.lifespan = duration(r);
  p.liveliness = liv(r);
  p.liveliness_lease_duration = duration(r);
  p.avoid_ros_namespace_conventions = r.coin();
  return p;
}
static bool same(const P & a, const P & b)
{
  return a.history == b.history && a.depth == b.depth && a.reliability == b.reliability &&
         a.durability == b.durability && eq(a.deadline, b.deadline) && eq(a.lifespan, b.lifespan) &&
         a.liveliness == b.liveliness &&
         eq(a.liveliness_lease_duration, b.liveliness_lease_duration) &&
         a.avoid_ros_namespace_conventions == b.avoid_ros_namespace_conventions;
}

// ---------------------------------------------------------------------------- compatibility
enum Kind {E_REL, E_DUR, E_LIV, E_DL, E_LEASE, W_REL, W_DUR, W_LIV};
static bool late(rmw_time_t pub, rmw_time_t sub)
{
  return !eq(sub, T(0, 0)) && (eq(pub, T(0, 0)) || lt(sub, pub));
}
static bool perhaps(int p, int s, int unknown, int bad_pub, int bad_sub)
{
  // both "possibly bad", at least one undetermined
  bool up = p == 0 || p == unknown, us = s == 0 || s == unknown;
  return (up || us) && (up || p == bad_pub) && (us || s == bad_sub);
}
static std::vector<Kind> conflicts(const P & p, const P & s)
{
  std::vector<Kind> e, w;
  if (p.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT &&
    s.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE) {e.push_back(E_REL);}
  if (p.durability == RMW_QOS_POLICY_DURABILITY_VOLATILE &&
    s.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL) {e.push_back(E_DUR);}
  if (p.liveliness == RMW_QOS_POLICY_LIVELINESS_AUTOMATIC &&
    s.liveliness == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC) {e.push_back(E_LIV);}
  if (late(p.deadline, s.deadline)) {e.push_back(E_DL);}
  if (late(p.liveliness_lease_duration, s.liveliness_lease_duration)) {e.push_back(E_LEASE);}
  if (!e.empty()) {return e;}
  if (perhaps(p.reliability, s.reliability, RMW_QOS_POLICY_RELIABILITY_UNKNOWN,
    RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT, RMW_QOS_POLICY_RELIABILITY_RELIABLE)) {w.push_back(W_REL);}
  if (perhaps(p.durability, s.durability, RMW_QOS_POLICY_DURABILITY_UNKNOWN,
    RMW_QOS_POLICY_DURABILITY_VOLATILE, RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL))
  {
    w.push_back(W_DUR);
  }
  if (perhaps(p.liveliness, s.liveliness, RMW_QOS_POLICY_LIVELINESS_UNKNOWN,
    RMW_QOS_POLICY_LIVELINESS_AUTOMATIC, RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC))
  {
    w.push_back(W_LIV);
  }
  return w;
}
static int verdict(const std::vector<Kind> & c)
{
  return c.empty() ? 0 : c[0] < W_REL ? 2 : 1;
}
static P neutral()
{
  P p;
  memset(&p, 0, sizeof(p));
  p.history = RMW_QOS_POLICY_HISTORY_KEEP_LAST;
  p.depth = 1;
  p.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;
  p.durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;
  p.liveliness = RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC;
  return p;
}
// the pair reduced to one of its conflicts
static void only(Kind k, const P & p, const P & s, P & p1, P & s1)
{
  p1 = neutral(), s1 = neutral();
  switch (k) {
    case E_REL: case W_REL:
      p1.reliability = p.reliability; s1.reliability = s.reliability; break;
    case E_DUR: case W_DUR:
      p1.durability = p.durability; s1.durability = s.durability; break;
    case E_LIV: case W_LIV:
      p1.liveliness = p.liveliness; s1.liveliness = s.liveliness; break;
    case E_DL: p1.deadline = p.deadline; s1.deadline = s.deadline; break;
    case E_LEASE:
      p1.liveliness_lease_duration = p.liveliness_lease_duration;
      s1.liveliness_lease_duration = s.liveliness_lease_duration;
  }
}
static void pair(Rng & r, P & p, P & s)
{
  p = profile(r), s = profile(r);
  // keep conflicts rare enough that all three verdicts and single conflicts occur
  if (r.coin(2, 3)) {s.deadline = r.coin() ? p.deadline : T(0, 0);}
  if (r.coin(2, 3)) {
    s.liveliness_lease_duration = r.coin() ? p.liveliness_lease_duration : T(0, 0);
  }
  if (r.coin(1, 2)) {p.reliability = s.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;}
  if (r.coin(1, 2)) {p.durability = s.durability = RMW_QOS_POLICY_DURABILITY_VOLATILE;}
  if (r.coin(1, 2)) {p.liveliness = s.liveliness = RMW_QOS_POLICY_LIVELINESS_AUTOMATIC;}
}

static void c07(Rng & r, uint64_t)
{
  P p, s;
  pair(r, p, s);
  auto c = conflicts(p, s);
  auto v = static_cast<rmw_qos_compatibility_type_t>(r.below(3));
  char buf[2048];
  size_t n = r.coin() ? sizeof(buf) : r.below(200);
  memset(buf, 'x', sizeof(buf));
  bool none = r.coin(1, 3);
  rmw_ret_t ret = rmw_dds_common::qos_profile_check_compatible(
    p, s, &v, none ? nullptr : buf, none ? 0 : n);
  REQUIRE(ret == RMW_RET_OK, "publisher " << show(p) << " subscription " << show(s) << " returns " << ret);
  REQUIRE(static_cast<int>(v) == verdict(c), "publisher " << show(p) << " subscription " << show(s) <<
    " gets verdict " << v << ", expected " << verdict(c));
}

static std::string full(const P & p, const P & s)
{
  std::vector<char> b(8192, 'x');
  rmw_qos_compatibility_type_t v;
  rmw_ret_t ret = rmw_dds_common::qos_profile_check_compatible(p, s, &v, b.data(), b.size());
  REQUIRE(ret == RMW_RET_OK, "returns " << ret);
  REQUIRE(memchr(b.data(), 0, b.size()), "no NUL in the reason");
  return std::string(b.data());
}

static void c08(Rng & r, uint64_t)
{
  P p, s;
  pair(r, p, s);
  auto c = conflicts(p, s);
  std::string what = "publisher " + show(p) + " subscription " + show(s);
  if (r.coin(1, 16)) {
    auto v = static_cast<rmw_qos_compatibility_type_t>(r.below(3)), v0 = v;
    char b[64], b0[64];
    memset(b, 'q', sizeof(b));
    memcpy(b0, b, sizeof(b));
    bool nv = r.coin();
    rmw_ret_t ret = nv ?
      rmw_dds_common::qos_profile_check_compatible(p, s, nullptr, b, r.below(64)) :
      rmw_dds_common::qos_profile_check_compatible(p, s, &v, nullptr, 1 + r.below(64));
    REQUIRE(ret == RMW_RET_INVALID_ARGUMENT, "invalid argument returns " << ret);
    REQUIRE(v == v0 && !memcmp(b, b0, sizeof(b)), "invalid argument: something is written");
    return;
  }
  std::string f = full(p, s);
  REQUIRE(f.empty() == c.empty(), what << ": reason is '" << f << "'");
  std::vector<std::string> m;
  for (auto k : c) {
    P p1, s1;
    only(k, p, s, p1, s1);
    m.push_back(full(p1, s1));
    REQUIRE(!m.back().empty(), what << ": no message for conflict " << k);
  }
  std::sort(m.begin(), m.end());
  bool ok = false;
  do {
    std::string t;
    for (auto & x : m) {t += x;}
    ok = ok || t == f;
  } while (!ok && std::next_permutation(m.begin(), m.end()));
  REQUIRE(ok, what << ": the reason '" << f << "' is not one message per conflict");
  // every size: guard bytes, termination, prefix
  std::vector<size_t> sizes{0, 1, 2, 3, f.size(), f.size() + 1, f.size() + 2};
  size_t at = 0;
  for (auto & x : m) {
    at += x.size();
    sizes.push_back(at);
    sizes.push_back(at + 1);
    sizes.push_back(at + 2);
  }
  for (int i = 0; i < 6; ++i) {sizes.push_back(r.below(f.size() + 10));}
  for (size_t n : sizes) {
    std::vector<char> b(n + 64);
    for (auto & x : b) {x = static_cast<char>(r.coin() ? 'z' : 1 + r.below(127));}
    auto b0 = b;
    auto v = static_cast<rmw_qos_compatibility_type_t>(r.below(3));
    rmw_ret_t ret = rmw_dds_common::qos_profile_check_compatible(p, s, &v, b.data() + 32, n);
    REQUIRE(!memcmp(b.data(), b0.data(), 32) && !memcmp(&b[32 + n], &b0[32 + n], 32),
      what << ": writes outside reason[0.." << n << ")");
    REQUIRE(ret == RMW_RET_OK, what << " size " << n << " returns " << ret);
    REQUIRE(static_cast<int>(v) == verdict(c), what << " size " << n << " verdict " << v);
    if (n) {
      REQUIRE(memchr(b.data() + 32, 0, n), what << ": buffer of size " << n << " not terminated");
      REQUIRE(f.substr(0, n - 1) == std::string(b.data() + 32),
        what << ": buffer of size " << n << " holds '" << b.data() + 32 << "' instead of the start of '" <<
        f << "'");
    }
    // exact-size heap block: ASan sees any access outside
    std::vector<char> h(n);
    for (auto & x : h) {x = 'y';}
    ret = rmw_dds_common::qos_profile_check_compatible(p, s, &v, n ? h.data() : nullptr, n);
    REQUIRE(ret == RMW_RET_OK, what << " size " << n << " returns " << ret);
  }
  // formatting failures: terminated, nothing outside
  if (r.coin(1, 8) && !c.empty()) {
    char b[96];
    memset(b, 'w', sizeof(b));
    rmw_qos_compatibility_type_t v;
    size_t n = 1 + r.below(64);
    rcutils_fault_injection_set_count(static_cast<int64_t>(r.below(c.size())));
    (void)rmw_dds_common::qos_profile_check_compatible(p, s, &v, b, n);
    rcutils_fault_injection_set_count(-1);
    for (size_t i = n; i < sizeof(b); ++i) {REQUIRE(b[i] == 'w', "writes outside on failure");}
    REQUIRE(memchr(b, 0, n), what << ": not terminated when formatting fails");
  }
}

// ---------------------------------------------------------------------------- best available
static const rmw_time_t BA = T(9223372036ull, 854775806ull), INF = T(9223372036ull, 854775807ull);

static P wish(Rng & r)
{
  P p = profile(r);
  if (r.coin(3, 4)) {p.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE;}
  if (r.coin(3, 4)) {p.durability = RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE;}
  if (r.coin(3, 4)) {p.liveliness = RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE;}
  if (r.coin(3, 4)) {p.deadline = BA;}
  if (r.coin(3, 4)) {p.liveliness_lease_duration = BA;}
  if (r.coin(1, 8)) {  // nothing to do
    p.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;
    p.durability = RMW_QOS_POLICY_DURABILITY_VOLATILE;
    p.liveliness = RMW_QOS_POLICY_LIVELINESS_AUTOMATIC;
    p.deadline = T(1, 0);
    p.liveliness_lease_duration = T(0, 5);
    // or exactly one policy
    switch (r.below(6)) {
      case 0: p.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE; break;
      case 1: p.durability = RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE; break;
      case 2: p.liveliness = RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE; break;
      case 3: p.deadline = BA; break;
      case 4: p.liveliness_lease_duration = BA; break;
      default: break;
    }
  }
  return p;
}
static std::vector<P> endpoints(Rng & r)
{
  std::vector<P> v;
  size_t n = r.coin(1, 8) ? r.below(40) : r.below(5);
  // uniform lists make the "all" rules fire
  bool ur = r.coin(), ud = r.coin(), ul = r.coin(), ut = r.coin(1, 3), uq = r.coin(1, 3);
  for (size_t i = 0; i < n; ++i) {
    P p = profile(r);
    if (ur) {p.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;}
    if (ud) {p.durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;}
    if (ul) {p.liveliness = RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC;}
    if (ut) {p.deadline = T(0, 0);}
    if (uq) {p.liveliness_lease_duration = T(0, 0);}
    v.push_back(p);
  }
  if (n && r.coin(1, 2)) {
    // one odd endpoint
    P & p = v[r.below(n)];
    switch (r.below(5)) {
      case 0: p.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT; break;
      case 1: p.durability = RMW_QOS_POLICY_DURABILITY_VOLATILE; break;
      case 2: p.liveliness = RMW_QOS_POLICY_LIVELINESS_AUTOMATIC; break;
      case 3: p.deadline = duration(r); break;
      default: p.liveliness_lease_duration = duration(r);
    }
  }
  return v;
}
static rmw_time_t rule(rmw_time_t old, const std::vector<rmw_time_t> & all, bool sub)
{
  if (!eq(old, BA)) {return old;}
  bool any = false;
  rmw_time_t mx = T(0, 0), mn = INF;
  for (auto t : all) {
    if (eq(t, T(0, 0))) {continue;}
    any = true;
    if (lt(mx, t)) {mx = t;}
    if (lt(t, mn)) {mn = t;}
  }
  return !any ? T(0, 0) : sub ? mx : mn;
}
static P expected(const P & q, const std::vector<P> & es, bool sub)
{
  P e = q;
  bool ar = true, ad = true, al = true, ol = false;
  std::vector<rmw_time_t> d, l;
  for (auto & x : es) {
    ar = ar && x.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE;
    ad = ad && x.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;
    al = al && x.liveliness == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC;
    ol = ol || x.liveliness == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC;
    d.push_back(x.deadline);
    l.push_back(x.liveliness_lease_duration);
  }
  if (q.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE) {
    e.reliability = !sub || ar ? RMW_QOS_POLICY_RELIABILITY_RELIABLE :
      RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT;
  }
  if (q.durability == RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE) {
    e.durability = !sub || ad ? RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL :
      RMW_QOS_POLICY_DURABILITY_VOLATILE;
  }
  if (q.liveliness == RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE) {
    e.liveliness = (sub ? al : ol) ? RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC :
      RMW_QOS_POLICY_LIVELINESS_AUTOMATIC;
  }
  e.deadline = rule(q.deadline, d, sub);
  e.liveliness_lease_duration = rule(q.liveliness_lease_duration, l, sub);
  return e;
}
static std::string show(const std::vector<P> & v)
{
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 6; ++i) {s += show(v[i]) + " ";}
  return s + "] (" + std::to_string(v.size()) + ")";
}

static void best(Rng & r, bool sub)
{
  auto fn = sub ? rmw_dds_common::qos_profile_get_best_available_for_subscription :
    rmw_dds_common::qos_profile_get_best_available_for_publisher;
  P q = wish(r), o = q;
  auto es = endpoints(r);
  std::vector<rmw_topic_endpoint_info_t> infos(es.size());
  for (size_t i = 0; i < es.size(); ++i) {
    memset(&infos[i], 0, sizeof(infos[i]));
    infos[i].qos_profile = es[i];
  }
  rmw_topic_endpoint_info_array_t a;
  a.size = infos.size();
  a.info_array = infos.empty() ? nullptr : infos.data();
  if (r.coin(1, 50)) {
    REQUIRE(fn(nullptr, &q) == RMW_RET_INVALID_ARGUMENT && same(o, q), "null endpoint list");
    REQUIRE(fn(&a, nullptr) == RMW_RET_INVALID_ARGUMENT, "null profile");
    REQUIRE(fn(nullptr, nullptr) == RMW_RET_INVALID_ARGUMENT, "null arguments");
  }
  rmw_ret_t ret = fn(&a, &q);
  P e = expected(o, es, sub);
  REQUIRE(ret == RMW_RET_OK, "returns " << ret);
  REQUIRE(same(e, q), "wish " << show(o) << " endpoints " << show(es) << " gives " << show(q) <<
    ", expected " << show(e));
  for (size_t i = 0; i < es.size(); ++i) {
    REQUIRE(same(infos[i].qos_profile, es[i]), "the endpoint list is modified");
  }
}
static void c09(Rng & r, uint64_t) {best(r, true);}
static void c10(Rng & r, uint64_t) {best(r, false);}

// ---------------------------------------------------------------------------- topic wrappers
static std::map<void *, void *> live;  // block -> allocator state
static void * a_alloc(size_t n, void * s)
{
  void * p = malloc(n ? n : 1);
  live[p] = s;
  return p;
}
static void a_free(void * p, void * s)
{
  if (!p) {return;}
  auto it = live.find(p);
  REQUIRE(it != live.end(), "memory released twice or not owned");
  REQUIRE(it->second == s, "memory released with another allocator");
  live.erase(it);
  free(p);
}
static void * a_realloc(void * p, size_t n, void * s)
{
  void * q = a_alloc(n, s);
  if (p) {memcpy(q, p, n); a_free(p, s);}
  return q;
}
static void * a_calloc(size_t a, size_t b, void * s)
{
  void * p = a_alloc(a * b, s);
  memset(p, 0, a * b);
  return p;
}

static void c11(Rng & r, uint64_t)
{
  bool sub = r.coin();
  auto fn = sub ? rmw_dds_common::qos_profile_get_best_available_for_topic_subscription :
    rmw_dds_common::qos_profile_get_best_available_for_topic_publisher;
  live.clear();
  rmw_context_t ctx;
  memset(&ctx, 0, sizeof(ctx));
  ctx.options.allocator = {a_alloc, a_free, a_realloc, a_calloc, &ctx};
  rmw_node_t node;
  memset(&node, 0, sizeof(node));
  node.context = &ctx;
  std::string topic = r.coin() ? "/topic" : std::string(r.below(20), 't');
  P q = wish(r), o = q;
  auto es = endpoints(r);
  int calls = 0;
  rmw_ret_t qret = r.coin(1, 4) ? static_cast<rmw_ret_t>(1 + r.below(30)) : RMW_RET_OK;
  bool ffail = r.coin(1, 6);
  rmw_topic_endpoint_info_array_t leaked;
  memset(&leaked, 0, sizeof(leaked));
  rmw_dds_common::GetEndpointInfoByTopicFunction query =
    [&](const rmw_node_t * n, rcutils_allocator_t * al, const char * t, bool,
    rmw_topic_endpoint_info_array_t * out) -> rmw_ret_t {
      ++calls;
      REQUIRE(n == &node, "the query gets another node");
      REQUIRE(al && al->state == &ctx && al->allocate == a_alloc && al->deallocate == a_free,
        "the query gets another allocator");
      REQUIRE(t && topic == t, "the query gets another topic");
      REQUIRE(out && !out->size && !out->info_array, "the query gets a bad array");
      if (qret != RMW_RET_OK) {return qret;}
      rmw_ret_t x = rmw_topic_endpoint_info_array_init_with_size(out, es.size(), al);
      REQUIRE(x == RMW_RET_OK, "harness");
      for (size_t i = 0; i < es.size(); ++i) {
        out->info_array[i].qos_profile = es[i];
        x = rmw_topic_endpoint_info_set_node_name(&out->info_array[i], "n", al);
        REQUIRE(x == RMW_RET_OK, "harness");
      }
      leaked = *out;
      if (ffail) {rcutils_fault_injection_set_count(0);}
      return RMW_RET_OK;
    };
  if (r.coin(1, 20)) {
    rmw_ret_t a = fn(nullptr, topic.c_str(), &q, query), b = fn(&node, nullptr, &q, query),
      c = fn(&node, topic.c_str(), nullptr, query);
    REQUIRE(a == RMW_RET_INVALID_ARGUMENT && b == RMW_RET_INVALID_ARGUMENT &&
      c == RMW_RET_INVALID_ARGUMENT, "null argument returns " << a << " " << b << " " << c);
    REQUIRE(calls == 0 && same(q, o), "null argument: query made or profile changed");
  }
  rmw_ret_t ret = fn(&node, topic.c_str(), &q, query);
  bool fired = rcutils_fault_injection_get_count() < 0;
  rcutils_fault_injection_set_count(-1);
  bool need = o.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE ||
    o.durability == RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE ||
    o.liveliness == RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE || eq(o.deadline, BA) ||
    eq(o.liveliness_lease_duration, BA);
  std::string what = "profile " + show(o) + " endpoints " + show(es);
  REQUIRE(calls == (need ? 1 : 0), what << ": " << calls << " queries");
  if (!need) {
    REQUIRE(ret == RMW_RET_OK && same(o, q), what << ": profile changed without need");
  } else if (qret != RMW_RET_OK) {
    REQUIRE(ret == qret, what << ": query failure " << qret << " is returned as " << ret);
    REQUIRE(same(o, q), what << ": profile changed although the query failed");
  } else if (ffail) {
    REQUIRE(fired, what << ": the endpoint list is not finalised");
    if (!live.empty()) {  // the failing finalisation released nothing
      rmw_ret_t x = rmw_topic_endpoint_info_array_fini(&leaked, &ctx.options.allocator);
      REQUIRE(x == RMW_RET_OK, "harness");
    }
    if (ret == RMW_RET_OK) {
      REQUIRE(same(q, expected(o, es, sub)), what << ": gives " << show(q));
    }
  } else {
    REQUIRE(ret == RMW_RET_OK, what << ": returns " << ret);
    REQUIRE(same(q, expected(o, es, sub)), what << ": gives " << show(q) << ", expected " <<
      show(expected(o, es, sub)));
  }
  REQUIRE(live.empty(), what << ": " << live.size() << " blocks of the endpoint list are not released");
}

static void c12(Rng & r, uint64_t)
{
  P q = wish(r), o = q, e = q;
  const P & d = rmw_qos_profile_services_default;
  if (q.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE) {e.reliability = d.reliability;}
  if (q.durability == RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE) {e.durability = d.durability;}
  if (q.liveliness == RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE) {e.liveliness = d.liveliness;}
  if (eq(q.deadline, BA)) {e.deadline = d.deadline;}
  if (eq(q.liveliness_lease_duration, BA)) {
    e.liveliness_lease_duration = d.liveliness_lease_duration;
  }
  P x = rmw_dds_common::qos_profile_update_best_available_for_services(q);
  REQUIRE(same(x, e), show(o) << " gives " << show(x) << ", expected " << show(e));
  REQUIRE(same(q, o), "the input is modified");
}

// ---------------------------------------------------------------------------- type hash
static bool same(const rosidl_type_hash_t & a, const rosidl_type_hash_t & b)
{
  return a.version == b.version && !memcmp(a.value, b.value, sizeof(a.value));
}
static std::string hexes(const rosidl_type_hash_t & h)
{
  char b[3];
  std::string s;
  snprintf(b, sizeof(b), "%02x", h.version);
  s = std::string("RIHS") + b + "_";
  for (auto x : h.value) {
    snprintf(b, sizeof(b), "%02x", x);
    s += b;
  }
  return s;
}
static rosidl_type_hash_t hash(Rng & r)
{
  rosidl_type_hash_t h;
  h.version = r.coin(3, 4) ? 1 : r.next();
  for (auto & x : h.value) {x = r.coin(1, 4) ? 0 : r.next();}
  return h;
}
static rmw_ret_t parse(const std::string & s, rosidl_type_hash_t & h)
{
  // exact-size heap block
  std::vector<uint8_t> v(s.begin(), s.end());
  uint8_t dummy = 0;
  return rmw_dds_common::parse_type_hash_from_user_data(v.empty() ? &dummy : v.data(), v.size(), h);
}

static void c13(Rng & r, uint64_t)
{
  rosidl_type_hash_t h = hash(r), h0 = h, out = hash(r), zero;
  memset(&zero, 0, sizeof(zero));
  std::string s = r.coin() ? "" : std::string(r.below(60), 'o'), s0 = s;
  if (r.coin(1, 6)) {h.version = h0.version = 0;}
  if (r.coin(1, 5) && h.version != 0) {
    int64_t c = static_cast<int64_t>(r.below(2));
    rcutils_fault_injection_set_count(c);
    rmw_ret_t ret = rmw_dds_common::encode_type_hash_for_user_data_qos(h, s);
    bool fired = rcutils_fault_injection_get_count() < 0;
    rcutils_fault_injection_set_count(-1);
    if (fired) {
      // stub: call 0 is a generic failure of the conversion, call 1 its allocation
      REQUIRE(c == 0 ? ret != RMW_RET_OK : ret == RMW_RET_BAD_ALLOC,
        "failing conversion returns " << ret);
      REQUIRE(s == s0, "a failing encoding changes the output string");
    }
    return;
  }
  rmw_ret_t ret = rmw_dds_common::encode_type_hash_for_user_data_qos(h, s);
  REQUIRE(ret == RMW_RET_OK, "encoding returns " << ret);
  REQUIRE(same(h, h0), "encoding changes the hash");
  std::string e = h.version ? "typehash=" + hexes(h) + ";" : "";
  REQUIRE(s == e, "encoding of " << hexes(h) << " is '" << s << "'");
  if (h.version == 1) {
    ret = parse(s, out);
    REQUIRE(ret == RMW_RET_OK && same(out, h), "round trip of " << hexes(h) << " returns " << ret <<
      " and " << hexes(out));
  }
  // other keys, in any position
  rosidl_type_hash_t g = hash(r);
  g.version = 1;
  std::string key = "typehash=" + hexes(g) + ";", pre = r.coin() ? "" : "enclave=/a/b;",
    post = r.coin() ? "" : "other=1;";
  out = hash(r);
  ret = parse(pre + key + post, out);
  REQUIRE(ret == RMW_RET_OK && same(out, g), "parsing '" << pre + key + post << "' returns " << ret);
  out = hash(r);
  std::string nokey = pre + post + (r.coin() ? "" : "typehas=" + hexes(g) + ";") +
    (r.coin() ? "" : "xtypehash=" + hexes(g) + ";");
  ret = parse(nokey, out);
  REQUIRE(ret == RMW_RET_OK && same(out, zero), "parsing '" << nokey << "' (no typehash) returns " <<
    ret << " and " << hexes(out));
  std::string bad = hexes(g);
  switch (r.below(5)) {
    case 0: bad[4] = '0', bad[5] = '2'; break;
    case 1: bad[7 + r.below(64)] = 'g'; break;
    case 2: bad.pop_back(); break;
    case 3: bad += '0'; break;
    default: bad[r.below(4)] = 'x';
  }
  ret = parse(pre + "typehash=" + bad + ";" + post, out);
  REQUIRE(ret != RMW_RET_OK, "parsing the malformed hash '" << bad << "' succeeds");
  out = h0;
  ret = rmw_dds_common::parse_type_hash_from_user_data(nullptr, r.below(50), out);
  REQUIRE(ret == RMW_RET_INVALID_ARGUMENT && same(out, h0), "null data returns " << ret);
}

int main(int argc, char ** argv)
{
  std::string p = argc > 1 ? argv[1] : "C07";
  double budget = argc > 2 ? atof(argv[2]) : 2;
  uint64_t seed = argc > 3 ? strtoull(argv[3], nullptr, 10) : 1;
  auto f = p == "C07" ? c07 : p == "C08" ? c08 : p == "C09" ? c09 : p == "C10" ? c10 :
    p == "C11" ? c11 : p == "C12" ? c12 : c13;
  return drive(p.c_str(), budget, seed, f, 20000000);
}
