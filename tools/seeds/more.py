import os, runpy
_d = os.path.dirname(os.path.abspath(__file__))
_q = runpy.run_path(os.path.join(_d, 'qos.py'))['HEAD']
_s = runpy.run_path(os.path.join(_d, 'security.py'))['HEAD']
_g = runpy.run_path(os.path.join(_d, 'graph.py'))['HEAD']
G = ['graph_cache', 'gid_utils']
C = ['context', 'graph_cache', 'gid_utils']
GC = 'src/graph_cache.cpp'
CX = 'src/context.cpp'
QS = 'src/qos.cpp'
GIDHEAD = r'''
#include <cstdio>
#include <cstring>
#include "rmw/types.h"
#include "rmw_dds_common/gid_utils.hpp"
#include "rmw_dds_common/msg/gid.hpp"
using namespace rmw_dds_common;
#define CHECK(c) do {if (!(c)) {std::printf("FAILED: %s\n", #c); return 1;}} while (0)
static rmw_gid_t Z()
{
  rmw_gid_t g;
  std::memset(&g, 0, sizeof(g));
  return g;
}
'''
SEEDS = [
 dict(id='S06-sum-wraps', property='C04', srcs=['time_utils'],
  needs='seconds within a few units of the largest 64-bit value and at least one whole second in nsec',
  breaks='the sum of the seconds wraps around: an enormous duration becomes a tiny one',
  edits=[('src/time_utils.cpp', '  if (t.sec > INT_MAX - ns_sec_adjust) {', '  if (t.sec + ns_sec_adjust > INT_MAX) {')],
  demo=r'''
#include <climits>
#include <cstdint>
#include <cstdio>
#include "rmw_dds_common/time_utils.hpp"
#define CHECK(c) do {if (!(c)) {std::printf("FAILED: %s\n", #c); return 1;}} while (0)
int main()
{
  rmw_time_t t;
  t.sec = UINT64_MAX;
  t.nsec = 1000000000ull;
  t = rmw_dds_common::clamp_rmw_time_to_dds_time(t);
  CHECK(t.sec == INT_MAX && t.nsec == 999999999ull);
  t.sec = INT_MAX;
  t.nsec = 5;
  t = rmw_dds_common::clamp_rmw_time_to_dds_time(t);
  CHECK(t.sec == INT_MAX && t.nsec == 5);
  return 0;
}
'''),
 dict(id='S07-order-stops-at-zero', property='C05', srcs=['gid_utils'],
  needs='two GIDs that agree up to and including a zero byte and differ after it',
  breaks='GIDs that differ only after a zero byte are equivalent in the order although they are not equal',
  edits=[('src/gid_utils.cpp', '''  return std::lexicographical_compare(
    lhs.data,
    lhs.data + RMW_GID_STORAGE_SIZE,
    rhs.data,
    rhs.data + RMW_GID_STORAGE_SIZE);''', '''  return std::strncmp(
    reinterpret_cast<const char *>(lhs.data),
    reinterpret_cast<const char *>(rhs.data),
    RMW_GID_STORAGE_SIZE) < 0;''')],
  demo=GIDHEAD + r'''
int main()
{
  Compare_rmw_gid_t less;
  rmw_gid_t a = Z(), b = Z();
  a.data[0] = b.data[0] = 1;
  b.data[9] = 7;
  CHECK(!(a == b));
  CHECK(less(a, b) && !less(b, a) && !less(a, a));
  b.data[9] = 0;
  b.data[0] = 0xff;
  CHECK(less(a, b) && !less(b, a));
  return 0;
}
'''),
 dict(id='S08-message-stops-at-zero', property='C06', srcs=['gid_utils'],
  needs='a message whose GID has a nonzero byte after a zero byte',
  breaks='the bytes of the GID after its first zero byte are lost',
  edits=[('src/gid_utils.cpp', '  std::memcpy(const_cast<uint8_t *>(gid->data), &msg_gid->data, RMW_GID_STORAGE_SIZE);',
    '''  std::strncpy(
    reinterpret_cast<char *>(gid->data),
    reinterpret_cast<const char *>(msg_gid->data.data()),
    RMW_GID_STORAGE_SIZE);''')],
  demo=GIDHEAD + r'''
int main()
{
  rmw_gid_t a = Z(), b = Z();
  msg::Gid m;
  for (int k = 0; k < 2; ++k) {
    for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {a.data[i] = static_cast<uint8_t>(i + 1);}
    if (k == 1) {a.data[3] = 0;}
    convert_gid_to_msg(&a, &m);
    convert_msg_to_gid(&m, &b);
    CHECK(std::memcmp(a.data, b.data, RMW_GID_STORAGE_SIZE) == 0);
  }
  return 0;
}
'''),
 dict(id='S09-infinite-is-no-deadline', property='C09', srcs=['qos', 'time_utils'],
  needs='a publisher with the infinite deadline next to one with a finite deadline',
  breaks='an infinite deadline does not take part in the maximum: the subscription asks for more than a publisher offers',
  edits=[(QS, '''    if (profile.deadline != deadline_default) {
      use_default_deadline = false;
      if (largest_deadline < profile.deadline) {''', '''    static const rmw_time_t infinite = RMW_DURATION_INFINITE;
    if (profile.deadline != deadline_default && profile.deadline != infinite) {
      use_default_deadline = false;
      if (largest_deadline < profile.deadline) {''')],
  demo=_q + r'''
int main() {
  auto a = base(), b = base();
  a.deadline = T(5, 0);
  b.deadline = RMW_DURATION_INFINITE;
  std::vector<rmw_topic_endpoint_info_t> v;
  auto l = list(v, {a, b});
  auto q = rmw_qos_profile_best_available;
  CHECK(qos_profile_get_best_available_for_subscription(&l, &q) == RMW_RET_OK);
  CHECK(eq(q.deadline, RMW_DURATION_INFINITE));
  return 0;
}
'''),
 dict(id='S10-one-duration-only', property='C12', srcs=['qos', 'time_utils'],
  needs='a service profile whose deadline and lease duration are both BEST_AVAILABLE',
  breaks='the lease duration of the service stays BEST_AVAILABLE',
  edits=[(QS, '''    result.deadline = rmw_qos_profile_services_default.deadline;
  }
  if (liveliness_lease_duration_best_available == result.liveliness_lease_duration) {''',
  '''    result.deadline = rmw_qos_profile_services_default.deadline;
  } else if (liveliness_lease_duration_best_available == result.liveliness_lease_duration) {''')],
  demo=_q + r'''
int main() {
  auto q = rmw_qos_profile_services_default;
  q.deadline = rmw_qos_profile_best_available.deadline;
  CHECK(eq(qos_profile_update_best_available_for_services(q).deadline, rmw_qos_profile_services_default.deadline));
  q = rmw_qos_profile_services_default;
  q.liveliness_lease_duration = rmw_qos_profile_best_available.liveliness_lease_duration;
  q.deadline = rmw_qos_profile_best_available.deadline;
  auto r = qos_profile_update_best_available_for_services(q);
  CHECK(eq(r.deadline, rmw_qos_profile_services_default.deadline));
  CHECK(eq(r.liveliness_lease_duration, rmw_qos_profile_services_default.liveliness_lease_duration));
  return 0;
}
'''),
 dict(id='S18-key-as-substring', property='C13', srcs=['qos', 'time_utils'],
  needs='user data with another key that ends in "typehash"',
  breaks='the value of another key is taken for the type hash',
  edits=[(QS, '''  auto key_value = rmw::impl::cpp::parse_key_value(udvec);
  auto typehash_it = key_value.find("typehash");
  if (typehash_it == key_value.end()) {''', '''  auto key_value = rmw::impl::cpp::parse_key_value(udvec);
  auto typehash_it = std::find_if(
    key_value.begin(), key_value.end(), [](const auto & entry) {
      const std::string key("typehash");
      return entry.first.size() >= key.size() &&
      entry.first.compare(entry.first.size() - key.size(), key.size(), key) == 0;
    });
  if (typehash_it == key_value.end()) {'''),
   (QS, '#include <vector>\n', '#include <vector>\n#include <algorithm>\n')],
  demo=_q + r'''
int main() {
  rosidl_type_hash_t h, o;
  std::memset(&h, 7, sizeof(h));
  h.version = 1;
  std::string s;
  CHECK(encode_type_hash_for_user_data_qos(h, s) == RMW_RET_OK);
  auto parse = [&](const std::string & t) {
      return parse_type_hash_from_user_data(reinterpret_cast<const uint8_t *>(t.data()), t.size(), o);
    };
  CHECK(parse(s) == RMW_RET_OK && std::memcmp(h.value, o.value, sizeof(h.value)) == 0);
  CHECK(parse("oldtypehash=x;" + s) == RMW_RET_OK && std::memcmp(h.value, o.value, sizeof(h.value)) == 0);
  CHECK(parse("oldtypehash=x;") == RMW_RET_OK && o.version == 0);
  return 0;
}
'''),
 dict(id='S19-fresh-map-swapped-in', property='C03', srcs=['security'],
  needs='a result map that already holds an entry which is none of the security attributes',
  breaks='a successful lookup drops the other entries of the map of the caller',
  edits=[('src/security.cpp', '''  for (const std::pair<const std::string,
    std::vector<std::pair<std::string, security_file_processor>>> & el : required_files)
  {''', '''  std::unordered_map<std::string, std::string> found;
  for (const std::pair<const std::string,
    std::vector<std::pair<std::string, security_file_processor>>> & el : required_files)
  {'''),
   ('src/security.cpp', '    result[el.first] = attribute_value;', '    found[el.first] = attribute_value;'),
   ('src/security.cpp', '''  for (const std::pair<const std::string, std::string> & el : optional_files) {
    std''', '''  // nothing was changed so far
  result.swap(found);

  for (const std::pair<const std::string, std::string> & el : optional_files) {
    std''')],
  demo=_s + r'''
int main() {
  all();
  std::unordered_map<std::string, std::string> r{{"CERTIFICATE", "old"}, {"MINE", "x"}};
  CHECK(get_security_files("file://", root, r));
  CHECK(r["CERTIFICATE"] == "file://" + root + "/cert.pem");
  CHECK(r.size() == 7 && r["MINE"] == "x");
  return 0;
}
'''),
 dict(id='S45-message-before-enclave', property='C15', srcs=G,
  needs='an entities message from a participant that arrives before the participant itself is discovered',
  breaks='the enclave of a participant that was first known by its message is never stored',
  edits=[(GC, '''    it = ret.first;
    assert(ret.second);
  }
  it->second.enclave = enclave;''', '''    it = ret.first;
    assert(ret.second);
    it->second.enclave = enclave;
  } else if (!it->second.enclave.empty()) {
    it->second.enclave = enclave;
  }''')],
  demo=_g + r'''
int main()
{
  GraphCache c;
  c.add_participant(G(1), "/a");
  c.add_participant(G(1), "/b");
  Msg m = c.add_node(G(1), "n", "/");
  CHECK((nodes(c) == V{"/|n|/b"}));
  GraphCache d;
  d.update_participant_entities(m);
  d.add_participant(G(1), "/b");
  CHECK((nodes(d) == V{"/|n|/b"}));
  return 0;
}
'''),
 dict(id='S47-untyped-topics-hidden', property='C22', srcs=G,
  needs='an endpoint whose type name has an empty demangled form',
  breaks='a topic whose type demangles to the empty string is not reported',
  edits=[(GC, '''    std::string demangled_topic_name = demangle_topic(item.second.topic_name);
    if ("" != demangled_topic_name) {
      topics[demangled_topic_name].insert(demangle_type(item.second.topic_type));''',
  '''    std::string demangled_topic_name = demangle_topic(item.second.topic_name);
    std::string demangled_type = demangle_type(item.second.topic_type);
    if ("" != demangled_topic_name && "" != demangled_type) {
      topics[demangled_topic_name].insert(demangled_type);''')],
  demo=_g + r'''
int main()
{
  GraphCache c;
  CHECK(add_w(c, 1, "t", "T", 1));
  CHECK(add_r(c, 2, "u", "", 1));
  CHECK((names(c, nullptr, false) == V{"t=T,", "u=,"}));
  return 0;
}
'''),
 dict(id='S49-any-list-of-the-node', property='C20', srcs=G,
  needs='a writer without a node whose GID is the GID of a reader of a node',
  breaks='an endpoint is attributed to the node that lists its GID as an endpoint of the other kind',
  edits=[(GC, '''    if (gid_seq.end() != it) {
      return {node_info.node_name''', '''    const auto & other_seq = is_reader ? node_info.writer_gid_seq : node_info.reader_gid_seq;
    rmw_dds_common::msg::Gid entity_msg;
    rmw_dds_common::convert_gid_to_msg(&entity_gid, &entity_msg);
    if (
      gid_seq.end() != it ||
      std::find(other_seq.begin(), other_seq.end(), entity_msg) != other_seq.end())
    {
      return {node_info.node_name''')],
  demo=_g + r'''
int main()
{
  GraphCache c;
  bool ok;
  c.add_participant(G(1), "/a");
  c.add_node(G(1), "n", "/");
  c.associate_reader(G(5), G(1), "n", "/");
  CHECK(add_r(c, 5, "t", "T", 1));
  CHECK(add_w(c, 5, "t", "T", 1));
  CHECK((info(c, "t", true, ok) == V{"/|n|T"}));
  CHECK((info(c, "t", false, ok) == V{"_NODE_NAMESPACE_UNKNOWN_|_NODE_NAME_UNKNOWN_|T"}));
  return 0;
}
'''),
 dict(id='S51-callback-replaced-unlocked', property='C27', srcs=G,
  needs='a callback that is replaced while another thread is running the old one',
  breaks='set_on_change_callback replaces the callback without the lock, under a thread that is calling it',
  edits=[('include/rmw_dds_common/graph_cache.hpp', '''  {
    std::lock_guard<std::mutex> lock(mutex_);
    on_change_callback_ = callback;''', '''  {
    {
      std::lock_guard<std::mutex> lock(mutex_);
      on_change_callback_ = nullptr;
    }
    on_change_callback_ = callback;''')],
  demo='#include <atomic>\n#include <chrono>\n#include <mutex>\n#include <pthread.h>\n#include <dlfcn.h>\n' + _g + r'''
static thread_local int held = 0;
extern "C" int pthread_mutex_lock(pthread_mutex_t * m) noexcept
{
  static auto f = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
  ++held;
  return f(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t * m) noexcept
{
  static auto f = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
  --held;
  return f(m);
}
static int bad = 0;
// notices whether it is copied into the cache under a lock
struct Callback
{
  Callback() {}
  Callback(const Callback &) {if (armed && held <= 0) {++bad;}}
  void operator()() const {}
  static bool armed;
};
bool Callback::armed = false;
int main()
{
  GraphCache c;
  Callback f;
  Callback::armed = true;
  c.set_on_change_callback(f);
  Callback::armed = false;
  CHECK(bad == 0);
  return 0;
}
'''),
 dict(id='S57-names-compared-joined', property='C16', srcs=G,
  needs='two nodes whose namespace and name give the same text when they are joined',
  breaks='another node than the named one is removed',
  edits=[(GC, '''    [&node_name, &node_namespace](const rmw_dds_common::msg::NodeEntitiesInfo & node_info) {
      return node_info.node_name == node_name && node_info.node_namespace == node_namespace;''',
  '''    [&node_name, &node_namespace](const rmw_dds_common::msg::NodeEntitiesInfo & node_info) {
      return node_info.node_namespace + node_info.node_name == node_namespace + node_name;''')],
  demo=_g + r'''
int main()
{
  GraphCache c;
  c.add_participant(G(1), "/e");
  c.add_node(G(1), "bc", "/a");
  c.add_node(G(1), "c", "/ab");
  c.remove_node(G(1), "c", "/ab");
  CHECK((nodes(c) == V{"/a|bc|/e"}));
  return 0;
}
'''),
 dict(id='S60-service-rollback-swapped', property='C25', srcs=C,
  needs='publication that fails while a service is added',
  breaks='the writer and the reader of the service stay associated',
  edits=[(CX, '''    static_cast<void>(graph_cache.dissociate_writer(
      response_publisher_gid, gid, name, namespace_));
    static_cast<void>(graph_cache.dissociate_reader(
      request_subscriber_gid, gid, name, namespace_));''', '''    static_cast<void>(graph_cache.dissociate_reader(
      response_publisher_gid, gid, name, namespace_));
    static_cast<void>(graph_cache.dissociate_writer(
      request_subscriber_gid, gid, name, namespace_));''')],
  demo=_g + r'''
int main()
{
  rmw_publisher_t pub;
  rmw_ret_t ret = RMW_RET_OK;
  Msg last;
  Context c;
  c.gid = G(1);
  c.pub = &pub;
  c.publish_callback = [&](const rmw_publisher_t *, const void * m) {
      last = *static_cast<const Msg *>(m);
      return ret;
    };
  c.graph_cache.add_participant(G(1), "/a");
  CHECK(c.add_node_graph("n", "/") == RMW_RET_OK);
  ret = RMW_RET_ERROR;
  CHECK(c.add_service_graph(G(5), G(6), "n", "/") == RMW_RET_ERROR);
  ret = RMW_RET_OK;
  CHECK(c.add_node_graph("m", "/") == RMW_RET_OK);
  CHECK(last.node_entities_info_seq.size() == 2);
  CHECK(last.node_entities_info_seq[0].reader_gid_seq.empty());
  CHECK(last.node_entities_info_seq[0].writer_gid_seq.empty());
  return 0;
}
'''),
 dict(id='S61-whole-buffer-again', property='C08', srcs=['qos', 'time_utils'],
  needs='a reason buffer that is smaller than the text of two or more reasons',
  breaks='the second reason is written beyond the end of the buffer',
  edits=[(QS, '  size_t write_size = buffer_size - offset;', '  size_t write_size = offset < buffer_size ? buffer_size : 0u;')],
  demo=_q + r'''
int main() {
  auto p = base(), s = base();
  p.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT;
  s.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;
  p.durability = RMW_QOS_POLICY_DURABILITY_VOLATILE;
  s.durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;
  rmw_qos_compatibility_type_t v;
  std::vector<char> b(100, 'z');
  CHECK(qos_profile_check_compatible(p, s, &v, b.data(), 70) == RMW_RET_OK);
  CHECK(strnlen(b.data(), 70) < 70);
  CHECK(b[70] == 'z' && b[71] == 'z' && b[99] == 'z');
  return 0;
}
'''),
]
