import os, runpy
_d = os.path.dirname(os.path.abspath(__file__))
_m = runpy.run_path(os.path.join(_d, 'more.py'))
_q, _s, _g, GIDHEAD, G, C, GC, CX, QS = [_m[k] for k in ('_q', '_s', '_g', 'GIDHEAD', 'G', 'C', 'GC', 'CX', 'QS')]
Q = ['qos', 'time_utils']
SEEDS = [
 dict(id='S62-exactly-one-second', property='C04', srcs=['time_utils'],
  needs='a nanosecond part of exactly one second',
  breaks='the time is returned as it is, with a nanosecond part that is not below one second',
  edits=[('src/time_utils.cpp', '  uint64_t ns_sec_adjust = t.nsec / sec_to_ns;\n', '''  if (t.sec <= INT_MAX && t.nsec <= sec_to_ns) {
    return t;  // nothing to normalize
  }
  uint64_t ns_sec_adjust = t.nsec / sec_to_ns;
''')],
  demo=r'''
#include <climits>
#include <cstdint>
#include <cstdio>
#include "rmw_dds_common/time_utils.hpp"
#define CHECK(c) do {if (!(c)) {std::printf("FAILED: %s\n", #c); return 1;}} while (0)
int main()
{
  rmw_time_t t;
  t.sec = 3;
  t.nsec = 1000000000ull;
  t = rmw_dds_common::clamp_rmw_time_to_dds_time(t);
  CHECK(t.sec == 4 && t.nsec == 0);
  t.sec = 3;
  t.nsec = 999999999ull;
  t = rmw_dds_common::clamp_rmw_time_to_dds_time(t);
  CHECK(t.sec == 3 && t.nsec == 999999999ull);
  return 0;
}
'''),
 dict(id='S63-order-by-difference', property='C05', srcs=['gid_utils'],
  needs='three GIDs whose deciding bytes are more than 127 apart',
  breaks='the order is decided by the sign of a difference kept in one byte: it is not transitive',
  edits=[('src/gid_utils.cpp', '''  return std::lexicographical_compare(
    lhs.data,
    lhs.data + RMW_GID_STORAGE_SIZE,
    rhs.data,
    rhs.data + RMW_GID_STORAGE_SIZE);''', '''  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {
    const int8_t diff = static_cast<int8_t>(lhs.data[i] - rhs.data[i]);
    if (diff != 0) {
      return diff < 0;
    }
  }
  return false;''')],
  demo=GIDHEAD + r'''
int main()
{
  Compare_rmw_gid_t less;
  rmw_gid_t a = Z(), b = Z(), c = Z();
  b.data[9] = 100;
  c.data[9] = 200;
  CHECK(less(a, b) && less(b, c) && less(a, c));
  CHECK(!less(c, a) && !less(c, b) && !less(b, a));
  return 0;
}
'''),
 dict(id='S64-identifier-cleared', property='C06', srcs=['gid_utils'],
  needs='a destination GID whose implementation identifier was set before the conversion',
  breaks='the conversion from a message erases the implementation identifier of the destination',
  edits=[('src/gid_utils.cpp', '  std::memcpy(const_cast<uint8_t *>(gid->data), &msg_gid->data, RMW_GID_STORAGE_SIZE);',
   '''  rmw_gid_t result{};
  std::memcpy(result.data, &msg_gid->data, RMW_GID_STORAGE_SIZE);
  *gid = result;''')],
  demo=GIDHEAD + r'''
int main()
{
  static const char id[] = "rmw_x";
  rmw_gid_t a = Z();
  a.implementation_identifier = id;
  msg::Gid m;
  m.data.fill(7);
  convert_msg_to_gid(&m, &a);
  CHECK(a.implementation_identifier == id);
  CHECK(a.data[0] == 7 && a.data[15] == 7);
  return 0;
}
'''),
 dict(id='S65-lease-in-whole-seconds', property='C07', srcs=Q,
  needs='a subscription lease below one second and a publisher without a lease',
  breaks='a subscription that requests a lease below one second counts as one that requests none',
  edits=[(QS, '''  if (pub_lease == liveliness_lease_duration_default &&
    sub_lease != liveliness_lease_duration_default)''', '''  if (pub_lease == liveliness_lease_duration_default &&
    sub_lease.sec != liveliness_lease_duration_default.sec)''')],
  demo=_q + r'''
int main() {
  auto p = base(), s = base();
  s.liveliness_lease_duration = T(0, 500000000);
  rmw_qos_compatibility_type_t v;
  CHECK(qos_profile_check_compatible(p, s, &v, nullptr, 0) == RMW_RET_OK);
  CHECK(v == RMW_QOS_COMPATIBILITY_ERROR);
  s.liveliness_lease_duration = T(1, 0);
  CHECK(qos_profile_check_compatible(p, s, &v, nullptr, 0) == RMW_RET_OK);
  CHECK(v == RMW_QOS_COMPATIBILITY_ERROR);
  return 0;
}
'''),
 dict(id='S66-last-liveliness-wins', property='C10', srcs=Q,
  needs='two subscriptions, an earlier one manual by topic and the last one not',
  breaks='only the last subscription decides whether liveliness is manual by topic',
  edits=[(QS, '''    if (RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC == profile.liveliness) {
      use_manual_by_topic = true;
    }
''', '''    use_manual_by_topic = RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC == profile.liveliness;
''')],
  demo=_q + r'''
int main() {
  auto a = base(), b = base();
  a.liveliness = RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC;
  std::vector<rmw_topic_endpoint_info_t> v;
  auto l = list(v, {a, b});
  auto q = rmw_qos_profile_best_available;
  CHECK(qos_profile_get_best_available_for_publisher(&l, &q) == RMW_RET_OK);
  CHECK(q.liveliness == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC);
  l = list(v, {b, a});
  q = rmw_qos_profile_best_available;
  CHECK(qos_profile_get_best_available_for_publisher(&l, &q) == RMW_RET_OK);
  CHECK(q.liveliness == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC);
  return 0;
}
'''),
 dict(id='S67-query-repeated', property='C11', srcs=Q,
  needs='a query that times out',
  breaks='the query is made a second time; its first answer is not the one that counts',
  edits=[(QS, '''    rmw_ret_t ret = get_endpoint_info(
      node, &allocator, topic_name, false, &publishers_info);
''', '''    rmw_ret_t ret = get_endpoint_info(
      node, &allocator, topic_name, false, &publishers_info);
    if (RMW_RET_TIMEOUT == ret) {
      ret = get_endpoint_info(node, &allocator, topic_name, false, &publishers_info);
    }
''')],
  demo=_q + r'''
int main() {
  rmw_context_t ctx;
  std::memset(&ctx, 0, sizeof(ctx));
  ctx.options.allocator = rcutils_get_default_allocator();
  rmw_node_t node;
  std::memset(&node, 0, sizeof(node));
  node.context = &ctx;
  int calls = 0;
  auto q = rmw_qos_profile_best_available;
  rmw_ret_t ret = qos_profile_get_best_available_for_topic_subscription(&node, "/t", &q,
    [&](const rmw_node_t *, rcutils_allocator_t * a, const char *, bool, rmw_topic_endpoint_info_array_t * o) {
      ++calls;
      return calls == 1 ? RMW_RET_TIMEOUT : rmw_topic_endpoint_info_array_init_with_size(o, 0, a);
    });
  CHECK(calls == 1);
  CHECK(ret == RMW_RET_TIMEOUT);
  return 0;
}
'''),
 dict(id='S68-other-topic-announced', property='C18', srcs=G,
  needs='a duplicate discovery of a writer, with another topic name than the first',
  breaks='the callback is called although nothing was added',
  edits=[(GC, '''    std::forward_as_tuple(topic_name, type_name, type_hash, participant_gid, qos));
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, pair.second);
  return pair.second;
}

bool
GraphCache::add_writer(
  const rmw_gid_t & gid,
  const std::string & topic_name,
  const std::string & type_name,
  const rmw_gid_t & participant_gid,''', '''    std::forward_as_tuple(topic_name, type_name, type_hash, participant_gid, qos));
  const bool changed = pair.second || pair.first->second.topic_name != topic_name;
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, changed);
  return pair.second;
}

bool
GraphCache::add_writer(
  const rmw_gid_t & gid,
  const std::string & topic_name,
  const std::string & type_name,
  const rmw_gid_t & participant_gid,''')],
  demo=_g + r'''
int main()
{
  GraphCache c;
  int n = 0;
  c.set_on_change_callback([&]() {++n;});
  CHECK(add_w(c, 5, "t", "T", 1) && n == 1);
  CHECK(!add_w(c, 5, "t", "T", 1) && n == 1);
  CHECK(!add_w(c, 5, "u", "T", 1));
  CHECK(n == 1);
  return 0;
}
'''),
 dict(id='S69-count-of-the-shorter-map', property='C19', srcs=G,
  needs='more readers than writers on the same topic',
  breaks='the number of readers is cut to the number of discovered writers',
  edits=[(GC, '  return __get_count(data_readers_, topic_name, count);', '''  rmw_ret_t ret = __get_count(data_readers_, topic_name, count);
  if (!data_writers_.empty() && *count > data_writers_.size() + 1u) {
    *count = data_writers_.size() + 1u;
  }
  return ret;''')],
  demo=_g + r'''
int main()
{
  GraphCache c;
  size_t n = 0;
  add_w(c, 1, "t", "T", 1);
  for (uint8_t i = 2; i < 6; ++i) {add_r(c, i, "t", "T", 1);}
  CHECK(c.get_reader_count("t", &n) == RMW_RET_OK && n == 4);
  return 0;
}
'''),
 dict(id='S70-empty-enclave-left-out', property='C24', srcs=G,
  needs='a participant whose enclave is not known yet, listed together with others',
  breaks='the enclave column has a null entry for its nodes',
  edits=[(GC, '        if (enclaves) {\n          enclaves->data[j] =', '        if (enclaves && !nodes_info.enclave.empty()) {\n          enclaves->data[j] =')],
  demo=_g + r'''
int main()
{
  GraphCache c;
  Msg m;
  rmw_gid_t g = G(1);
  rmw_dds_common::convert_gid_to_msg(&g, &m.gid);
  m.node_entities_info_seq.resize(1);
  m.node_entities_info_seq[0].node_name = "n";
  m.node_entities_info_seq[0].node_namespace = "/";
  c.update_participant_entities(m);
  c.add_participant(G(2), "/e");
  c.add_node(G(2), "m", "/");
  CHECK((nodes(c) == V{"/|n|", "/|m|/e"}));
  return 0;
}
'''),
 dict(id='S71-type-of-the-previous-topic', property='C23', srcs=G,
  needs='a node with two endpoints on different topics, the second one with an empty type',
  breaks='an endpoint with an empty demangled type is reported with the type of the endpoint before it',
  edits=[(GC, '''  NamesAndTypes topics;

  for (const auto & gid_msg : gids) {''', '''  NamesAndTypes topics;
  std::string type;

  for (const auto & gid_msg : gids) {'''), (GC, '''      continue;
    }
    topics[demangled_topic_name].insert(demangle_type(it->second.topic_type));
  }
  return topics;''', '''      continue;
    }
    if (!it->second.topic_type.empty()) {
      type = demangle_type(it->second.topic_type);
    }
    topics[demangled_topic_name].insert(type);
  }
  return topics;''')],
  demo=_g + r'''
int main()
{
  GraphCache c;
  c.add_participant(G(1), "/e");
  c.add_node(G(1), "n", "/");
  add_w(c, 5, "a", "A", 1);
  add_w(c, 6, "b", "", 1);
  c.associate_writer(G(6), G(1), "n", "/");
  CHECK((names(c, "n", false) == V{"b=,"}));
  c.associate_writer(G(5), G(1), "n", "/");
  c.associate_writer(G(6), G(1), "n", "/");
  CHECK((names(c, "n", false) == V{"a=A,", "b=,"}));
  return 0;
}
'''),
 dict(id='S72-reader-announced-first', property='C26', srcs=C,
  needs='a failing publication while a client is removed',
  breaks='after a failed publication the writer of the client is associated again: the removal is half undone',
  edits=[(CX, '''    graph_cache.dissociate_reader(
    response_subscriber_gid, gid, name, namespace_);

  if (!call_publish_callback(pub, publish_callback, msg)) {
    return RMW_RET_ERROR;
  }''', '''    graph_cache.dissociate_reader(
    response_subscriber_gid, gid, name, namespace_);

  if (!call_publish_callback(pub, publish_callback, msg)) {
    static_cast<void>(graph_cache.associate_writer(
      request_publisher_gid, gid, name, namespace_));
    return RMW_RET_ERROR;
  }''')],
  demo=_g + r'''
int main()
{
  rmw_publisher_t pub;
  rmw_ret_t ret = RMW_RET_OK;
  Msg last;
  Context c;
  c.gid = G(1);
  c.pub = &pub;
  c.publish_callback = [&](const rmw_publisher_t *, const void * m) {
      last = *static_cast<const Msg *>(m);
      return ret;
    };
  c.graph_cache.add_participant(G(1), "/a");
  CHECK(c.add_node_graph("n", "/") == RMW_RET_OK);
  CHECK(c.add_client_graph(G(5), G(6), "n", "/") == RMW_RET_OK);
  ret = RMW_RET_ERROR;
  CHECK(c.remove_client_graph(G(5), G(6), "n", "/") == RMW_RET_ERROR);
  ret = RMW_RET_OK;
  CHECK(c.add_node_graph("m", "/") == RMW_RET_OK);
  CHECK(last.node_entities_info_seq.size() == 2);
  CHECK(last.node_entities_info_seq[0].reader_gid_seq.empty());
  CHECK(last.node_entities_info_seq[0].writer_gid_seq.empty());
  return 0;
}
'''),
]
